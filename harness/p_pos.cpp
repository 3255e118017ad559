// C27: monomials and posynomials against a term list in long double.
#include "vh.hpp"
#include <cmath>
#include <ellip/posynomial.hpp>

using namespace vh;

namespace
{
using M = monomial<double>;
using P = posynomial<double>;
using Va = std::valarray<double>;

struct Term
{
    LD b = 0;
    std::vector<LD> a;
    LD hb = 0; // magnitudes met on the way: what rounding is relative to
    std::vector<LD> ha;
    void add(LD x)
    {
        b += x;
        hb += std::fabs(x);
    }
    void start()
    {
        hb = std::fabs(b);
        ha = a;
        for (auto& v : ha)
            v = std::fabs(v);
    }
};
using Sum = std::vector<Term>;

Term mul(Term x, const Term& y, LD s)
{
    const Term z = y; // y may be x
    x.b += s * z.b;
    x.hb += std::fabs(s) * z.hb;
    for (size_t i = 0; i < x.a.size(); ++i)
    {
        x.a[i] += s * z.a[i];
        x.ha[i] += std::fabs(s) * z.ha[i];
    }
    return x;
}
double coeff(Rng& r)
{
    switch (r.i(0, 9))
    {
        case 0:
        case 1: return 1.;
        case 2:
        case 3: return double(r.i(1, 9));
        case 4: return r.logu(1e-290, 1e290);
        default: return r.logu(1e-3, 1e3);
    }
}
double expo(Rng& r)
{
    switch (r.i(0, 3))
    {
        case 0: return 0.;
        case 1: return double(r.i(-3, 3));
        default: return r.normal();
    }
}

struct Mono
{
    M m;
    Term t;
};

Mono make0(Rng& r, size_t n)
{
    const double c = coeff(r);
    Term t;
    t.b = std::log(LD(c));
    Va a(n);
    for (size_t i = 0; i < n; ++i)
    {
        a[i] = expo(r);
        t.a.push_back(a[i]);
    }
    switch (r.i(0, 4))
    {
        case 0:
        { // c, x1..xn in one array
            std::vector<double> ar {c};
            for (auto v : a)
                ar.push_back(v);
            return {M(n, ar.data()), t};
        }
        case 1:
            t.a.assign(n, 0.L);
            return {M(n, c), t};
        case 2:
        {
            t.a.assign(n, 0.L);
            M m(n);
            m.set_coeff(c);
            return {m, t};
        }
        case 3:
            if (n == 2)
                return {M(c, {a[0], a[1]}), t};
            return {M(c, a), t};
        default:
            return {M(c, a), t};
    }
}

Mono make(Rng& r, size_t n)
{
    Mono x = make0(r, n);
    x.t.start();
    return x;
}

Mono derive(Ctx& ctx, Rng& r, size_t n)
{
    Mono x = make(r, n);
    for (int64_t k = r.i(0, 3); k > 0; --k)
    {
        const Mono y = make(r, n);
        const double c = coeff(r);
        const LD lc = std::log(LD(c));
        const Term t0 = x.t;
        ctx.event("monomial operations");
        switch (r.i(0, 13))
        {
            case 0: x.m *= y.m; x.t = mul(x.t, y.t, 1); break;
            case 1: x.m /= y.m; x.t = mul(x.t, y.t, -1); break;
            case 2: x.m *= c; x.t.add(lc); break;
            case 3: x.m /= c; x.t.add(-lc); break;
            case 4: x.m = x.m * c; x.t.add(lc); break;
            case 5: x.m = x.m / c; x.t.add(-lc); break;
            case 6: x.m = c * x.m; x.t.add(lc); break;
            case 7:
                x.m = c / x.m;
                x.t = mul(x.t, x.t, -2);
                x.t.add(lc);
                break;
            case 8: x.m = x.m * y.m; x.t = mul(x.t, y.t, 1); break;
            case 9: x.m = x.m / y.m; x.t = mul(x.t, y.t, -1); break;
            case 10: x.m.sqrt(); x.t = mul(x.t, x.t, -0.5L); break;
            case 11: x.m = sqrt(x.m); x.t = mul(x.t, x.t, -0.5L); break;
            case 12: x.m *= x.m; x.t = mul(x.t, x.t, 1); break;
            default: x.m.set_coeff(c); x.t.b = lc; x.t.hb = std::fabs(lc);
        }
        (void)t0;
    }
    return x;
}

LD eval(const Term& t, const Va& y, LD* mag = nullptr)
{
    LD s = t.b, m = t.hb;
    for (size_t i = 0; i < t.a.size(); ++i)
    {
        s += t.a[i] * y[i];
        m += t.ha[i] * std::fabs(LD(y[i]));
    }
    if (mag)
        *mag = m;
    return s;
}

Va point(Rng& r, size_t n)
{
    Va y(n);
    const double w = r.chance(0.3) ? 10. : r.chance(0.2) ? r.logu(10., 1e4) : 1.;
    for (auto& v : y)
        v = r.chance(0.1) ? 0. : r.normal() * w;
    return y;
}
std::string show(const Sum& s)
{
    std::string o;
    for (auto& t : s)
        o += cat(o.empty() ? "" : " + ", "exp(", t.b, " ", vec(t.a), ".y)");
    return o.size() > 900 ? o.substr(0, 900) + "..." : o;
}

void check_mono(Ctx& ctx, Rng& r, const Mono& x)
{
    const size_t n = x.t.a.size();
    const Va y = point(r, n);
    ctx.scenario(cat("monomial ", show({x.t}), " y ", vec(y)));
    LD mag = 0;
    const LD f = eval(x.t, y, &mag);
    const LD tol = 1e-13L * (1 + mag) * 10;
    auto near = [&](double v, const char* key) { ctx.expect(std::fabs(LD(v) - f) <= tol, key, cat("value ", v, ", is ", f)); };
    auto grad = [&](const Va& g, const char* key) {
        if (!ctx.expect(g.size() == n, key, cat(g.size(), " components")))
            return;
        for (size_t i = 0; i < n; ++i)
            ctx.expect(std::fabs(LD(g[i]) - x.t.a[i]) <= 1e-13L * (1 + x.t.ha[i]) * 10, key, cat("component ", i, " is ", g[i]));
    };
    near(x.m.lse(y), "mono:lse");
    grad(x.m.lse_gradient(y), "mono:lse_gradient");
    double v = -7.;
    grad(x.m.lse_gradient(y, v), "mono:lse_gradient-f");
    near(v, "mono:lse_gradient-f");
    Va g(n);
    v = x.m.log_exp_fvalue_with_gradient(y, g);
    near(v, "mono:fvalue");
    grad(g, "mono:fvalue-gradient");
    ctx.event("monomials evaluated");
    ctx.nontrivial(hashd(hashd(n, double(f)), y[0]));
}

void check_pos(Ctx& ctx, Rng& r, const P& p, const Sum& s, const std::string& how)
{
    const size_t n = s[0].a.size();
    Va y = point(r, n);
    std::vector<LD> e;
    LD mag = 0;
    LD top = -1e99L;
    for (auto& t : s)
    {
        LD k = 0;
        e.push_back(eval(t, y, &k));
        mag = std::max(mag, k);
        top = std::max(top, e.back());
    }
    if (std::fabs(top) > 700)
        ctx.event("sums beyond the range of exp");
    ctx.scenario(cat(how, " = ", show(s), " y ", vec(y)));
    LD sum = 0;
    for (auto& v : e)
    { // relative to the largest term
        v -= top;
        sum += std::exp(v);
    }
    const LD f = top + std::log(sum);
    std::vector<LD> gr(n, 0.L), lo(n, 1e99L), hi(n, -1e99L), ga(n, 0.L);
    for (size_t l = 0; l < s.size(); ++l)
        for (size_t i = 0; i < n; ++i)
        {
            gr[i] += s[l].a[i] * std::exp(e[l]) / sum;
            ga[i] = std::max(ga[i], s[l].ha[i]);
            lo[i] = std::min(lo[i], s[l].a[i]);
            hi[i] = std::max(hi[i], s[l].a[i]);
        }
    const LD tol = 1e-12L * (1 + mag) * LD(1 + s.size());
    auto near = [&](double v, const char* key) { ctx.expect(std::fabs(LD(v) - f) <= tol, key, cat("value ", v, ", is ", f)); };
    auto grad = [&](const Va& g, const char* key) {
        if (!ctx.expect(g.size() == n, key, cat(g.size(), " components")))
            return;
        for (size_t i = 0; i < n; ++i)
        {
            ctx.expect(std::fabs(LD(g[i]) - gr[i]) <= tol * (1 + ga[i]), key, cat("component ", i, " is ", g[i], ", is ", gr[i]));
            ctx.expect(g[i] >= lo[i] - tol * (1 + ga[i]) && g[i] <= hi[i] + tol * (1 + ga[i]), "pos:not-convex", cat("component ", i, " is ", g[i]));
        }
    };
    near(p.lse(y), "pos:lse");
    grad(p.log_exp_gradient(y), "pos:log_exp_gradient");
    Va g(n);
    double v = p.log_exp_fvalue_with_gradient(y, g);
    near(v, "pos:fvalue");
    grad(g, "pos:fvalue-gradient");
    v = -7.;
    grad(p.lse_gradient(y, v), "pos:lse_gradient");
    near(v, "pos:lse_gradient-f");
    ctx.event(s.size() == 1 ? "single terms evaluated" : "posynomials evaluated");
    ctx.nontrivial(hashd(hashd(s.size(), double(f)), y[0]));
    ctx.sample(ctx.desc);
}

void build(Ctx& ctx, Rng& r)
{
    const size_t n = size_t(r.chance(0.03) ? r.i(6, 40) : r.i(1, 5));
    const Mono m = derive(ctx, r, n);
    P p(m.m);
    Sum s {m.t};
    if (r.chance(0.3))
    {
        const Mono k = derive(ctx, r, n);
        p = m.m + k.m;
        s.push_back(k.t);
    }
    std::string how = "p";
    check_pos(ctx, r, p, s, how);
    for (int64_t k = r.i(1, 6); k > 0; --k)
    {
        const Mono x = derive(ctx, r, n);
        const double c = coeff(r);
        const LD lc = std::log(LD(c));
        const P before(p);
        const Sum s0 = s;
        const int op = int(r.i(0, 15));
        ctx.event("posynomial operations");
        auto each = [&](auto f) {
            for (auto& t : s)
                f(t);
        };
        how += cat(",", op);
        switch (op)
        {
            case 0: p += x.m; s.push_back(x.t); break;
            case 1: p = p + x.m; s.push_back(x.t); break;
            case 2: p *= x.m; each([&](Term& t) { t = mul(t, x.t, 1); }); break;
            case 3: p /= x.m; each([&](Term& t) { t = mul(t, x.t, -1); }); break;
            case 4: p = p * x.m; each([&](Term& t) { t = mul(t, x.t, 1); }); break;
            case 5: p = p / x.m; each([&](Term& t) { t = mul(t, x.t, -1); }); break;
            case 6: p *= c; each([&](Term& t) { t.add(lc); }); break;
            case 7: p /= c; each([&](Term& t) { t.add(-lc); }); break;
            case 8: p = p * c; each([&](Term& t) { t.add(lc); }); break;
            case 9: p = p / c; each([&](Term& t) { t.add(-lc); }); break;
            case 10:
            case 11:
            { // times another sum
                const Mono y = derive(ctx, r, n);
                const P q = x.m + y.m;
                if (s.size() > 30)
                    break;
                p = op == 10 ? p * q : q * p;
                s.clear();
                for (auto& t : s0)
                {
                    s.push_back(mul(t, x.t, 1));
                    s.push_back(mul(t, y.t, 1));
                }
                break;
            }
            case 12:
            { // plus another sum
                const Mono y = derive(ctx, r, n);
                const P q = x.m + y.m;
                p += q;
                s.push_back(x.t);
                s.push_back(y.t);
                break;
            }
            case 13: // itself
                if (s.size() > 30)
                    break;
                p += p;
                s.insert(s.end(), s0.begin(), s0.end());
                break;
            case 14: // normalized by one of its terms
            {
                const size_t j = size_t(r.i(0, int64_t(s.size()) - 1));
                if (p._M.size() != s.size())
                    break;
                p /= p._M[j];
                const LD lse0 = eval(s0[j], Va(0., n));
                (void)lse0;
                // terms need not be kept in order: identify it by its value
                Term t;
                t.b = before._M[j]._b;
                for (auto v : before._M[j]._a)
                    t.a.push_back(v);
                t.start();
                for (auto& u : s0)
                {
                    t.hb = std::max(t.hb, u.hb);
                    for (size_t i = 0; i < n; ++i)
                        t.ha[i] = std::max(t.ha[i], u.ha[i]);
                }
                each([&](Term& u) { u = mul(u, t, -1); });
                break;
            }
            default:
                if (s.size() * s.size() > 60)
                    break;
                p = p * p;
                s.clear();
                for (auto& t : s0)
                    for (auto& u : s0)
                        s.push_back(mul(t, u, 1));
        }
        check_pos(ctx, r, p, s, how);
        check_pos(ctx, r, before, s0, how + " (copy of before)");
        if (s.size() > 200)
            return;
    }
}
} // namespace

VH_PROPERTY(C27)
{
    ctx.group("monomial", 40000, [&](Rng& r) {
        const Mono x = derive(ctx, r, size_t(r.chance(0.03) ? r.i(7, 60) : r.i(1, 6)));
        check_mono(ctx, r, x);
    });
    ctx.group("posynomial", 15000, [&](Rng& r) { build(ctx, r); });
    ctx.group("empty-terms", 500, [&](Rng& r) { // n variables, N unit terms
        const size_t n = size_t(r.i(1, 4)), N = size_t(r.i(1, 5));
        P p(n, N);
        Sum s(N);
        for (auto& t : s)
        {
            t.a.assign(n, 0.L);
            t.start();
        }
        check_pos(ctx, r, p, s, cat("p(", n, ",", N, ")"));
    });
}
