// C28, C29: the geometric-programming package (ellip/): its ellipsoid, its
// three loops and its oracle.
#include "ellref.hpp"
#include "vh.hpp"
#include <cmath>
#include <memory>
#include <valarray>
#include <vector>
#include <ellip/ellipsoid.hpp>
#include <ellip/gp_solve.hpp>
#include <ellip/profitmaxprob.hpp>

using er::State;
using vh::cat;
using vh::Ctx;
using vh::LD;
using vh::mix;
using vh::hashd;
using vh::hashs;
using vh::Rng;
using Va = std::valarray<double>;

namespace
{
std::string show(const Va& v)
{
    return vh::vec(std::vector<double>(std::begin(v), std::end(v)));
}
la::Vec lv(const Va& v)
{
    return la::Vec(std::begin(v), std::end(v));
}
LD ddot(const Va& a, const Va& b)
{
    LD s = 0;
    for (size_t i = 0; i < a.size(); ++i)
        s += LD(a[i]) * b[i];
    return s;
}

// an ellipsoid that measures lengths and gradients in other units inside
struct Box
{
    ellipsoid E;
    int n;
    double len, grad;
    Box(ellipsoid e, int n_, double l, double g)
        : E(e)
        , n(n_)
        , len(l)
        , grad(g)
    {
    }
    void central(const Va& g) { E.update(g * grad); }
    CUTSTATUS deep(const Va& g, double b) { return E.update(g * grad, b * grad * len); }
};

// centre and shape, through central cuts of copies
State probe(Ctx& ctx, const Box& B)
{
    State st;
    st.n = B.n;
    ellipsoid C(B.E);
    for (double v : C.x())
        st.c.push_back(LD(v) / B.len);
    st.P = la::Mat(B.n, B.n);
    for (int i = 0; i < B.n; ++i)
    {
        ellipsoid D(B.E);
        D.x() = 0.;
        Va g(0., size_t(B.n));
        g[size_t(i)] = 1;
        D.update(g);
        const LD root = -(B.n + 1) * LD(D.x()[size_t(i)]) / B.len;
        for (int j = 0; j < B.n; ++j)
            st.P(j, i) = -(B.n + 1) * LD(D.x()[size_t(j)]) / B.len * root;
    }
    bool sym = true;
    for (int i = 0; i < B.n; ++i)
        for (int j = 0; j < i; ++j)
        {
            sym = sym && std::fabs(st.P(i, j) - st.P(j, i)) <= 1e-12L * std::sqrt(std::fabs(st.P(i, i) * st.P(j, j)));
            st.P(i, j) = st.P(j, i) = (st.P(i, j) + st.P(j, i)) / 2;
        }
    ctx.expect(sym || !er::finite(st), "asymmetric", "the shape is not symmetric");
    return st;
}

Box start(Ctx& ctx, Rng& r, int n, std::string& log)
{
    Va x(static_cast<size_t>(n)), d(static_cast<size_t>(n));
    for (auto& v : x)
        v = r.chance(0.3) ? double(r.i(-3, 3)) : 3 * r.normal();
    const bool ball = r.chance(0.5);
    const double rho = r.logu(0.01, 1000);
    for (auto& v : d)
        v = ball ? rho : r.logu(0.05, 50);
    int le = 0, ge = 0;
    if (r.chance(0.3))
    {
        const int e = r.chance(0.5) ? 20 : 120;
        le = int(r.i(-e, e));
        ge = r.chance(0.5) ? 0 : int(r.i(-e, e));
    }
    const double l = std::ldexp(1., le), g = std::ldexp(1., ge);
    log = cat(ball ? "ball " : "axes ", show(d), " at ", show(x), " lengths*2^", le, " gradients*2^", ge);
    ctx.scenario(log);
    Va xi = x * l, di = d * (l * l);
    const Va xk = xi;
    Box B = ball ? Box(ellipsoid(xi, rho * l * l), n, l, g) : Box(ellipsoid(xi, di), n, l, g);
    bool kept = true;
    for (size_t i = 0; i < xi.size(); ++i)
        kept = kept && xi[i] == xk[i];
    ctx.expect(kept, "construct", "the given centre was changed");
    const State st = probe(ctx, B);
    for (int i = 0; i < n; ++i)
    {
        ctx.expect(st.c[size_t(i)] == LD(x[size_t(i)]), "construct", cat("centre ", i));
        for (int j = 0; j < n; ++j)
            ctx.expect(std::fabs(st.P(i, j) - (i == j ? LD(d[size_t(i)]) : 0)) <= 1e-13L * std::sqrt(LD(d[size_t(i)]) * d[size_t(j)]),
                "construct", cat("shape ", i, ",", j));
    }
    return B;
}
Va gradient(Rng& r, int n)
{
    Va g(static_cast<size_t>(n));
    const double u = r.u();
    if (u < 0.15)
        g[size_t(r.i(0, n - 1))] = r.chance(0.5) ? 1 : -1;
    else
    {
        const double sc = r.chance(0.3) ? r.logu(1e-3, 1e3) : 1.;
        do
            for (auto& x : g)
                x = u < 0.35 ? double(r.i(-2, 2)) : sc * r.normal();
        while ((g * g).sum() == 0);
    }
    return g;
}
int dim(Rng& r)
{
    const double u = r.u();
    return u < 0.3 ? 2 : u < 0.5 ? 3 : u < 0.95 ? int(r.i(4, 7)) : int(r.i(8, 14));
}
const char* sname(CUTSTATUS s)
{
    return s == CUT ? "CUT" : s == NOSOLUTION ? "NOSOLUTION" : s == NOEFFECT ? "NOEFFECT" : "?";
}

void history(Ctx& ctx, Rng& r, int n, int steps)
{
    std::string log;
    Box B = start(ctx, r, n, log);
    State st = probe(ctx, B);
    uint64_t fp = hashs(log);
    for (int k = 0; k < steps; ++k)
    {
        la::Mat L;
        if (!er::finite(st) || !la::chol(st.P, L))
        {
            ctx.fail("not-positive-definite", cat("the shape is not finite/positive definite before step ", k));
            return;
        }
        const la::Vec ev = la::eig(st.P);
        const LD cond = ev.back() / ev.front();
        LD xm = 0;
        for (auto v : st.c)
            xm = std::max(xm, std::fabs(v));
        if (cond > 1e6L || ev.front() < 1e-9L * (1 + xm * xm) || ev.back() > 1e12L)
            break;
        const Va g = gradient(r, n);
        const LD tau = std::sqrt(la::quad(st.P, lv(g)));
        const double u = r.u();
        LD a = 0;
        const char* kind = "central";
        bool zero = true;
        if (u > 0.25)
        {
            zero = false;
            if (u < 0.32)
                a = 0, kind = "deep0";
            else if (u < 0.55)
                a = r.chance(0.2) ? r.logu(1e-7, 1e-2) : r.chance(0.1) ? 1 - r.logu(1e-7, 0.05) : r.u(0.001, 0.95), kind = "deep";
            else if (u < 0.78)
                a = -(r.chance(0.2) ? r.logu(1e-7, 1e-2) : r.chance(0.15) ? 1 - r.logu(1e-7, 1e-2) : r.u(0.001, 0.99)) / n, kind = "shallow";
            else if (u < 0.86)
                a = r.chance(0.3) ? 1 + r.logu(1e-8, 1e-4) : r.chance(0.5) ? r.u(1.0001, 1.1) : r.logu(1.1, 1e4), kind = "empty";
            else if (u < 0.94)
                a = -(1. / n) - (1 - 1. / n) * (r.chance(0.3) ? r.logu(1e-7, 1e-3) : r.u(0.001, 0.999)), kind = "noeffect";
            else
                a = -(r.chance(0.5) ? r.u(1.0001, 1.1) : r.logu(1.1, 1e4)), kind = "far";
        }
        const double b = double(a * tau);
        log += cat("\n", kind, " g=", show(g), " b=", b);
        ctx.scenario(log);
        const er::Expect e = er::expect_cut(st, lv(g), b, nullptr);
        CUTSTATUS s = CUT;
        if (zero)
            B.central(g);
        else
            s = B.deep(g, b);
        const State after = probe(ctx, B);
        ctx.event(cat("cut.", kind, ".", sname(s)));
        fp = hashd(fp, b + (after.c.empty() ? 0 : double(after.c[0])));
        if (s != CUT)
            ctx.expect(er::same(st, after), cat("rejected-changed.", kind), cat("the ellipsoid changed although the answer was ", sname(s)));
        switch (e.verdict)
        {
            case er::Verdict::nosoln: ctx.expect(s == NOSOLUTION, cat("verdict.", kind), cat("expected NOSOLUTION, got ", sname(s))); break;
            case er::Verdict::noeffect:
                // the whole ellipsoid may be given back as CUT, if unchanged
                ctx.expect(s == NOEFFECT || (s == CUT && er::same(st, after)), cat("verdict.", kind), cat("expected NOEFFECT, got ", sname(s)));
                break;
            case er::Verdict::success:
            {
                if (!ctx.expect(s == CUT, cat("verdict.", kind), cat("expected CUT, got ", sname(s))))
                    break;
                if (!er::finite(after))
                {
                    ctx.fail("not-finite", "a cut left a non-finite ellipsoid");
                    return;
                }
                const er::Dist d = er::distance(L, after, e.next);
                const LD tol = 1e-9L + 1e-13L * cond + 1e-13L * xm / std::sqrt(ev.front());
                ctx.expect(d.centre <= tol && d.shape <= tol, cat("not-minimal.", kind),
                    cat("differs from the smallest ellipsoid around what is left: centre ", double(d.centre), " shape ", double(d.shape)));
                // boundary points of what is left
                la::Mat L2;
                LD ptol = 1; // how far the points are known in the metric of what is left
                if (la::chol(after.P, L2))
                {
                    const la::Vec ea = la::eig(after.P);
                    ptol = 1e-7L + 100 * tol * cond + 1e-12L * ea.back() / ea.front() + 1e-13L * xm / std::sqrt(ea.front()) +
                        1e-14L * ev.back() / ea.front();
                }
                if (ptol < 1e-3L)
                    for (int q = 0; q < 8; ++q)
                    {
                        la::Vec gt = la::mul(la::T(L), lv(g));
                        const LD gn = la::norm(gt);
                        la::Vec w(static_cast<size_t>(n));
                        for (auto& v : w)
                            v = r.normal();
                        const LD p = la::dot(w, gt) / gn;
                        for (int i = 0; i < n; ++i)
                            w[size_t(i)] -= p * gt[size_t(i)] / gn;
                        const LD wn = la::norm(w), sc = q < 4 ? -a : -1 + (1 - a) * r.u();
                        if (!(wn > 1e-9L))
                            continue;
                        const LD rad = std::sqrt(std::max<LD>(0, 1 - sc * sc));
                        for (int i = 0; i < n; ++i)
                            w[size_t(i)] = w[size_t(i)] * rad / wn + sc * gt[size_t(i)] / gn;
                        la::Vec x = la::mul(L, w);
                        for (int i = 0; i < n; ++i)
                            x[size_t(i)] += st.c[size_t(i)] - after.c[size_t(i)];
                        const LD m = la::norm(la::fsub(L2, x));
                        ctx.event("points");
                        ctx.expect(m * m <= 1 + ptol, cat("lost-point.", kind), cat("a point the cut allows lies outside: ", double(m * m)));
                    }
                break;
            }
            case er::Verdict::either: break;
        }
        st = after;
    }
    ctx.nontrivial(fp);
    ctx.sample(log);
}

// a point every cut allows stays inside over long histories
void target(Ctx& ctx, Rng& r)
{
    const int n = dim(r);
    std::string log;
    Box B = start(ctx, r, n, log);
    const State s0 = probe(ctx, B);
    la::Mat L0;
    if (!la::chol(s0.P, L0))
        return;
    la::Vec w(static_cast<size_t>(n));
    for (auto& v : w)
        v = r.normal();
    const LD wn = la::norm(w), rad = std::pow(r.u(), 1. / n) * 0.99;
    for (auto& v : w)
        v *= rad / wn;
    la::Vec z = la::mul(L0, w);
    for (int i = 0; i < n; ++i)
        z[size_t(i)] += s0.c[size_t(i)];
    uint64_t fp = hashs(log);
    for (int k = 0; k < 60; ++k)
    {
        const State st = probe(ctx, B);
        la::Mat L;
        const bool ok = er::finite(st) && la::chol(st.P, L);
        if (!ctx.expect(ok, "not-positive-definite", "the shape is not positive definite"))
            return;
        const la::Vec ev = la::eig(st.P);
        LD xm = 0;
        for (auto v : st.c)
            xm = std::max(xm, std::fabs(v));
        if (ev.back() / ev.front() > 1e8L || ev.front() < 1e-10L * (1 + xm * xm))
            break;
        la::Vec x(z);
        for (int i = 0; i < n; ++i)
            x[size_t(i)] -= st.c[size_t(i)];
        const LD m = la::norm(la::fsub(L, x));
        ctx.event("target steps");
        if (!ctx.expect(m * m <= 1 + 1e-6L, "lost-target", cat("the target left the ellipsoid at step ", k, ": ", double(m * m))))
            return;
        const Va g = gradient(r, n);
        const LD tau = std::sqrt(la::quad(st.P, lv(g)));
        LD gz = 0;
        for (int i = 0; i < n; ++i)
            gz += LD(g[size_t(i)]) * x[size_t(i)];
        const double b = double(-gz - tau * r.u(1e-6, 0.6));
        log += cat("\n g=", show(g), " b=", b);
        ctx.scenario(log);
        fp = hashd(fp, b);
        if (gz < -1e-6L * tau && r.chance(0.4))
            B.central(g);
        else
            ctx.expect(B.deep(g, b) != NOSOLUTION, "verdict.target", "NOSOLUTION although the target satisfies the cut");
    }
    ctx.nontrivial(fp);
}
} // namespace

VH_PROPERTY(C28)
{
    ctx.group("history", 2500, [&](Rng& r) { history(ctx, r, dim(r), int(r.i(2, 16))); });
    ctx.group("large-n", 12, [&](Rng& r) { history(ctx, r, int(r.i(15, 36)), 3); });
    ctx.group("target", 400, [&](Rng& r) { target(ctx, r); });
}

// ---------------------------------------------------------------- C29
namespace
{
struct Entry
{
    bool feas = false;
    Va g, x, step;
    double f = 0;
    CUTSTATUS status = CUT;
};
struct Trace
{
    std::vector<Entry> script;
    std::vector<Va> asked;              // points the oracle saw
    std::vector<std::pair<Va, double>> cuts; // cuts the enclosing region saw
    std::vector<int> central;
};
struct FakeOracle
{
    Trace& t;
    Info4EM<Va> operator()(const Va& x)
    {
        if (t.asked.size() >= t.script.size())
            throw vh::Overrun("more queries than allowed");
        const Entry& e = t.script[t.asked.size()];
        t.asked.push_back(x);
        return {e.feas, e.g, e.f, e.x.size() ? e.x : x};
    }
};
struct FakeRegion
{
    Trace& t;
    Va at;
    Va& x() { return at; }
    void update(const Va& g)
    {
        t.central.push_back(1);
        move(g, 0);
    }
    CUTSTATUS update(const Va& g, double b)
    {
        t.central.push_back(0);
        return move(g, b);
    }
    CUTSTATUS move(const Va& g, double b)
    {
        if (t.cuts.size() >= t.script.size())
            throw vh::Overrun("more cuts than allowed");
        const Entry& e = t.script[t.cuts.size()];
        t.cuts.push_back({g, b});
        if (e.status == CUT)
            at += e.step;
        return e.status;
    }
};

bool eq(const Va& a, const Va& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i])
            return false;
    return true;
}

void scripted(Ctx& ctx, Rng& r, int mode) // 0 discrete, 1 deep cuts, 2 central cuts
{
    const int n = int(r.i(1, 5));
    const int max_it = int(r.chance(0.05) ? 0 : r.chance(0.05) ? r.i(100, 300) : r.i(1, 20));
    const double unit = std::ldexp(1., int(r.chance(0.6) ? 0 : r.i(-60, 60)));
    const double tol = r.logu(1e-9, 1e-1) * unit;
    Trace t;
    auto rv = [&](double s) {
        Va v(static_cast<size_t>(n));
        for (auto& x : v)
            x = s * r.normal();
        return v;
    };
    Va at = rv(unit);
    const Va x0 = at;
    const double pf = r.u(), pstop = r.chance(0.4) ? 0 : 0.08;
    std::string log = cat("loop ", mode, " max_it ", max_it, " tol ", tol, " at ", show(at));
    const int m = max_it + 3; // more than may be used
    double last = 0;
    for (int k = 0; k < m; ++k)
    {
        Entry e;
        e.feas = r.chance(pf);
        e.g = rv(r.logu(1e-3, 1e3));
        e.f = r.chance(0.2) ? last : r.chance(0.3) ? double(r.i(-3, 3)) : r.normal() * r.logu(1e-3, 1e6);
        if (r.chance(0.1)) // next to nothing, or next to the last value
            e.f = r.chance(0.5) ? r.normal() * r.logu(1e-15, 1e-3) : last * (1 + r.normal() * r.logu(1e-15, 1e-6));
        if (!e.feas)
            e.f = std::fabs(e.f);
        else
            last = e.f;
        if (mode == 0 || (mode == 1 && r.chance(0.3)))
        {
            e.x = rv(unit);
            if (r.chance(0.5))
                for (auto& v : e.x)
                    v = std::round(v);
        }
        // a step clearly longer or shorter than tol
        e.step = rv(1.);
        const double nn = std::sqrt((e.step * e.step).sum());
        const bool stop = r.chance(pstop);
        const double len = stop ? (r.chance(0.3) ? 0. : tol * r.u(0.05, 0.9)) : tol * (r.chance(0.3) ? r.u(1.1, 2.) : r.logu(2., 1e8));
        e.step *= len / nn;
        if (mode != 2 && !(mode == 1 && e.feas) && r.chance(pstop))
            e.status = r.chance(0.5) ? NOSOLUTION : NOEFFECT;
        log += cat("\n", e.feas ? "feasible" : "infeasible", " f=", e.f, " g=", show(e.g), " x=", show(e.x), " step ", show(e.step), " status ", int(e.status));
        t.script.push_back(std::move(e));
    }
    ctx.scenario(log);
    // what must happen
    int used = 0;
    STATUS want = EXCEEDMAXITER;
    bool found = false;
    double bf = 1e100;
    Va bx = rv(1.);
    Va p = x0;
    std::vector<Va> points;
    std::vector<LD> beta, mag;
    bool tie = false;
    const Va untouched = bx;
    std::vector<Va> equals {bx}; // the points with the least value
    for (int k = 0; k < max_it; ++k)
    {
        const Entry& e = t.script[size_t(k)];
        ++used;
        points.push_back(p);
        const Va xr = e.x.size() ? e.x : p;
        LD b = 0, mg = 0;
        if (mode == 0)
        {
            for (size_t i = 0; i < p.size(); ++i)
            {
                b += LD(e.g[i]) * (LD(p[i]) - xr[i]);
                mg += std::fabs(LD(e.g[i])) * (std::fabs(LD(p[i])) + std::fabs(LD(xr[i])));
            }
        }
        if (mode != 2 && !e.feas)
            b += e.f, mg += std::fabs(e.f);
        beta.push_back(b);
        mag.push_back(mg);
        if (e.feas)
        {
            found = true;
            if (e.f < bf)
            {
                bf = e.f;
                equals.clear();
            }
            if (e.f == bf)
                equals.push_back(mode == 2 ? p : xr);
        }
        if (e.status != CUT)
        {
            want = found ? FOUND : NOTFOUND;
            break;
        }
        Va q = p;
        q += e.step;
        const Va d = p - q; // as rounded
        const LD dn = std::sqrt(ddot(d, d));
        if (std::fabs(dn - tol) < 1e-9L * tol)
            tie = true;
        p = q;
        if (dn < tol)
        {
            want = found ? FOUND : NOTFOUND;
            break;
        }
    }
    if (tie)
        return;
    t.script.resize(size_t(used)); // no more than that
    FakeOracle P {t};
    FakeRegion E {t, at};
    Va gotx = untouched;
    double gotf = -7;
    STATUS got = NOTFOUND;
    try
    {
        got = mode == 0 ? ellipsoid_dc_discrete(E, P, gotx, gotf, max_it, tol)
            : mode == 1 ? ellipsoid_dc(E, P, gotx, gotf, max_it, tol)
                        : ellipsoid_algo(E, P, gotx, gotf, max_it, tol);
    }
    catch (const vh::Overrun& e)
    {
        ctx.fail("overrun", cat(e.what(), " after ", t.asked.size(), " queries"));
        return;
    }
    ctx.event(cat("loop", mode, got == FOUND ? ".found" : got == NOTFOUND ? ".notfound" : ".exceeded"));
    ctx.event("queries", long(t.asked.size()));
    ctx.expect(got == want, "status", cat("answered ", int(got), " expected ", int(want)));
    ctx.expect(int(t.asked.size()) == used && int(t.cuts.size()) == used, "count", cat(t.asked.size(), " queries and ", t.cuts.size(), " cuts, expected ", used));
    for (size_t k = 0; k < t.asked.size() && k < points.size(); ++k)
        ctx.expect(eq(t.asked[k], points[k]), "query", cat("query ", k, " is not at the centre"));
    for (size_t k = 0; k < t.cuts.size() && k < beta.size(); ++k)
    {
        ctx.expect(eq(t.cuts[k].first, t.script[k].g), "cut-gradient", cat("cut ", k, " has another gradient"));
        ctx.expect(std::fabs(t.cuts[k].second - beta[k]) <= 1e-13L * mag[k], "cut-depth", cat("cut ", k, " has depth ", t.cuts[k].second, " expected ", double(beta[k])));
    }
    ctx.expect(gotf == bf, "best-value", cat("best value ", gotf, " expected ", bf));
    bool one = false;
    for (auto& v : equals)
        one = one || eq(gotx, v);
    ctx.expect(one, "best-point", cat("best point ", show(gotx), " expected ", show(equals[0])));
    ctx.nontrivial(hashs(log));
    ctx.sample(log);
}

// ----- the oracle of geometric programs
struct Gp : gp_base<double>
{
    using Mon = monomial<double>;
    struct Term
    {
        double c;
        Va a;
    };
    std::vector<std::vector<Term>> t;
    void add(const std::vector<Term>& s)
    {
        posynomial<double> p {Mon(s[0].c, s[0].a)};
        for (size_t k = 1; k < s.size(); ++k)
            p += Mon(s[k].c, s[k].a);
        this->_M.push_back(p);
        t.push_back(s);
    }
    LD value(size_t i, const la::Vec& x, la::Vec* g = nullptr) const
    {
        std::vector<LD> e;
        LD top = -1e300L;
        for (auto& s : t[i])
        {
            LD v = std::log(LD(s.c));
            for (size_t k = 0; k < x.size(); ++k)
                v += LD(s.a[k]) * x[k];
            e.push_back(v);
            top = std::max(top, v);
        }
        LD sum = 0;
        for (auto v : e)
            sum += std::exp(v - top);
        if (g)
        {
            g->assign(x.size(), 0);
            for (size_t j = 0; j < e.size(); ++j)
                for (size_t k = 0; k < x.size(); ++k)
                    (*g)[k] += std::exp(e[j] - top) / sum * LD(t[i][j].a[k]);
        }
        return top + std::log(sum);
    }
    std::string str() const
    {
        std::string o;
        for (auto& s : t)
        {
            for (auto& q : s)
                o += cat(" ", q.c, show(q.a));
            o += ";";
        }
        return o;
    }
};
std::vector<Gp::Term> posy(Rng& r, int n, int most)
{
    std::vector<Gp::Term> s;
    const bool ints = r.chance(0.5);
    for (int64_t k = r.i(1, most); k > 0; --k)
    {
        Va a(static_cast<size_t>(n));
        for (auto& v : a)
            v = r.chance(0.3) ? 0. : ints ? double(r.i(-2, 2)) : r.normal();
        s.push_back({r.logu(0.05, 20.), a});
    }
    return s;
}
void gp_queries(Ctx& ctx, Rng& r)
{
    const int n = int(r.chance(0.03) ? r.i(7, 30) : r.i(1, 6));
    Gp P;
    const int m = int(r.i(0, 5));
    for (int i = 0; i <= m; ++i)
        P.add(posy(r, n, r.chance(0.05) ? 20 : 4));
    const std::string what = P.str();
    uint64_t h = hashs(what);
    for (int q = 0; q < 6; ++q)
    {
        Va x(static_cast<size_t>(n));
        const double sc = r.chance(0.1) ? 100. : r.logu(0.1, 5.);
        for (auto& v : x)
            v = sc * r.normal();
        if (q >= 3 && m > 0)
        { // look for a point where few constraints are violated
            double best = 1e300;
            const Va c = x;
            for (int k = 0; k < 60; ++k)
            {
                Va y = c;
                for (auto& v : y)
                    v += sc * r.normal();
                LD worst = -1e300L;
                for (int i = 1; i <= m; ++i)
                    worst = std::max(worst, P.value(size_t(i), lv(y)));
                if (double(worst) < best)
                {
                    best = double(worst);
                    x = y;
                }
            }
        }
        if (r.chance(0.3) && m > 0 && P.t[1].size() == 1)
        { // next to a face
            const Va& a = P.t[1][0].a;
            const double aa = (a * a).sum();
            if (aa > 0)
                x = Va(x - a * double(P.value(1, lv(x)) + (r.chance(0.5) ? 1. : -1.) * r.logu(1e-10, 1e-2)) / aa);
        }
        ctx.scenario(cat(what, " at ", show(x)));
        const Va keep = x;
        const Info4EM<Va> a = P(x);
        ctx.event(a._is_feasible ? "gp feasible" : "gp infeasible");
        ctx.expect(eq(a._x, keep) && eq(x, keep), "gp-point", "the answer is about another point");
        if (!ctx.expect(a._g.size() == size_t(n), "gp-gradient", "the gradient has another size"))
            continue;
        LD worst = -1e300L;
        bool tie = false;
        for (int i = 1; i <= m; ++i)
        {
            const LD v = P.value(size_t(i), lv(x));
            tie = tie || std::fabs(v) < 1e-13L * (1 + 10 * sc * n);
            worst = std::max(worst, v);
        }
        if (!tie)
            ctx.expect(a._is_feasible == (m == 0 || worst <= 0), "gp-verdict", cat("feasible ", a._is_feasible, " but the worst constraint is ", double(worst)));
        bool match = false;
        for (int i = a._is_feasible ? 0 : 1; i <= (a._is_feasible ? 0 : m); ++i)
        {
            la::Vec g;
            const LD v = P.value(size_t(i), lv(x), &g);
            if (!a._is_feasible && v <= -1e-9L)
                continue;
            bool ok = std::fabs(v - a._f) <= 1e-11L * (1 + std::fabs(v) + 10 * sc * n);
            for (int k = 0; k < n; ++k)
                ok = ok && std::fabs(g[size_t(k)] - a._g[size_t(k)]) <= 1e-9L * (1 + sc);
            match = match || ok;
        }
        ctx.expect(match, a._is_feasible ? "gp-objective" : "gp-violated",
            cat("value ", a._f, " and gradient ", show(a._g), a._is_feasible ? " are not the objective's" : " belong to no violated constraint"));
        h = hashd(h, a._f);
    }
    ctx.nontrivial(h);
    ctx.sample(ctx.desc);
}

// parameters for the shipped profit problem
struct
{
    double p, alpha, beta, v1, v2, k, A;
} G;
} // namespace
template <>
profit_max<double>::profit_max()
    : gp_base<double>()
    , p {G.p}
    , alpha {G.alpha}
    , beta {G.beta}
    , v1 {G.v1}
    , v2 {G.v2}
    , k {G.k}
    , A {G.A}
    , cd(3)
{
    gp_setup();
}
template <>
profit_max<double>::~profit_max()
{
}

namespace
{
// wraps an oracle: bounds the queries, remembers the answers
template <typename O>
struct Watch
{
    O& o;
    long limit;
    std::function<bool()> sound;
    long n = 0;
    bool last = false;
    bool any = false;
    double glast = 0, flast = 0, best = 1e100;
    Info4EM<Va> operator()(const Va& x)
    {
        if (++n > limit)
            throw vh::Overrun("more queries than allowed");
        if (!sound()) // flat beyond the precision of doubles
            throw vh::Skip {};
        auto a = o(x);
        last = a._is_feasible;
        glast = std::sqrt((a._g * a._g).sum());
        flast = a._f;
        if (last)
        {
            any = true;
            best = std::min(best, a._f);
        }
        return a;
    }
};

// solves with the real ellipsoid and judges the outcome; opt: the best point
template <typename O>
void solve(Ctx& ctx, Rng& r, O& oracle, const Va& centre, double rho, const Va& opt, LD fopt, bool discrete, int mode, LD slack)
{
    const int n = int(centre.size());
    const bool brief = r.chance(0.4);
    const int max_it = brief ? int(r.i(1, 8 * n)) : 4000;
    const double tol = brief ? 1e-9 : r.logu(1e-8, 1e-3);
    Va c = centre;
    Box B(ellipsoid(c, rho), n, 1., 1.);
    Watch<O> W {oracle, max_it, [&] {
                    const State st = probe(ctx, B);
                    la::Mat L;
                    if (!er::finite(st) || !la::chol(st.P, L))
                        return false;
                    LD lo = 1e300L, hi = 0;
                    for (int i = 0; i < n; ++i)
                        lo = std::min(lo, L(i, i)), hi = std::max(hi, L(i, i));
                    return hi < 1e5L * lo;
                }};
    Va bx(0., size_t(n));
    double bf = 0;
    ctx.scenario(ctx.desc + cat(" loop ", mode, " centre ", show(centre), " rho ", rho, " max_it ", max_it, " tol ", tol));
    STATUS s = NOTFOUND;
    try
    {
        s = mode == 0 ? ellipsoid_dc_discrete(B.E, W, bx, bf, max_it, tol)
            : mode == 1 ? ellipsoid_dc(B.E, W, bx, bf, max_it, tol)
                        : ellipsoid_algo(B.E, W, bx, bf, max_it, tol);
    }
    catch (const vh::Overrun&)
    {
        ctx.fail("overrun", "more queries than max_it");
        return;
    }
    ctx.event(cat("solve", mode, s == FOUND ? ".found" : s == NOTFOUND ? ".notfound" : ".exceeded"));
    ctx.expect(bf == W.best, "best-value", cat("best value ", bf, ", but the best one reported was ", W.best));
    if (s != EXCEEDMAXITER)
        ctx.expect((s == FOUND) == W.any, "status", "FOUND and the feasible points seen disagree");
    else
        ctx.expect(W.n == max_it, "count", cat("gave up after ", W.n, " of ", max_it, " queries"));
    if (W.any)
    {
        Info4EM<Va> a = oracle(bx);
        ctx.expect(a._is_feasible && std::fabs(a._f - bf) <= 1e-12 * (1 + std::fabs(bf)), "best-point", "the best point does not have the best value");
        ctx.expect(bf >= fopt - slack, "below-optimum", cat("value ", bf, " below the optimum ", double(fopt)));
        if (s == FOUND && W.last && !discrete)
        { // the last step was short although it cut the objective
            ctx.event("solved to tolerance");
            ctx.expect(bf - fopt <= 1.01L * (n + 1) * tol * W.glast + slack, "gap", cat("stopped at a feasible point ", double(bf - fopt), " above the optimum"));
        }
    }
    // nothing that counts was cut off
    const State st = probe(ctx, B);
    la::Mat L;
    if (er::finite(st) && la::chol(st.P, L))
    {
        const la::Vec ev = la::eig(st.P);
        LD xm = 0;
        for (auto v : st.c)
            xm = std::max(xm, std::fabs(v));
        if (ev.front() > 1e-9L * (1 + xm * xm) && ev.back() / ev.front() < 1e8L)
        {
            la::Vec x = lv(opt);
            for (int i = 0; i < n; ++i)
                x[size_t(i)] -= st.c[size_t(i)];
            const LD m = la::norm(la::fsub(L, x));
            ctx.event("optimum kept");
            ctx.expect(m * m <= 1 + 1e-3L, "lost-optimum", cat("the optimum was cut off: ", double(m * m)));
        }
    }
    ctx.nontrivial(hashd(hashs(ctx.desc), bf));
}

void profit_case(Ctx& ctx, Rng& r)
{
    G.p = r.logu(5, 50);
    G.A = r.logu(5, 80);
    G.alpha = r.u(0.05, 0.45);
    G.beta = r.u(0.05, 0.45);
    G.v1 = r.logu(2, 40);
    G.v2 = r.logu(2, 40);
    G.k = r.logu(1, 200);
    const LD pA = LD(G.p) * G.A, al = G.alpha, be = G.beta;
    // unconstrained optimum: revenue R = pA x1^al x2^be, v1 x1 = al R, v2 x2 = be R
    const LD lr = (std::log(pA) + al * std::log(al / G.v1) + be * std::log(be / G.v2)) / (1 - al - be);
    LD x1 = al * std::exp(lr) / G.v1;
    if (x1 > G.k)
        x1 = G.k;
    const LD x2 = std::pow(be * pA * std::pow(x1, al) / G.v2, 1 / (1 - be));
    const LD profit = pA * std::pow(x1, al) * std::pow(x2, be) - G.v1 * x1 - G.v2 * x2;
    if (!(profit > 1))
        throw vh::Skip {};
    ctx.scenario(cat("profit p ", G.p, " A ", G.A, " alpha ", G.alpha, " beta ", G.beta, " v1 ", G.v1, " v2 ", G.v2, " k ", G.k));
    profit_max<double> P;
    const Va opt {double(std::log(profit)), double(std::log(x1)), double(std::log(x2))};
    // the shipped objective function
    ctx.expect(std::fabs(P.obj(opt) - profit) <= 1e-8L * (pA * std::pow(x1, al) * std::pow(x2, be)), "profit-objective", cat("obj gives ", P.obj(opt), " expected ", double(profit)));
    Va c = opt;
    LD d2 = 0;
    for (auto& v : c)
    {
        const double e = r.normal() * 1.5;
        v += e;
        d2 += LD(e) * e;
    }
    solve(ctx, r, P, c, double(d2) * r.u(1.05, 4.) + 1e-3, opt, -std::log(profit), false, int(r.i(1, 2)), 1e-9L);
}

// minimize |x-a|^2 under linear constraints, with the optimum built in
struct Quad
{
    int n = 0;
    Va a;
    std::vector<Va> A;
    std::vector<double> b; // A x - b <= 0
    int rounded = 0;       // the first so many coordinates are integers
    Info4EM<Va> operator()(const Va& x0)
    {
        Va x = x0;
        for (int i = 0; i < rounded; ++i)
            x[size_t(i)] = std::round(x[size_t(i)]);
        for (size_t k = 0; k < A.size(); ++k)
        {
            const double f = (A[k] * x).sum() - b[k];
            if (f > 0)
                return {false, A[k], f, x};
        }
        const Va z = x - a;
        return {true, Va(2. * z), (z * z).sum(), x};
    }
};
void quad_case(Ctx& ctx, Rng& r)
{
    const int n = int(r.i(2, 5));
    Quad Q;
    Q.n = n;
    Va opt(static_cast<size_t>(n));
    for (auto& v : opt)
        v = 2 * r.normal();
    Q.a = opt;
    const int act = int(r.i(0, n)), more = int(r.i(0, 3));
    for (int k = 0; k < act + more; ++k)
    {
        Va g(static_cast<size_t>(n));
        for (auto& v : g)
            v = r.normal();
        Q.A.push_back(g);
        if (k < act)
        {
            Q.a += g * r.u(0.1, 1.5); // multipliers are positive
            Q.b.push_back((g * opt).sum() + 1e-9);
        }
        else
            Q.b.push_back((g * opt).sum() + r.u(0.05, 2.));
    }
    const Va z = opt - Q.a;
    const LD fopt = (z * z).sum();
    Va c = opt;
    LD d2 = 0;
    for (auto& v : c)
    {
        const double e = r.normal() * 2;
        v += e;
        d2 += LD(e) * e;
    }
    ctx.scenario(cat("quadratic a ", show(Q.a), " with ", Q.A.size(), " constraints, optimum ", show(opt)));
    solve(ctx, r, Q, c, double(d2) * r.u(1.05, 4.) + 1e-3, opt, fopt, false, int(r.i(1, 2)), 1e-7L);
}
void integer_case(Ctx& ctx, Rng& r)
{
    const int n = int(r.i(2, 3)), R = n == 2 ? 16 : 9;
    Quad Q;
    Q.n = Q.rounded = n;
    Q.a = Va(0., size_t(n));
    for (auto& v : Q.a)
        v = 2 * r.normal();
    for (int64_t k = r.i(0, 3); k > 0; --k)
    {
        Va g(static_cast<size_t>(n));
        for (auto& v : g)
            v = r.normal();
        Q.A.push_back(g);
        Q.b.push_back((g * Q.a).sum() + 2 * r.normal());
    }
    Va best(0., size_t(n)), x(0., size_t(n));
    LD fb = 1e100L;
    long total = 1;
    for (int i = 0; i < n; ++i)
        total *= 2 * R + 1;
    for (long q = 0; q < total; ++q)
    {
        long w = q;
        for (int i = 0; i < n; ++i)
        {
            x[size_t(i)] = double(w % (2 * R + 1) - R);
            w /= 2 * R + 1;
        }
        const auto a = Q(x);
        if (a._is_feasible && a._f < fb)
        {
            fb = a._f;
            best = x;
        }
    }
    for (double v : Q.a) // everything better lies in the box
        if (std::fabs(v) + std::sqrt(fb) > R)
            throw vh::Skip {};
    Va c(0., size_t(n));
    LD d2 = 0;
    for (int i = 0; i < n; ++i)
    {
        c[size_t(i)] = best[size_t(i)] + 1.5 * r.normal();
        d2 += LD(c[size_t(i)] - best[size_t(i)]) * (c[size_t(i)] - best[size_t(i)]);
    }
    const double rho = double(d2) * r.u(1.05, 3.) + 0.1;
    ctx.scenario(cat("integer quadratic a ", show(Q.a), " with ", Q.A.size(), " constraints, optimum ", show(best)));
    solve(ctx, r, Q, c, rho, best, fb, true, 0, 1e-9L);
}
} // namespace

VH_PROPERTY(C29)
{
    ctx.group("discrete-loop", 6000, [&](Rng& r) { scripted(ctx, r, 0); });
    ctx.group("deep-loop", 6000, [&](Rng& r) { scripted(ctx, r, 1); });
    ctx.group("central-loop", 4000, [&](Rng& r) { scripted(ctx, r, 2); });
    ctx.group("gp", 4000, [&](Rng& r) { gp_queries(ctx, r); });
    ctx.group("profit", 400, [&](Rng& r) { profit_case(ctx, r); });
    ctx.group("quadratic", 800, [&](Rng& r) { quad_case(ctx, r); });
    ctx.group("integer", 800, [&](Rng& r) { integer_case(ctx, r); });
}
