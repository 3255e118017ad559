// C15: lowpass oracle.  C16: profit oracles.
#include "ellgen.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>

using er::Arr;
using er::arr;
using er::dvec;
using vh::cat;
using vh::Ctx;
using vh::LD;
using vh::Rng;

// ---------------------------------------------------------------- C15
namespace
{
// other units: powers of two, so that nothing but magnitudes changes
double unit(Rng& r, int lim = 60)
{
    if (!r.chance(0.3))
        return 1;
    return std::ldexp(1., int(r.chance(0.5) ? r.i(-20, 20) : r.i(-lim, lim)));
}
struct Filter
{
    double u = 1; // unit of the coefficients and the responses
    void rescale(double s)
    {
        u *= s;
        L *= s;
        U *= s;
        t0 *= s;
        for (auto& z : z0)
            z *= s;
    }
    int n;
    Arr Ap, As, Anr;
    double L, U;
    std::vector<double> z0; // feasible with margin for target t0
    double t0;
    LD row(const Arr& A, size_t k, const std::vector<double>& x) const
    {
        LD s = 0;
        for (int i = 0; i < n; ++i)
            s += LD(A(k, size_t(i))) * x[size_t(i)];
        return s;
    }
    // largest violation of all constraints for target t (<= 0: feasible)
    LD violation(const std::vector<double>& x, LD t) const
    {
        LD v = -LD(x[0]);
        for (size_t k = 0; k < Ap.shape()[0]; ++k)
        {
            const LD a = row(Ap, k, x);
            v = std::max({v, a - U, LD(L) - a});
        }
        for (size_t k = 0; k < As.shape()[0]; ++k)
        {
            const LD a = row(As, k, x);
            v = std::max({v, a - t, -a});
        }
        for (size_t k = 0; k < Anr.shape()[0]; ++k)
            v = std::max(v, -row(Anr, k, x));
        return v;
    }
    LD stop(const std::vector<double>& x) const
    {
        LD m = -1e100L;
        for (size_t k = 0; k < As.shape()[0]; ++k)
            m = std::max(m, row(As, k, x));
        return m;
    }
};
Filter random_filter(Rng& r)
{
    Filter f;
    const bool big = r.chance(0.04);
    const int n = f.n = int(big ? r.i(7, 40) : r.i(2, 6));
    const int most = big ? 60 : 6;
    const size_t np = size_t(r.i(1, most)), ns = size_t(r.i(1, most)), nr = size_t(r.i(0, most));
    f.L = r.u(0.3, 0.9);
    f.U = f.L + r.u(0.1, 0.6);
    f.t0 = r.u(0.05, 0.5);
    f.z0.push_back(r.u(0.5, 2));
    for (int i = 1; i < n; ++i)
        f.z0.push_back(r.normal());
    auto mk = [&](size_t rows, double lo, double hi) {
        Arr A = xt::zeros<double>({rows, size_t(n)});
        for (size_t k = 0; k < rows; ++k)
        {
            LD s = 0;
            for (int i = 1; i < n; ++i)
            {
                A(k, size_t(i)) = r.chance(0.2) ? 0. : r.u(-1, 1);
                s += LD(A(k, size_t(i))) * f.z0[size_t(i)];
            }
            A(k, 0) = double((r.u(lo, hi) - s) / f.z0[0]);
        }
        return A;
    };
    f.Ap = mk(np, f.L + 0.05 * (f.U - f.L), f.U - 0.05 * (f.U - f.L));
    f.As = mk(ns, 0.05 * f.t0, 0.95 * f.t0);
    f.Anr = mk(nr, 0.01, 1);
    f.rescale(unit(r));
    return f;
}
// spectral form: cosine rows, as the filter design uses them
Filter cosine_filter(Rng& r)
{
    Filter f;
    const int n = f.n = int(r.i(4, 10));
    const double wp = r.u(0.1, 0.3), ws = wp + r.u(0.1, 0.4);
    const size_t m = size_t(r.i(2, 5)) * size_t(n);
    std::vector<double> wP, wS, wN;
    for (size_t k = 0; k < m; ++k)
    {
        const double w = M_PI * double(k) / double(m - 1);
        if (w <= wp * M_PI)
            wP.push_back(w);
        else if (w >= ws * M_PI)
            wS.push_back(w);
        else
            wN.push_back(w);
    }
    auto mk = [&](const std::vector<double>& w) {
        Arr A = xt::zeros<double>({w.size(), size_t(n)});
        for (size_t k = 0; k < w.size(); ++k)
            for (int i = 0; i < n; ++i)
                A(k, size_t(i)) = i ? 2 * std::cos(w[k] * i) : 1.;
        return A;
    };
    f.Ap = mk(wP);
    f.As = mk(wS);
    f.Anr = mk(wN);
    f.L = r.u(0.5, 0.9);
    f.U = r.u(1.05, 1.6);
    f.t0 = r.u(0.01, 0.3);
    f.rescale(unit(r));
    return f;
}
struct Judge
{
    Ctx& ctx;
    const Filter& f;
    std::vector<std::vector<double>> known; // points to test cuts with
    void operator()(const std::vector<double>& x, double before, const Arr& g, const Arr& h, bool shrunk, double after)
    {
        const int n = f.n;
        LD xm = f.u;
        for (auto v : x)
            xm = std::max(xm, std::fabs(LD(v)));
        const LD tie = 1e-11L * xm * n * 10;
        const LD viol = f.violation(x, before);
        if (!shrunk)
            ctx.expect(after == before, "target", "target changed without an improvement");
        if (std::fabs(viol) <= tie)
        {
            ctx.event("ties");
            return;
        }
        ctx.event(shrunk ? "improved" : "cut");
        if (!ctx.expect(shrunk == (viol < 0), "verdict",
                cat(shrunk ? "improved" : "cut", " at a point with largest violation ", double(viol))))
            return;
        if (shrunk)
            ctx.expect(std::fabs(after - f.stop(x)) <= tie, "target",
                cat("new target ", after, " largest stopband value ", double(f.stop(x))));
        if (!ctx.expect(int(g.size()) == n && (h.size() == 1 || h.size() == 2), "cut-size", "odd cut"))
            return;
        const LD t = shrunk ? LD(after) : LD(before);
        ctx.expect(LD(h(0)) >= -tie, "cut-shallow", cat("the cut keeps the queried point: beta=", h(0)));
        if (h.size() == 2)
            ctx.expect(LD(h(1)) >= LD(h(0)) - tie, "cut-crossed", cat("beta0=", h(0), " beta1=", h(1)));
        // one of the constraints, on both faces
        LD gx = 0, gm = 0;
        for (int i = 0; i < n; ++i)
        {
            gx += LD(g(i)) * x[size_t(i)];
            gm = std::max(gm, std::fabs(LD(g(i))));
        }
        ctx.expect(gm > 0, "cut-gradient", "zero gradient");
        const LD hi = gx - h(0); // the cut says g'z <= hi
        const bool two = h.size() == 2;
        const LD lo = two ? gx - h(1) : 0; // and g'z >= lo
        bool matched = false;
        auto against = [&](const Arr* A, size_t k, LD sign, LD up, LD dn, bool has_dn) {
            LD d = 0;
            for (int i = 0; i < n; ++i)
            {
                const LD a = A ? LD((*A)(k, size_t(i))) : (i == 0 ? 1.L : 0.L);
                d = std::max(d, std::fabs(LD(g(i)) - sign * a));
            }
            if (d > 1e-12L * gm)
                return;
            if (hi >= up - tie && (!two || (has_dn && lo <= dn + tie)))
                matched = true;
        };
        for (size_t k = 0; k < f.Ap.shape()[0]; ++k)
        {
            against(&f.Ap, k, 1, f.U, f.L, true);
            against(&f.Ap, k, -1, -f.L, -f.U, true);
        }
        for (size_t k = 0; k < f.As.shape()[0]; ++k)
        {
            against(&f.As, k, 1, t, 0, true);
            against(&f.As, k, -1, 0, -t, true);
        }
        for (size_t k = 0; k < f.Anr.shape()[0]; ++k)
            against(&f.Anr, k, -1, 0, 0, false);
        against(nullptr, 0, -1, 0, 0, false);
        ctx.event(matched ? "cut-is-a-constraint" : "cut-is-something-else");
        ctx.expect(matched, "cut-invalid",
            cat("the cut g=", vh::vec(dvec(g)), " beta=", vh::vec(dvec(h)), " follows from none of the constraints at x=", vh::vec(x)));
        for (auto& z : known)
        {
            if (f.violation(z, t) > 0)
                continue;
            LD s = 0;
            for (int i = 0; i < n; ++i)
                s += LD(g(i)) * (LD(z[size_t(i)]) - x[size_t(i)]);
            ctx.event("feasible-point-checks");
            ctx.expect(s + h(0) <= tie && (!two || s + h(1) >= -tie), "cut-off",
                cat("a feasible point is cut off: ", double(s + h(0))));
        }
    }
};
} // namespace

VH_PROPERTY(C15)
{
    ctx.group("queries", 3000, [&](Rng& r) {
        const Filter f = random_filter(r);
        Judge J {ctx, f, {f.z0}};
        for (int k = 0; k < 12; ++k)
        {
            auto z = f.z0;
            const double s = r.logu(1e-3, 0.5) * f.u;
            for (auto& v : z)
                v += s * r.normal();
            J.known.push_back(z);
        }
        lowpass_oracle P(f.Ap, f.As, f.Anr, f.L, f.U);
        double t = r.chance(0.5) ? f.t0 * r.u(1, 3) : 1e3 * f.u;
        std::string log = cat("n=", f.n, " Ap=", f.Ap.shape()[0], " As=", f.As.shape()[0], " Anr=", f.Anr.shape()[0],
            " L=", f.L, " U=", f.U, " z0=", vh::vec(f.z0));
        uint64_t fp = vh::hashs(log);
        for (int q = 0; q < 25; ++q)
        {
            // near feasibility, with one or several constraints violated
            auto x = f.z0;
            const double s = r.chance(0.3) ? 0. : r.logu(1e-3, 2) * f.u;
            if (r.chance(0.5))
                for (auto& v : x)
                    v += s * r.normal();
            else
                x[size_t(r.i(0, f.n - 1))] += s * r.normal();
            if (r.chance(0.06))
                x[0] = -r.logu(1e-9, 1) * f.u;
            if (r.chance(0.1))
                t = f.t0 * r.u(0.5, 3);
            ctx.scenario(cat(log, "\n t=", t, " x=", vh::vec(x)));
            const double before = t;
            const auto [cut, shrunk] = P(arr(x), t);
            J(x, before, std::get<0>(cut), std::get<1>(cut), shrunk, t);
            fp = vh::mix(fp, uint64_t(shrunk));
            fp = vh::hashd(fp, t);
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
    // one violated constraint among many satisfied ones, whatever came before
    ctx.group("single-violation", 3000, [&](Rng& r) {
        const Filter f = random_filter(r);
        Judge J {ctx, f, {f.z0}};
        lowpass_oracle P(f.Ap, f.As, f.Anr, f.L, f.U);
        std::string log = cat("n=", f.n, " z0=", vh::vec(f.z0));
        uint64_t fp = vh::hashs(log);
        std::vector<double> d;
        for (int q = 0; q < 20; ++q)
        {
            // walk from z0 until the first constraint is crossed
            // (at times the one crossed before, again)
            if (q == 0 || r.chance(0.7))
            {
                d.clear();
                for (int i = 0; i < f.n; ++i)
                    d.push_back(r.normal() * f.u);
            }
            double a = 0, b = 1;
            auto at = [&](double s) {
                auto x = f.z0;
                for (int i = 0; i < f.n; ++i)
                    x[size_t(i)] += s * d[size_t(i)];
                return x;
            };
            while (f.violation(at(b), f.t0) <= 0 && b < 1e6)
                b *= 2;
            for (int k = 0; k < 50; ++k)
                (f.violation(at((a + b) / 2), f.t0) > 0 ? b : a) = (a + b) / 2;
            const auto x = at(b + r.logu(1e-8, 1e-3));
            double t = f.t0;
            ctx.scenario(cat(log, "\n t=", t, " x=", vh::vec(x)));
            const auto [cut, shrunk] = P(arr(x), t);
            J(x, f.t0, std::get<0>(cut), std::get<1>(cut), shrunk, t);
            fp = vh::hashd(fp, std::get<1>(cut)(0));
            if (r.chance(0.3))
            {
                double t2 = f.t0;
                const auto [c2, s2] = P(arr(f.z0), t2);
                J(f.z0, f.t0, std::get<0>(c2), std::get<1>(c2), s2, t2);
            }
        }
        ctx.nontrivial(fp);
    });
    // histories as the solver makes them
    ctx.group("solver", 120, [&](Rng& r) {
        const bool cosine = r.chance(0.6);
        const Filter f = cosine ? cosine_filter(r) : random_filter(r);
        if (f.Ap.shape()[0] == 0 || f.As.shape()[0] == 0)
            throw vh::Skip {};
        Judge J {ctx, f, {}};
        if (!cosine)
            J.known = {f.z0};
        lowpass_oracle P(f.Ap, f.As, f.Anr, f.L, f.U);
        double t = (cosine ? 0.3 : 3.) * f.u;
        const double t_start = t;
        ell S(40. * f.u * f.u, arr(std::vector<double>(size_t(f.n), 0.)));
        ctx.scenario(cat(cosine ? "cosine" : "random", " unit=", f.u, " n=", f.n, " L=", f.L, " U=", f.U));
        std::vector<double> best;
        auto oracle = [&](const Arr& x, double& tq) {
            const double before = tq;
            auto res = P(x, tq);
            const auto& cut = std::get<0>(res);
            J(dvec(x), before, std::get<0>(cut), std::get<1>(cut), std::get<1>(res), tq);
            if (std::get<1>(res))
                best = dvec(x);
            return res;
        };
        Options o;
        o.max_it = 600;
        o.tol *= f.u * f.u;
        const auto [xb, info] = cutting_plane_dc(oracle, S, t, o);
        ctx.event(info.feasible ? "designs" : "designs-none");
        ctx.event("design-iterations", long(info.num_iters));
        if (info.feasible)
        {
            ctx.expect(dvec(xb) == best, "x_best", "not the last improving point");
            ctx.expect(f.violation(best, t) <= 1e-9L * f.u, "design", cat("violation ", double(f.violation(best, t))));
        }
        else
            ctx.expect(t == t_start, "target", "changed without improvement");
        ctx.nontrivial(vh::hashd(vh::hashs(ctx.desc), t));
        ctx.sample(cat(ctx.desc, " -> t=", t, " iters=", info.num_iters, " ", er::name(info.status)));
    });
}

// ---------------------------------------------------------------- C16
namespace
{
struct Profit
{
    double u = 1; // unit of money
    double p, A, k;
    std::vector<double> a, v;
    double cobb(const std::vector<double>& y) const
    {
        return double(std::log(LD(p) * A) + LD(a[0]) * y[0] + LD(a[1]) * y[1]);
    }
    LD vx(const std::vector<double>& y) const
    {
        return v[0] * std::exp(LD(y[0])) + v[1] * std::exp(LD(y[1]));
    }
    LD profit(const std::vector<double>& y) const
    {
        return std::exp(std::log(LD(p) * A) + LD(a[0]) * y[0] + LD(a[1]) * y[1]) - vx(y);
    }
    std::string str() const
    {
        return cat("p=", p, " A=", A, " k=", k, " a=", vh::vec(a), " v=", vh::vec(v));
    }
};
Profit random_profit(Rng& r)
{
    Profit P;
    P.p = r.u(5, 40);
    P.A = r.u(5, 60);
    P.k = r.u(5, 60);
    const double a0 = r.u(0.05, 0.6);
    P.a = {a0, r.u(0.05, 0.9 - a0)};
    P.v = {r.u(1, 40), r.u(1, 40)};
    return P;
}
Profit other_units(Rng& r, Profit P)
{
    P.u = unit(r);
    P.p *= P.u;
    for (auto& x : P.v)
        x *= P.u;
    if (r.chance(0.1)) // a tight resource: log k < 0
        P.k = r.logu(0.02, 1);
    return P;
}
// judge one answer of the profit oracle at y (parameters P)
void judge(Ctx& ctx, const Profit& P, const std::vector<double>& y, double before, const Arr& g, double h, bool shrunk,
    double after, const char* what)
{
    if (!shrunk)
        ctx.expect(after == before, "target", cat(what, ": target changed without an improvement"));
    const LD f1 = LD(y[0]) - std::log(LD(P.k));
    if (std::fabs(f1) < 1e-11L)
        return;
    if (f1 > 0)
    {
        ctx.event(cat(what, ".resource"));
        ctx.expect(!shrunk && g.size() == 2 && g(0) == 1. && g(1) == 0. && std::fabs(h - f1) <= 1e-12L * (1 + std::fabs(LD(y[0]))),
            "resource-cut", cat(what, ": g=", vh::vec(dvec(g)), " beta=", h, " want ", double(f1)));
        return;
    }
    const LD vx = P.vx(y), te = LD(before) + vx;
    if (std::fabs(te) <= 1e-9L * vx)
        return; // rounding decides whether it has a logarithm
    const LD cobb = std::log(LD(P.p) * P.A) + LD(P.a[0]) * y[0] + LD(P.a[1]) * y[1];
    // a target below the costs alone is worse than any profit
    const LD fj = te < 0 ? -HUGE_VALL : std::log(te) - cobb;
    if (te < 0)
        ctx.event(cat(what, ".below-costs"));
    const LD tie = 2e-14L * (10 + std::fabs(cobb) + vx / std::fabs(te));
    if (std::fabs(fj) < tie)
        return;
    ctx.event(cat(what, shrunk ? ".improved" : ".cut"));
    if (!ctx.expect(shrunk == (fj < 0), "verdict", cat(what, ": shrunk=", shrunk, " value ", double(fj))))
        return;
    const LD tn = shrunk ? P.profit(y) : LD(before);
    if (shrunk)
        ctx.expect(std::fabs(after - tn) <= 1e-11L * (vx + std::fabs(tn)), "target",
            cat(what, ": new target ", after, " profit ", double(tn)));
    const LD den = shrunk ? std::exp(cobb) : te;
    const LD amp = shrunk ? 0 : 1e-15L * vx / te; // cancellation in t + v'x
    for (size_t i = 0; i < 2; ++i)
    {
        const LD want = P.v[i] * std::exp(LD(y[i])) / den - P.a[i];
        ctx.expect(std::fabs(g(i) - want) <= (1e-10L + amp) * (1 + std::fabs(want)), "gradient",
            cat(what, ": g[", i, "]=", g(i), " want ", double(want)));
    }
    const LD want = shrunk ? 0 : fj;
    ctx.expect(std::fabs(h - want) <= 1e-11L * (1 + std::fabs(cobb)) + amp, "value", cat(what, ": beta=", h, " want ", double(want)));
}
double pick_target(Rng& r, const Profit& P, const std::vector<double>& y)
{
    const double u = r.u();
    if (r.chance(0.08)) // worse than producing nothing: any profit is an improvement
        return r.chance(0.3) ? -1e100 : -double(P.vx(y)) * r.logu(1.0001, 1e6);
    if (u < 0.2)
        return 0;
    if (u < 0.35) // next to the profit
        return double(P.profit(y) + (P.profit(y) + P.vx(y)) * r.logu(1e-13, 1e-2) * (r.chance(0.5) ? 1 : -1));
    if (u < 0.7)
        return std::max(double(P.profit(y)) * r.u(0.3, 1.7), -0.9 * double(P.vx(y)));
    return r.u(0, 3000) * P.u;
}
std::vector<double> pick_y(Rng& r, const Profit& P)
{
    const double lk = std::log(P.k);
    if (r.chance(0.1)) // very little of one input, or very much of the other
        return {r.u(-30, lk), r.u(-30, 30)};
    return {r.chance(0.15) ? lk + r.logu(1e-6, 2) : r.u(std::min(-3., lk - 1), lk), r.u(-3, 4.5)};
}
} // namespace

VH_PROPERTY(C16)
{
    ctx.group("plain", 6000, [&](Rng& r) {
        const Profit P = other_units(r, random_profit(r));
        const profit_oracle Q(P.p, P.A, P.k, arr(P.a), arr(P.v));
        uint64_t fp = vh::hashs(P.str());
        for (int k = 0; k < 6; ++k)
        {
            const auto y = pick_y(r, P);
            double t = pick_target(r, P, y);
            const double before = t;
            ctx.scenario(cat(P.str(), " y=", vh::vec(y), " t=", t));
            const auto [cut, shrunk] = Q(arr(y), t);
            judge(ctx, P, y, before, std::get<0>(cut), std::get<1>(cut), shrunk, t, "plain");
            fp = vh::hashd(fp, std::get<1>(cut));
        }
        ctx.nontrivial(fp);
        ctx.sample(ctx.desc);
    });
    ctx.group("robust", 6000, [&](Rng& r) {
        const Profit P = other_units(r, random_profit(r));
        const std::vector<double> e {r.u(0, 0.04), r.u(0, 0.04)};
        const double e3 = r.u(0, 1) * std::min({1., P.u, P.k / 2});
        profit_rb_oracle Q(P.p, P.A, P.k, arr(P.a), arr(P.v), arr(e), e3);
        Profit W = P; // worst case
        W.p -= e3;
        W.k -= e3;
        W.v[0] += e3;
        W.v[1] += e3;
        uint64_t fp = vh::hashs(P.str());
        for (int k = 0; k < 8; ++k)
        {
            auto y = pick_y(r, W);
            if (y[0] == 0 || y[1] == 0)
                continue;
            for (size_t i = 0; i < 2; ++i)
                W.a[i] = P.a[i] + (y[i] > 0 ? -e[i] : e[i]);
            double t = pick_target(r, W, y);
            const double before = t;
            ctx.scenario(cat("robust ", P.str(), " e=", vh::vec(e), " e3=", e3, " y=", vh::vec(y), " t=", t));
            const auto [cut, shrunk] = Q(arr(y), t);
            judge(ctx, W, y, before, std::get<0>(cut), std::get<1>(cut), shrunk, t, "robust");
            fp = vh::hashd(fp, std::get<1>(cut));
        }
        ctx.nontrivial(fp);
        ctx.sample(ctx.desc);
    });
    ctx.group("discrete", 6000, [&](Rng& r) {
        const Profit P = other_units(r, random_profit(r));
        profit_q_oracle Q(P.p, P.A, P.k, arr(P.a), arr(P.v));
        uint64_t fp = vh::hashs(P.str());
        std::vector<double> yd;
        std::string log = "discrete " + P.str();
        for (int k = 0; k < 8; ++k)
        {
            const auto y = pick_y(r, P);
            const bool retry = k > 0 && r.chance(0.4);
            bool tie = false;
            if (!retry)
            {
                yd.clear();
                for (auto v : y)
                {
                    const double x = std::exp(v);
                    if (std::fabs(x - std::floor(x) - 0.5) < 1e-9)
                        tie = true;
                    yd.push_back(std::log(std::max(1., std::round(x))));
                }
            }
            if (tie)
                break;
            double t = pick_target(r, P, yd);
            const double before = t;
            log += cat("\n y=", vh::vec(y), " t=", t, retry ? " retry" : "");
            ctx.scenario(log);
            const auto [cut, x0, shrunk, more] = Q(arr(y), t, retry);
            fp = vh::hashd(fp, std::get<1>(cut));
            const auto x0v = dvec(x0);
            if (!ctx.expect(x0v.size() == 2 && std::fabs(x0v[0] - yd[0]) < 1e-13 && std::fabs(x0v[1] - yd[1]) < 1e-13,
                    "discrete-point", cat("evaluated at ", vh::vec(x0v), " want ", vh::vec(yd))))
                continue;
            ctx.expect(more == !retry, "more-alternatives", cat("retry=", retry, " more=", more));
            // undo the shift to a cut about y: g'(z-yd)+h <= 0
            const Arr& g = std::get<0>(cut);
            const double hq = std::get<1>(cut);
            if (!ctx.expect(g.size() == 2, "gradient", "wrong length"))
                continue;
            const LD sh = LD(g(0)) * (LD(y[0]) - yd[0]) + LD(g(1)) * (LD(y[1]) - yd[1]);
            // what the plain oracle says at yd
            const profit_oracle Q0(P.p, P.A, P.k, arr(P.a), arr(P.v));
            double t0 = before;
            const auto [c0, s0] = Q0(arr(yd), t0);
            const double h0 = std::get<1>(c0);
            judge(ctx, P, yd, before, g, h0, shrunk, t, "discrete");
            if (s0 != shrunk)
                continue;
            const LD tol = 1e-11L * (1 + std::fabs(LD(h0)) + std::fabs(sh));
            if (std::fabs(hq - (h0 + sh)) <= tol)
                ctx.event("discrete.shift-right");
            else
                ctx.fail(std::fabs(hq - (h0 - sh)) <= tol ? "discrete-shift-sign" : "discrete-shift",
                    cat("beta=", hq, " about the queried point, want ", double(h0 + sh)));
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
    // the optimum of the whole problem
    ctx.group("optimum", 150, [&](Rng& r) {
        const Profit P = random_profit(r);
        const double pA = P.p * P.A;
        // unconstrained stationary point, or on x1 = k
        const double s = 1 - P.a[0] - P.a[1];
        const double lx1 = (std::log(pA) + (1 - P.a[1]) * std::log(P.a[0] / P.v[0]) + P.a[1] * std::log(P.a[1] / P.v[1])) / s;
        const double lk = std::log(P.k);
        const double y1 = std::min(lx1, lk);
        const double y2 = (std::log(pA * P.a[1] / P.v[1]) + P.a[0] * y1) / (1 - P.a[1]);
        const double opt = double(P.profit({y1, y2}));
        if (!(std::fabs(y1) < 8 && std::fabs(y2) < 8 && opt > 5))
            throw vh::Skip {};
        ctx.scenario("optimum " + P.str());
        profit_oracle Q(P.p, P.A, P.k, arr(P.a), arr(P.v));
        ell S(200., Arr {0., 0.});
        double t = r.chance(0.7) ? 0 : r.chance(0.3) ? -1e100 : -r.logu(1., 1e9);
        const auto [xb, info] = cutting_plane_dc(Q, S, t);
        ctx.expect(info.feasible, "optimum", "nothing found");
        ctx.expect(t <= opt * (1 + 1e-9) && t >= opt * (1 - 2e-3), "optimum", cat("t=", t, " true optimum ", opt));
        ctx.expect(std::fabs(P.profit(dvec(xb)) - t) <= 1e-9 * (1 + t), "optimum", "t is not the profit at x_best");
        ctx.event("optima");
        ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(cat(ctx.desc, " -> ", t, " true ", opt));
    });
}
