// C22: the two oracles inside lsq_corr_ell.cpp (optional unit: it includes
// that source, so it depends on the classes there).
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <ellcpp/utility.hpp>
#include <limits>
#include <tuple>
#include <vector>
#include <xtensor-blas/xlinalg.hpp>
#include <xtensor/xmath.hpp>
#include <xtensor/xnorm.hpp>
#include <xtensor/xrandom.hpp>
#include "lsqref.hpp"
#include "vh.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <iostream>
#include <memory>
#include <numeric>
#include <optional>
#include <utility>
namespace lsq_src
{
#include <lsq_corr_ell.cpp>
}

using namespace vh;
using namespace lsq;

namespace
{
Vec admissible_point(Rng& r, const Fit& P, Mode mode, bool& found)
{ // a random direction from a known inner point, up to the boundary
    Vec base, bp;
    found = false;
    Vec p(size_t(P.m), 0.L);
    for (int tries = 0; tries < 60; ++tries)
    {
        // decreasing covariances are the usual positive definite ones
        const LD p0 = r.u(0.2, 5.);
        LD sc = p0 / 8;
        p[0] = p0;
        for (int k = 1; k < P.m; ++k, sc /= 8)
            p[size_t(k)] = -sc * (k == 1 ? r.u(0.05, 1.) : r.normal() * 0.3);
        if (margin(P, mode, p) > 0)
        {
            found = true;
            break;
        }
    }
    if (!found)
        return p;
    Vec d(size_t(P.m), 0.L);
    LD w = 1;
    for (int k = 0; k < P.m; ++k, w /= 8)
        d[size_t(k)] = r.normal() * w;
    LD lo = 0, hi = 16;
    for (int k = 0; k < 40; ++k)
    {
        const LD mid = (lo + hi) / 2;
        Vec q = p;
        for (int i = 0; i < P.m; ++i)
            q[size_t(i)] += mid * d[size_t(i)];
        (margin(P, mode, q) > 0 ? lo : hi) = mid;
    }
    if (r.chance(0.5))
        lo *= r.u();
    for (int i = 0; i < P.m; ++i)
        p[size_t(i)] += lo * d[size_t(i)];
    return p;
}
// covariances in another unit (a power of two: exact)
double cov_unit(Rng& r, int most)
{
    if (r.chance(0.6))
        return 1.;
    const int e = r.chance(0.5) ? 20 : most;
    return std::ldexp(1., int(r.i(-e, e)));
}
Arr arr(const Vec& p, int extra = 0)
{
    Arr x = xt::zeros<double>({p.size() + size_t(extra)});
    for (size_t i = 0; i < p.size(); ++i)
        x(i) = double(p[i]);
    return x;
}
Vec query(Rng& r, const Fit& P, Mode mode)
{
    bool found = false;
    Vec p = admissible_point(r, P, mode, found);
    if (!found || r.chance(0.4))
    {
        p[0] = r.u(-2., 6.);
        LD w = 0.5;
        for (int k = 1; k < P.m; ++k, w /= 8)
            p[size_t(k)] = r.normal() * w;
    }
    for (auto& v : p)
        v = double(v);
    return p;
}

void lsq_history(Ctx& ctx, Rng& r)
{
    int n = 0;
    const Arr s = sites(r, n);
    const int m = int(r.i(1, 4));
    const Arr Y = covariance(r, s);
    const Fit P = fit(s, Y, m);
    const auto Sig = lsq_src::construct_poly_matrix(s, size_t(m));
    const double u = cov_unit(r, 100), uu = u * u; // covariances, their squares
    const Arr Yu = Y * u;
    lsq_src::lsq_oracle omega(Sig, Yu);
    double t = 1e100;
    std::string head = cat("lsq unit ", u, " m=", m, " sites ", show(s), " Y ", show(Y));
    std::vector<std::pair<Vec, LD>> inner; // admissible p and its squared error
    for (int k = 0; k < 8; ++k)
    {
        bool found = false;
        const Vec q = admissible_point(r, P, LSQ_PSD, found);
        if (found)
            inner.push_back({q, std::pow(spectral(P, q), 2.L)});
    }
    uint64_t h = hashd(uint64_t(m), s(0, 0));
    for (int k = 0; k < 6; ++k)
    {
        const Vec p = query(r, P, LSQ_PSD);
        const LD mg = margin(P, LSQ_PSD, p);
        const LD e2 = std::pow(spectral(P, p), 2.L);
        const LD big = eig(P.Y).back() + std::fabs(eig(comb(P, p)).back()) + std::fabs(eig(comb(P, p)).front());
        double x_t = 0;
        switch (r.i(0, 3))
        {
            case 0: x_t = double(e2) * r.u(0., 0.999); break;
            case 1: x_t = double(e2) * r.u(1.001, 3.); break;
            case 2: x_t = t < 1e99 ? t * r.u(0.8, 1.3) : double(e2) * 1.5; break;
            default: x_t = double(e2) + r.logu(1e-3, 1e3);
        }
        Arr x = arr(p, 1) * u;
        x(size_t(m)) = x_t * uu;
        const double t0 = t;
        ctx.scenario(cat(head, " x ", vec(p), " t ", x_t, " target ", t0));
        double tu = t < 1e99 ? t * uu : 1e200;
        const auto [cut, shrunk] = omega(x, tu);
        if (tu != 1e200)
            t = tu / uu;
        const Arr g = std::get<0>(cut);
        const double f = std::get<1>(cut);
        ctx.event("lsq queries");
        if (!ctx.expect(g.dimension() == 1 && g.size() == size_t(m) + 1 && std::isfinite(f), "lsq-cut", "the cut is not of the variable's size"))
            return;
        const bool pd = mg > 1e-9L * big, npd = mg < -1e-9L * big;
        const bool near = std::fabs(e2 - x_t) < 1e-9L * (1 + big * big);
        const bool in = pd && x_t > e2 && !near, out = npd || (x_t < e2 && !near);
        if (in)
        {
            bool unit = g(size_t(m)) == 1.;
            for (int i = 0; i < m; ++i)
                unit = unit && g(size_t(i)) == 0.;
            ctx.expect(unit, "lsq-objective-gradient", "an admissible point is not cut along the objective");
            if (x_t > t0)
                ctx.expect(!shrunk && t == t0 && std::fabs(f / uu - (x_t - t0)) <= 1e-12 * (1. + std::fabs(x_t)), "lsq-objective-cut", cat("f = ", f));
            else
                ctx.expect(shrunk && t == x_t && f == 0., "lsq-target", cat("target ", t, " after an admissible point of value ", x_t));
            ctx.event("lsq accepted");
        }
        else if (out)
        {
            ctx.expect(!shrunk && t == t0, "lsq-target-inadmissible", "the target moved at an inadmissible point");
            ctx.expect(f >= 0, "lsq-cut-shallow", cat("cut of depth ", f, " at an inadmissible point"));
            bool zero = true;
            for (auto v : g)
                zero = zero && v == 0.;
            ctx.expect(!zero || inner.empty(), "lsq-cut-zero", "no gradient");
            for (const auto& [q, v2] : inner)
                for (const LD over : {1e-9L, 0.1L})
                {
                    LD a = f, mag = std::fabs(LD(f));
                    for (int i = 0; i < m; ++i)
                    {
                        const LD c = LD(g(size_t(i))) * (q[size_t(i)] - p[size_t(i)]) * u;
                        a += c;
                        mag += std::fabs(c);
                    }
                    const LD c = LD(g(size_t(m))) * (v2 * (1 + over) - x_t) * uu;
                    a += c;
                    mag += std::fabs(c);
                    ctx.expect(a <= 1e-8L * mag, "lsq-cuts-off", cat("the admissible ", vec(q), " with value ", v2, " is cut off by ", a));
                    ctx.event("lsq cuts checked");
                }
        }
        else
            ctx.event("lsq ties");
        h = hashd(hashd(h, x_t), f);
    }
    ctx.nontrivial(h);
}

void mle_history(Ctx& ctx, Rng& r)
{
    int n = 0;
    const Arr s = sites(r, n);
    const int m = int(r.i(2, 4));
    const Arr Y = covariance(r, s);
    const Fit P = fit(s, Y, m);
    const auto Sig = lsq_src::construct_poly_matrix(s, size_t(m));
    const double u = cov_unit(r, 300);
    const LD shift = LD(P.n) * std::log(LD(u)); // of the objective
    const Arr Yu = Y * u;
    lsq_src::mle_oracle omega(Sig, Yu);
    double t = 1e100;
    std::string head = cat("mle unit ", u, " m=", m, " sites ", show(s), " Y ", show(Y));
    std::vector<Vec> inner;
    for (int k = 0; k < 8; ++k)
    {
        bool found = false;
        const Vec q = admissible_point(r, P, MLE, found);
        if (found)
            inner.push_back(q);
    }
    uint64_t h = hashd(uint64_t(m), s(0, 0));
    for (int k = 0; k < 6; ++k)
    {
        const Vec p = query(r, P, MLE);
        const LD mg = margin(P, MLE, p);
        const Vec es = eig(comb(P, p));
        const LD big = eig(P.Y).back() + std::fabs(es.back()) + std::fabs(es.front());
        if (t < 1e99 && r.chance(0.2))
            t += r.normal();
        const double t0 = t;
        ctx.scenario(cat(head, " x ", vec(p), " target ", t0));
        const auto [cut, shrunk] = omega(Arr {arr(p) * u}, t);
        const Arr g = std::get<0>(cut);
        const double f = std::get<1>(cut);
        ctx.event("mle queries");
        if (!ctx.expect(g.dimension() == 1 && g.size() == size_t(m) && std::isfinite(f), "mle-cut", "the cut is not of the variable's size"))
            return;
        if (mg > 1e-5L * big)
        {
            Vec gr;
            bool adm = false;
            const LD v = value(P, MLE, p, gr, adm) + shift;
            const LD tol = 1e-9L * (1 + std::fabs(v)) * (1 + big / mg);
            if (std::fabs(v - t0) < tol)
            {
                ctx.event("mle ties");
                continue;
            }
            if (v < t0)
                ctx.expect(shrunk && std::fabs(t - v) <= tol && f == 0., "mle-target", cat("target ", t, " after a point of value ", v, ", f = ", f));
            else
                ctx.expect(!shrunk && t == t0 && std::fabs(f - (v - t0)) <= tol, "mle-objective-cut", cat("f = ", f, " at value ", v));
            LD sum = 0;
            for (const auto e : gr)
                sum = std::max(sum, std::fabs(e));
            for (int i = 0; i < m; ++i)
            {
                LD fk = 0;
                for (auto e : P.F[size_t(i)].a)
                    fk = std::max(fk, std::fabs(e));
                ctx.expect(std::fabs(LD(g(size_t(i))) * u - gr[size_t(i)]) <= 1e-10L * (1 + std::fabs(gr[size_t(i)])) * (1 + big / mg) * (1 + fk / mg),
                    "mle-gradient", cat("component ", i, " is ", LD(g(size_t(i))) * u, ", not ", gr[size_t(i)]));
            }
            ctx.event("mle accepted");
        }
        else if (mg < -1e-9L * big)
        {
            ctx.expect(!shrunk && t == t0, "mle-target-inadmissible", "the target moved at an inadmissible point");
            ctx.expect(f >= 0, "mle-cut-shallow", cat("cut of depth ", f));
            bool zero = true;
            for (auto v : g)
                zero = zero && v == 0.;
            ctx.expect(!zero || inner.empty(), "mle-cut-zero", "no gradient");
            for (const auto& q : inner)
            {
                LD a = f, mag = std::fabs(LD(f));
                for (int i = 0; i < m; ++i)
                {
                    const LD c = LD(g(size_t(i))) * (q[size_t(i)] - p[size_t(i)]) * u;
                    a += c;
                    mag += std::fabs(c);
                }
                ctx.expect(a <= 1e-8L * mag, "mle-cuts-off", cat("the admissible ", vec(q), " is cut off by ", a));
                ctx.event("mle cuts checked");
            }
        }
        else
            ctx.event("mle ties");
        h = hashd(hashd(h, double(p[0])), f);
    }
    ctx.nontrivial(h);
}
} // namespace

void c22_oracles(Ctx& ctx)
{
    ctx.group("lsq-oracle", 400, [&](Rng& r) { lsq_history(ctx, r); });
    ctx.group("mle-oracle", 400, [&](Rng& r) { mle_history(ctx, r); });
    ctx.group("basis", 300, [&](Rng& r) {
        int n = 0;
        Arr s = sites(r, n);
        if (r.chance(0.5)) // on a line, in space; sites may coincide
        {
            n = int(r.chance(0.1) ? r.i(20, 60) : r.i(1, 12));
            const size_t dims = size_t(r.i(1, 4));
            s = xt::zeros<double>({size_t(n), dims});
            for (auto& v : s)
                v = r.chance(0.2) ? double(r.i(-2, 2)) : r.u(-10, 10);
        }
        const double len = r.chance(0.3) ? r.logu(1e-6, 1e6) : 1.;
        s *= len;
        const int m = int(r.i(1, 6));
        ctx.scenario(cat("basis m=", m, " ", show(s)));
        const auto Sig = lsq_src::construct_poly_matrix(s, size_t(m));
        if (!ctx.expect(int(Sig.size()) == m, "basis-size", cat(Sig.size(), " matrices instead of ", m)))
            return;
        const Fit P = fit(s, Arr {xt::zeros<double>({size_t(n), size_t(n)})}, m);
        const Arr D = lsq_src::construct_distance_matrix(s);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                const LD d = dist(s, i, j);
                ctx.expect(std::fabs(LD(D(size_t(i), size_t(j))) - d) <= 1e-13L * (len + d), "distance", cat("distance of ", i, " and ", j));
                for (int k = 0; k < m; ++k)
                    ctx.expect(std::fabs(LD(Sig[size_t(k)](size_t(i), size_t(j))) - P.F[size_t(k)](i, j)) <= 1e-12L * P.F[size_t(k)](i, j),
                        "basis", cat("matrix ", k, " at ", i, ",", j));
            }
        ctx.event("bases checked");
        ctx.nontrivial(hashd(uint64_t(m), s(0, 0)));
    });
}
