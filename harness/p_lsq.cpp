// C22: covariance fits, judged by an independent model of the two problems.
#include "lsqref.hpp"
#include "vh.hpp"

using namespace vh;
using namespace lsq;

extern Arr create_2d_sites(size_t, size_t);
extern Arr create_2d_isotropic(const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> lsq_corr_poly2(const Arr&, const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> lsq_corr_poly(const Arr&, const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> mle_corr_poly(const Arr&, const Arr&, size_t);

// monitors of the oracles themselves, when that unit could be built
__attribute__((weak)) void c22_oracles(Ctx& ctx);

namespace
{
const char* names[] = {"lsq_corr_poly2", "lsq_corr_poly", "mle_corr_poly"};

void judge(Ctx& ctx, const Arr& s, const Arr& Y, int m, Mode mode)
{
    // everything is judged in the unit in which the average variance is about 4
    double unit = 0;
    for (size_t i = 0; i < Y.shape()[0]; ++i)
        unit += Y(i, i) / double(Y.shape()[0]);
    unit = std::exp2(std::round(std::log2(unit / 4.)));
    // and the largest distance about 12
    double length = 0;
    for (size_t i = 0; i < s.shape()[0]; ++i)
        for (size_t j = 0; j < i; ++j)
            length = std::max(length, std::hypot(s(i, 0) - s(j, 0), s(i, 1) - s(j, 1)));
    length = std::exp2(std::round(std::log2(length / 12.)));
    const Fit P = fit(Arr {s / length}, Arr {Y / unit}, m);
    ctx.scenario(cat(names[mode], " m=", m, " sites ", show(s), " Y ", show(Y)));
    auto run = [&] {
        return mode == LSQ_PSD ? lsq_corr_poly2(Y, s, size_t(m)) : mode == LSQ ? lsq_corr_poly(Y, s, size_t(m)) : mle_corr_poly(Y, s, size_t(m));
    };
    const auto [a, iters, ok] = run();
    ctx.event(cat("fits by ", names[mode]));
    const std::string nm = names[mode];
    if (!ctx.expect(ok, nm + ":no-fit", "no fit found for a positive definite sample covariance"))
        return;
    if (!ctx.expect(a.dimension() == 1 && a.size() == size_t(m), nm + ":shape", "the fit does not have m coefficients"))
        return;
    ctx.expect(iters >= 1 && iters <= 2000, nm + ":iterations", cat("iterations ", iters));
    Vec p;
    for (int i = 0; i < m; ++i)
    {
        if (!ctx.expect(std::isfinite(a(size_t(i))), nm + ":nan", "a coefficient is not finite"))
            return;
        p.push_back(LD(a(size_t(i))) / unit * std::pow(LD(length), i));
    }
    const LD scale = eig(P.Y).back() + eig(comb(P, p)).back();
    const LD mg = margin(P, mode, p);
    if (!ctx.expect(mg > -1e-12L * scale, nm + ":inadmissible", cat("the fit misses its constraint by ", -mg)))
        return;
    Vec g;
    auto objective = [&](const Vec& q) {
        bool adm = false;
        const LD f = value(P, mode, q, g, adm);
        return adm ? f : 1e99L;
    };
    const LD f = mode == MLE ? objective(p) : spectral(P, p);
    const LD slack = mode == MLE ? 5e-4L + 2e-4L * std::fabs(f) : 4e-4L + 4e-3L * f * f;
    auto worse = [&](LD other) { return mode == MLE ? f > other + slack : f * f > other * other + slack; };
    Vec bp;
    const LD best = optimum(P, mode, bp);
    ctx.expect(!worse(best), nm + ":suboptimal", cat("objective ", f, " but ", best, " at ", vec(bp), " is possible; fit ", vec(p)));
    Rng r(hashd(uint64_t(m), a(0)));
    for (int k = 0; k < 40; ++k)
    { // steps along the coordinates and at random, sized by the basis
        Vec q = p;
        LD w = r.logu(1e-3, 0.3);
        for (int i = 0; i < m; ++i, w /= 8)
            q[size_t(i)] += w * (k < 2 * m ? (i == k / 2 ? (k % 2 ? 1 : -1) : 0) : r.normal());
        const LD o = objective(q);
        ctx.expect(!worse(o), nm + ":neighbour", cat("objective ", f, " but ", o, " nearby at ", vec(q)));
    }
    ctx.event("neighbours compared", 40);
    if (r.chance(0.2))
    {
        const auto [a2, it2, ok2] = run();
        ctx.expect(ok2 && it2 == iters && a2 == a, nm + ":not-repeatable", "a second call gives another answer");
        ctx.event("calls repeated");
    }
    ctx.nontrivial(hashd(hashd(uint64_t(mode), a(0)), double(f)));
    ctx.sample(cat(nm, " n=", P.n, " m=", m, " iterations ", iters, " objective ", double(f), " reference ", double(best)));
}
} // namespace

VH_PROPERTY(C22)
{
    for (int mode = 0; mode < 3; ++mode)
        ctx.group(names[mode], mode == LSQ ? 30 : 70, [&](Rng& r) {
            int n = 0;
            Arr s = sites(r, n);
            if (r.chance(0.4))
                s = create_2d_sites(size_t(r.i(2, 4)), size_t(r.i(2, 3)));
            Arr Y = r.chance(0.3) ? create_2d_isotropic(s, size_t(r.i(40, 400))) : covariance(r, s);
            if (r.chance(0.4)) // in other units
                Y *= r.chance(0.5) ? r.logu(1e-9, 1e9) : r.logu(0.01, 100);
            if (r.chance(0.4))
                s *= r.chance(0.5) ? r.logu(1e-9, 1e9) : r.logu(0.01, 100);
            judge(ctx, s, Y, int(r.i(2, 4)), Mode(mode));
        });
    ctx.group("sites", 200, [&](Rng& r) {
        const size_t nx = size_t(r.i(2, 14)), ny = size_t(r.i(2, 12));
        const Arr s = create_2d_sites(nx, ny);
        ctx.scenario(cat("create_2d_sites ", nx, " ", ny));
        if (!ctx.expect(s.dimension() == 2 && s.shape()[0] == nx * ny && s.shape()[1] == 2, "sites-shape", "not nx*ny rows of two"))
            return;
        std::set<std::pair<long, long>> seen;
        for (size_t k = 0; k < nx * ny; ++k)
        {
            const double u = s(k, 0) / 10. * double(nx - 1), v = s(k, 1) / 8. * double(ny - 1);
            const long iu = std::lround(u), iv = std::lround(v);
            ctx.expect(std::fabs(u - double(iu)) < 1e-9 && std::fabs(v - double(iv)) < 1e-9 && iu >= 0 && iu < long(nx) && iv >= 0 && iv < long(ny),
                "sites-grid", cat("site ", k, " (", s(k, 0), ",", s(k, 1), ") is not on the grid"));
            seen.insert({iu, iv});
        }
        ctx.expect(seen.size() == nx * ny, "sites-missing", "grid points are missing");
        ctx.event("site grids");
        ctx.nontrivial(mix(nx, ny));
    });
    ctx.group("isotropic", 30, [&](Rng& r) {
        int n = 0;
        const Arr s = sites(r, n);
        const size_t N = size_t(r.i(2000, 8000));
        ctx.scenario(cat("create_2d_isotropic N=", N, " ", show(s)));
        const Arr Y = create_2d_isotropic(s, N);
        if (!ctx.expect(Y.dimension() == 2 && int(Y.shape()[0]) == n && int(Y.shape()[1]) == n, "isotropic-shape", "not an n x n matrix"))
            return;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                const double d = std::hypot(s(size_t(i), 0) - s(size_t(j), 0), s(size_t(i), 1) - s(size_t(j), 1));
                const double want = 4. * std::exp(-0.3 * d), got = Y(size_t(i), size_t(j));
                // a standard deviation of at most 4 sqrt(2/N); seven of them
                ctx.expect(std::fabs(got - want) < 7. * 4. * std::sqrt(2. / double(N)), "isotropic-value",
                    cat("covariance at distance ", d, " is ", got, ", expected about ", want));
                ctx.expect(got == Y(size_t(j), size_t(i)), "isotropic-asymmetric", "the sample covariance is not symmetric");
            }
        ctx.expect(eig(of(Y))[0] > 0, "isotropic-indefinite", "the sample covariance is not positive definite");
        const Arr Z = create_2d_isotropic(s, N);
        ctx.expect(Z == Y, "isotropic-repeat", "a second call gives another sample");
        ctx.event("sample covariances");
        ctx.nontrivial(hashd(N, s(0, 0)));
    });
    if (c22_oracles)
        c22_oracles(ctx);
}
