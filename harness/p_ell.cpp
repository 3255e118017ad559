// C01..C04: the ellipsoid search space, C05: its stable variant.
#include "ellgen.hpp"
#include <ellcpp/ell.hpp>
#include <ellcpp/ell_stable.hpp>

using namespace er;
using eg::Cut;
using eg::Start;
using vh::cat;
using vh::Ctx;
using vh::Rng;

namespace
{
// One history: cuts applied to a real space, each step observed from outside.
struct Step
{
    const State& before;
    const la::Mat& L; // Cholesky factor of before.P
    LD cond;
    const Cut& cut;
    CUTStatus status;
    double tsq;
    const State& after;
    const Expect& e;
};

template <typename Space>
void history(Ctx& ctx, Rng& r, int n, int steps, const std::vector<int>& kinds,
    const std::function<void(const Step&)>& monitor, bool parallel = true, bool endless = false)
{
    Start s0 = eg::start(r, n);
    if (endless && std::abs(s0.lexp) + std::abs(s0.gexp) > 40)
        s0.lexp = s0.gexp = 0;
    eg::Scaled<Space> S = s0.make<eg::Scaled<Space>>();
    const double kappa0 = s0.scalar ? s0.alpha * S.len * S.len : 1.;
    S.use_parallel_cut = parallel;
    S.no_defer_trick = r.chance(0.3);
    std::string log = cat("n=", n, " start=", s0.str());
    State st = probe(S);
    uint64_t fp = vh::mix(uint64_t(n), vh::hashs(log));
    for (int k = 0; k < steps; ++k)
    {
        la::Mat L;
        if (!finite(st) || !la::chol(st.P, L))
        {
            ctx.scenario(log);
            ctx.fail("not-positive-definite",
                cat("shape not finite/positive definite before step ", k));
            return;
        }
        const la::Vec ev = la::eig(st.P);
        const LD cond = ev.back() / ev.front();
        LD xcn = la::norm(st.c);
        if (endless && (ev.back() < 1e-2L || ev.back() > 1e2L) && cond < 1e6L)
        { // go on with the same space in other units, about the origin
            int e = 0;
            std::frexp(double(std::sqrt(ev.back())), &e);
            S.units(std::ldexp(1., e));
            S.set_xc(arr(std::vector<double>(size_t(n), 0.)));
            log += cat("\nunits *2^", e, ", set_xc(0)");
            // the factors kappa and Q of the shape drift apart by at most 4/3
            // a step; stop before the squares of Q g underflow
            if (std::log2(S.len * S.len / kappa0) - 0.42 * k < -400)
                break;
            st = probe(S);
            ctx.event("unit changes");
            --k;
            continue;
        }
        if (cond > 1e6L || ev.front() < 1e-9L * (1 + xcn * xcn) || ev.back() > 1e12L)
        { // keep the comparison meaningful: restart
            history<Space>(ctx, r, n, steps - k, kinds, monitor, parallel, endless);
            return;
        }
        auto tau = [&](const Arr& g) { return std::sqrt(tsq_of(S, g)); };
        Cut c = eg::cut(r, n, tau, kinds);
        for (int i = 0; endless && i != 4; ++i)
        { // prefer the long directions
            const Cut d = eg::cut(r, n, tau, kinds);
            if (tau(arr(d.g)) * la::norm(eg::lvec(c.g)) > tau(arr(c.g)) * la::norm(eg::lvec(d.g)))
                c = d;
        }
        if (endless)
            ctx.event("long-history steps");
        log += cat("\n", c.str());
        ctx.scenario(log);
        const LD b1 = c.b1;
        const Expect e = expect_cut(
            st, eg::lvec(c.g), c.b0, (c.par && parallel) ? &b1 : nullptr);
        const auto [status, tsq] = eg::apply(S, c);
        const State after = probe(S);
        ctx.event(cat("cut.", eg::kname(c.kind), ".", name(status)));
        fp = vh::hashd(fp, tsq);
        monitor(Step {st, L, cond, c, status, tsq, after, e});
        st = after;
    }
    ctx.nontrivial(fp);
    ctx.sample(log);
}

const std::vector<int> ALL = {eg::central, eg::deep, eg::shallow, eg::empty1,
    eg::noeffect1, eg::par_deep, eg::par_shallow, eg::par_other,
    eg::par_central, eg::par_sym, eg::par_zero1, eg::par_far, eg::par_crossed,
    eg::par_noeffect, eg::par_outside, eg::par_missed};
const std::vector<int> CUTTING = {eg::central, eg::deep, eg::shallow,
    eg::par_deep, eg::par_shallow, eg::par_other, eg::par_central, eg::par_sym,
    eg::par_zero1, eg::par_far};
const std::vector<int> SINGLE = {eg::central, eg::deep, eg::shallow, eg::deep,
    eg::shallow, eg::noeffect1, eg::empty1};

LD tol_of(const Step& s)
{
    LD t = 1e-9L + 1e-13L * s.cond;
    // the centre is stored with the precision of its magnitude
    LD xm = 0;
    for (auto v : s.before.c)
        xm = std::max(xm, std::fabs(v));
    LD lmin = 1e300L;
    for (int i = 0; i < s.L.r; ++i)
        lmin = std::min(lmin, s.L(i, i));
    return t + 1e-14L * xm / lmin * 10;
}

// C01: points of (old ellipsoid, cut) stay inside
void contain(Ctx& ctx, Rng& r, const Step& s)
{
    if (s.status != CUTStatus::success)
        return;
    const LD l = std::max<LD>(-1, s.e.l), h = std::min<LD>(1, s.e.h);
    if (l > h || (s.cut.par && s.e.verdict == Verdict::nosoln))
        return; // nothing satisfies the cut
    if (s.cut.kind == eg::par_missed)
        return;
    la::Mat L2;
    if (!finite(s.after) || !la::chol(s.after.P, L2))
    {
        std::string P;
        for (int i = 0; i != s.before.n; ++i)
            for (int j = 0; j <= i; ++j)
                P += cat(" ", double(s.before.P(i, j)), "->", double(s.after.P(i, j)));
        ctx.fail("degenerate", cat("accepted cut left a non-ellipsoid; condition ", double(s.cond), " shape", P));
        return;
    }
    const int n = s.before.n;
    // whitened direction: g'(x-xc) = tau * e'u with x = xc + L u
    la::Vec gt = la::mul(la::T(s.L), eg::lvec(s.cut.g));
    const LD gn = la::norm(gt);
    for (auto& v : gt)
        v /= gn;
    const la::Vec ev = la::eig(s.after.P);
    LD xm = 0;
    for (auto v : s.before.c)
        xm = std::max(xm, std::fabs(v));
    const LD tol = 1e-8L + 1e-12L * ev.back() / ev.front() +
        1e-13L * xm / std::sqrt(ev.front());
    if (tol > 1e-3L)
        return;
    for (int k = 0; k < 24; ++k)
    {
        LD sc; // along the cut direction
        if (k < 6)
            sc = h;
        else if (k < 12)
            sc = l;
        else
            sc = l + (h - l) * r.u();
        la::Vec w(static_cast<size_t>(n));
        for (auto& v : w)
            v = r.normal();
        const LD p = la::dot(w, gt);
        for (int i = 0; i < n; ++i)
            w[size_t(i)] -= p * gt[size_t(i)];
        const LD wn = la::norm(w);
        LD rad = std::sqrt(std::max<LD>(0, 1 - sc * sc));
        if (k >= 20)
            rad *= r.u();
        la::Vec u(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
            u[size_t(i)] = sc * gt[size_t(i)] +
                (wn > 1e-12L ? rad * w[size_t(i)] / wn : 0);
        la::Vec x = la::mul(s.L, u);
        for (int i = 0; i < n; ++i)
            x[size_t(i)] += s.before.c[size_t(i)] - s.after.c[size_t(i)];
        const LD q = la::norm(la::fsub(L2, x));
        ctx.event("points");
        if (!(q * q <= 1 + tol))
        {
            ctx.fail(cat("lost-point.", eg::kname(s.cut.kind)),
                cat("a point allowed by the cut lies outside: ", double(q * q),
                    " > 1 (+", double(tol), ") s=", double(sc)));
            return;
        }
    }
}

// C02: exactly the minimum-volume ellipsoid
void minimal(Ctx& ctx, const Step& s)
{
    if (s.status != CUTStatus::success)
        return;
    if (!finite(s.after) || !std::isfinite(s.tsq))
    {
        ctx.fail("not-finite", "accepted cut produced a non-finite space");
        return;
    }
    if (!s.e.check_min || s.e.verdict == Verdict::nosoln)
        return;
    if (s.e.verdict == Verdict::either)
        return;
    ctx.event("updates");
    const Dist d = distance(s.L, s.after, s.e.next);
    const LD tol = tol_of(s);
    if (!(d.centre <= tol && d.shape <= tol))
        ctx.fail(cat("not-minimal.", eg::kname(s.cut.kind)),
            cat("update differs from the minimum-volume ellipsoid: centre ",
                double(d.centre), " shape ", double(d.shape), " tol ",
                double(tol)));
    la::Mat L2;
    if (la::chol(s.after.P, L2))
    {
        LD lv = 0;
        for (int i = 0; i < L2.r; ++i)
            lv += std::log(L2(i, i) / s.L(i, i));
        if (!(lv <= tol * 10))
            ctx.fail("volume-grew", cat("log volume ratio ", double(lv)));
    }
    else
        ctx.fail("degenerate", "accepted cut left a non-ellipsoid");
}

// C03
void verdict(Ctx& ctx, const Step& s)
{
    if (s.status != CUTStatus::success)
    {
        ctx.event("rejected");
        if (!same(s.before, s.after))
            ctx.fail(cat("rejected-cut-changed-space.", eg::kname(s.cut.kind)),
                cat("space changed although the answer was ", name(s.status)));
    }
    ctx.expect(s.status != CUTStatus::smallenough, "odd-status",
        "update answered smallenough");
    switch (s.e.verdict)
    {
        case Verdict::either: return;
        case Verdict::success:
            ctx.event("verdicts");
            ctx.expect(s.status == CUTStatus::success,
                cat("wrong-verdict.", eg::kname(s.cut.kind)),
                cat("expected success, got ", name(s.status)));
            return;
        case Verdict::nosoln:
            ctx.event("verdicts");
            ctx.expect(s.status == CUTStatus::nosoln,
                cat("wrong-verdict.", eg::kname(s.cut.kind)),
                cat("expected nosoln, got ", name(s.status)));
            return;
        case Verdict::noeffect:
            ctx.event("verdicts");
            ctx.expect(s.status == CUTStatus::noeffect,
                cat("wrong-verdict.", eg::kname(s.cut.kind)),
                cat("expected noeffect, got ", name(s.status)));
            return;
    }
}
} // namespace

VH_PROPERTY(C01)
{
    ctx.group("history", 1200, [&](Rng& r) {
        const int n = eg::dim(r);
        Rng r2(r.next());
        history<ell>(ctx, r, n, int(r.i(4, 14)), ALL,
            [&](const Step& s) { contain(ctx, r2, s); });
    });
    ctx.group("cutting", 800, [&](Rng& r) {
        const int n = eg::dim(r);
        Rng r2(r.next());
        history<ell>(ctx, r, n, int(r.i(2, 25)), CUTTING,
            [&](const Step& s) { contain(ctx, r2, s); });
    });
    ctx.group("sequential-ignored", 150, [&](Rng& r) {
        const int n = eg::dim(r);
        Rng r2(r.next());
        history<ell>(
            ctx, r, n, 6, CUTTING,
            [&](const Step& s) { contain(ctx, r2, s); }, false);
    });
    ctx.group("long", 40, [&](Rng& r) {
        const int n = int(r.i(2, 4));
        Rng r2(r.next());
        history<ell>(
            ctx, r, n, int(r.i(50, 600)), CUTTING, [&](const Step& s) { contain(ctx, r2, s); }, true, true);
    });
    ctx.group("large-n", 10, [&](Rng& r) {
        const int n = int(r.i(13, 36));
        Rng r2(r.next());
        history<ell>(ctx, r, n, 3, ALL,
            [&](const Step& s) { contain(ctx, r2, s); });
    });
    // a target point all cuts allow is never lost, over long histories
    ctx.group("target", 250, [&](Rng& r) {
        const int n = eg::dim(r);
        Start s0 = eg::start(r, n);
        auto S = s0.make<eg::Scaled<ell>>();
        std::vector<double> z; // inside the start ellipsoid
        la::Vec w(static_cast<size_t>(n));
        for (auto& v : w)
            v = r.normal();
        const LD wn = la::norm(w);
        const LD rad = std::pow(r.u(), 1. / n) * 0.999;
        for (int i = 0; i < n; ++i)
        {
            const double ax = std::sqrt(s0.scalar ? s0.alpha : s0.diag[size_t(i)]);
            z.push_back(double(s0.xc[size_t(i)] + ax * rad * w[size_t(i)] / wn));
        }
        std::string log = cat("start=", s0.str(), " target=", vh::vec(z));
        uint64_t fp = vh::hashs(log);
        for (int k = 0; k < 60; ++k)
        {
            std::vector<double> g = eg::gradient(r, n);
            const auto x = dvec(S.xc());
            LD gz = 0;
            for (int i = 0; i < n; ++i)
                gz += LD(g[size_t(i)]) * (LD(z[size_t(i)]) - x[size_t(i)]);
            const double tau = std::sqrt(tsq_of(S, arr(g)));
            if (!(tau > 1e-5))
                break;
            // faces on both sides of the target
            const double b0 = double(-gz) - tau * r.u(1e-6, 0.6);
            const double b1 = double(-gz) + tau * r.u(1e-6, 1.2);
            const bool par = r.chance(0.5);
            log += cat("\n g=", vh::vec(g), " b0=", b0,
                par ? cat(" b1=", b1) : std::string());
            ctx.scenario(log);
            CUTStatus st;
            if (par)
                st = std::get<0>(S.update(std::make_tuple(arr(g), Arr {b0, b1})));
            else
                st = std::get<0>(S.update(std::make_tuple(arr(g), b0)));
            ctx.expect(st != CUTStatus::nosoln, "target-denied",
                "answered nosoln although a point satisfies every cut");
            const State p = probe(S);
            la::Mat L;
            if (!finite(p) || !la::chol(p.P, L))
            {
                ctx.fail("degenerate", "space is not an ellipsoid any more");
                return;
            }
            la::Vec d(static_cast<size_t>(n));
            for (int i = 0; i < n; ++i)
                d[size_t(i)] = LD(z[size_t(i)]) - p.c[size_t(i)];
            const LD q = la::norm(la::fsub(L, d));
            const la::Vec ev = la::eig(p.P);
            const LD cond = ev.back() / ev.front();
            if (cond > 1e7L)
                break;
            ctx.event("target-steps");
            fp = vh::hashd(fp, double(q));
            if (!(q * q <= 1 + 1e-6L))
            {
                ctx.fail("lost-target", cat("target at squared distance ", double(q * q)));
                return;
            }
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
}

VH_PROPERTY(C02)
{
    ctx.group("selfcheck", 200, [&](Rng& r) {
        // the reference formula against an independent 1-D minimization
        const int n = eg::dim(r);
        LD l = -r.u(-0.9, 1.), h = r.u(-0.95, 1.);
        if (r.chance(0.3))
            l = -1;
        if (l > h)
            std::swap(l, h);
        if (h - l < 1e-3L)
            throw vh::Skip {};
        const MinEll m = min_ellipsoid(n, l, h);
        const LD s = search_logvol(n, l, h);
        if (!(std::fabs(logvol(n, m.R, m.invk) - s) < 1e-9L))
        {
            std::fprintf(stderr, "reference model is wrong\n");
            std::exit(3);
        }
    });
    ctx.group("history", 1200, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell>(ctx, r, n, int(r.i(4, 14)), ALL,
            [&](const Step& s) { minimal(ctx, s); });
    });
    ctx.group("cutting", 800, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell>(ctx, r, n, int(r.i(2, 25)), CUTTING,
            [&](const Step& s) { minimal(ctx, s); });
    });
    ctx.group("long", 40, [&](Rng& r) {
        const int n = int(r.i(2, 4));
        history<ell>(
            ctx, r, n, int(r.i(50, 600)), CUTTING, [&](const Step& s) { minimal(ctx, s); }, true, true);
    });
    ctx.group("large-n", 12, [&](Rng& r) {
        const int n = int(r.i(20, 36));
        history<ell>(ctx, r, n, 3, CUTTING,
            [&](const Step& s) { minimal(ctx, s); });
    });
    ctx.group("sequential", 150, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell>(
            ctx, r, n, 6, CUTTING, [&](const Step& s) { minimal(ctx, s); },
            false);
    });
    // two central faces: the flattest slab of all stays finite
    ctx.group("flat", 100, [&](Rng& r) {
        const int n = eg::dim(r);
        const Start s0 = eg::start(r, n);
        auto S = s0.make<eg::Scaled<ell>>();
        const State b = probe(S);
        const Cut c = eg::cut(
            r, n, [&](const Arr& g) { return std::sqrt(tsq_of(S, g)); },
            {eg::par_flat0});
        ctx.scenario(cat(s0.str(), c.str()));
        const auto [st, tsq] = eg::apply(S, c);
        const State a = probe(S);
        la::Mat L;
        la::chol(b.P, L);
        if (st != CUTStatus::success)
            return;
        if (!finite(a))
        {
            ctx.fail("not-finite", "flat slab through the centre");
            return;
        }
        const LD zero = 0;
        const Expect e = expect_cut(b, eg::lvec(c.g), 0, &zero);
        const Dist d = distance(L, a, e.next);
        ctx.expect(d.centre < 1e-8L && d.shape < 1e-8L, "not-minimal.par_flat0",
            cat("centre ", double(d.centre), " shape ", double(d.shape)));
        ctx.nontrivial(vh::hashs(c.str()));
    });
}

VH_PROPERTY(C03)
{
    ctx.group("history", 1200, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell>(ctx, r, n, int(r.i(4, 14)), ALL,
            [&](const Step& s) { verdict(ctx, s); });
    });
    ctx.group("long", 30, [&](Rng& r) {
        const int n = int(r.i(2, 4));
        history<ell>(
            ctx, r, n, int(r.i(50, 600)), ALL, [&](const Step& s) { verdict(ctx, s); }, true, true);
    });
    const std::vector<int> rej = {eg::empty1, eg::noeffect1, eg::par_crossed,
        eg::par_noeffect, eg::deep, eg::shallow, eg::par_sym, eg::par_shallow};
    ctx.group("rejecting", 800, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell>(ctx, r, n, int(r.i(4, 16)), rej,
            [&](const Step& s) { verdict(ctx, s); });
    });
    ctx.group("stable", 700, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell_stable>(ctx, r, n, int(r.i(4, 12)), ALL,
            [&](const Step& s) { verdict(ctx, s); });
    });
    ctx.group("sequential", 200, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell>(
            ctx, r, n, 6, ALL, [&](const Step& s) { verdict(ctx, s); }, false);
    });
    ctx.group("large-n", 12, [&](Rng& r) {
        const int n = int(r.i(13, 36));
        if (r.chance(0.5))
            history<ell>(ctx, r, n, 3, ALL,
                [&](const Step& s) { verdict(ctx, s); });
        else
            history<ell_stable>(ctx, r, n, 3, ALL,
                [&](const Step& s) { verdict(ctx, s); });
    });
}

VH_PROPERTY(C04)
{
    // constructors, set_xc
    ctx.group("construct", 600, [&](Rng& r) {
        const int n = eg::dim(r);
        const Start s = eg::start(r, n);
        ctx.scenario(s.str());
        auto check = [&](const auto& S, const char* what) {
            const State p = probe(S);
            for (int i = 0; i < n; ++i)
            {
                ctx.expect(p.c[size_t(i)] == LD(s.xc[size_t(i)]), "construct",
                    cat(what, ": centre ", i));
                for (int j = 0; j < n; ++j)
                {
                    const LD want = i != j
                        ? 0
                        : LD(s.scalar ? s.alpha : s.diag[size_t(i)]);
                    ctx.expect(std::fabs(p.P(i, j) - want) <=
                            1e-13L * (1 + std::fabs(p.P(i, i))),
                        "construct", cat(what, ": shape ", i, ",", j));
                }
            }
        };
        auto S = s.make<eg::Scaled<ell>>();
        check(S, "ell");
        auto T = s.make<eg::Scaled<ell_stable>>();
        check(T, "ell_stable");
        const auto S2 = S.copy();
        check(S2, "copy");
        // moving the centre moves nothing else
        std::vector<double> y;
        for (int i = 0; i < n; ++i)
            y.push_back(r.normal());
        const State b = probe(S);
        S.set_xc(arr(y));
        const State a = probe(S);
        ctx.expect(a.P.a == b.P.a, "set_xc", "shape changed");
        for (int i = 0; i < n; ++i)
            ctx.expect(a.c[size_t(i)] == LD(y[size_t(i)]), "set_xc", "centre");
        check(S2, "copy after set_xc on the original");
        auto M = eg::Scaled<ell>(std::move(S));
        ctx.expect(same(probe(M), a), "move", "moved space differs");
        ctx.nontrivial(vh::hashs(s.str()));
        ctx.sample(s.str());
        ctx.event("constructions");
    });
    // tau^2 = g'Pg before the cut; P symmetric (by prediction of other g)
    ctx.group("tausq", 700, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell>(ctx, r, n, int(r.i(4, 14)), ALL, [&](const Step& s) {
            const LD q = la::quad(s.before.P, eg::lvec(s.cut.g));
            ctx.event("tausq");
            ctx.expect(std::fabs(q - s.tsq) <=
                    (1e-11L + 1e-14L * s.cond) * std::fabs(q) &&
                    s.tsq > 0,
                "tausq", cat("reported ", s.tsq, " but g'Pg = ", double(q)));
        });
    });
    ctx.group("tausq-stable", 400, [&](Rng& r) {
        const int n = eg::dim(r);
        history<ell_stable>(ctx, r, n, int(r.i(4, 14)), ALL, [&](const Step& s) {
            const LD q = la::quad(s.before.P, eg::lvec(s.cut.g));
            ctx.event("tausq");
            ctx.expect(std::fabs(q - s.tsq) <=
                    (1e-10L + 1e-13L * s.cond) * std::fabs(q) &&
                    s.tsq > 0,
                "tausq", cat("reported ", s.tsq, " but g'Pg = ", double(q)));
        });
    });
    ctx.group("tausq-large", 10, [&](Rng& r) {
        const int n = int(r.i(13, 36));
        auto look = [&](const Step& s) {
            const LD q = la::quad(s.before.P, eg::lvec(s.cut.g));
            ctx.event("tausq");
            ctx.expect(std::fabs(q - s.tsq) <=
                    (1e-10L + 1e-13L * s.cond) * std::fabs(q) &&
                    s.tsq > 0,
                "tausq", cat("reported ", s.tsq, " but g'Pg = ", double(q)));
        };
        if (r.chance(0.5))
            history<ell>(ctx, r, n, 3, ALL, look);
        else
            history<ell_stable>(ctx, r, n, 3, ALL, look);
    });
    // several spaces fed the same cuts
    ctx.group("options", 700, [&](Rng& r) {
        const int n = eg::dim(r);
        const Start s0 = eg::start(r, n);
        auto A = s0.make<eg::Scaled<ell>>(); // plain
        auto B = s0.make<eg::Scaled<ell>>(); // no deferred scaling
        B.no_defer_trick = true;
        auto C = s0.make<eg::Scaled<ell>>(); // faces one by one
        C.use_parallel_cut = false;
        auto D = s0.make<eg::Scaled<ell>>(); // the first face as a number
        std::string log = s0.str();
        uint64_t fp = vh::hashs(log);
        bool cd = true;
        for (int k = 0; k < 10; ++k)
        {
            const State pa = probe(A);
            la::Mat L;
            if (!la::chol(pa.P, L))
                return;
            const la::Vec ev = la::eig(pa.P);
            const LD cond = ev.back() / ev.front();
            if (cond > 1e5L || ev.front() < 1e-6L)
                break;
            const Cut c = eg::cut(
                r, n, [&](const Arr& g) { return std::sqrt(tsq_of(A, g)); },
                ALL, 0.8);
            log += "\n" + c.str();
            ctx.scenario(log);
            const LD b1 = c.b1;
            const Expect e =
                expect_cut(pa, eg::lvec(c.g), c.b0, c.par ? &b1 : nullptr, 1e-6L);
            const auto ra = eg::apply(A, c);
            const auto rb = eg::apply(B, c);
            const bool tie = e.verdict == Verdict::either &&
                std::get<0>(ra) != std::get<0>(rb);
            if (tie)
                break;
            const State qa = probe(A), qb = probe(B);
            ctx.event("defer-steps");
            ctx.expect(std::get<0>(ra) == std::get<0>(rb), "no_defer_trick",
                "different verdict without deferred scaling");
            const Dist d = distance(L, qa, qb);
            ctx.expect(d.centre < 1e-7L && d.shape < 1e-7L, "no_defer_trick",
                cat("represented ellipsoids differ by ", double(d.centre), " ",
                    double(d.shape)));
            fp = vh::hashd(fp, std::get<1>(ra));
            if (cd)
            {
                // C gets the two-faced (or 1-element) form, D the plain number
                const State pc = probe(C);
                la::Mat Lc;
                if (!la::chol(pc.P, Lc))
                    return;
                const la::Vec ec = la::eig(pc.P);
                if (ec.back() / ec.front() > 1e5L || ec.front() < 1e-6L)
                {
                    cd = false;
                    continue;
                }
                const auto rc = C.update(std::make_tuple(arr(c.g),
                    c.par ? Arr {c.b0, c.b1} : Arr {c.b0}));
                const auto rd = D.update(std::make_tuple(arr(c.g), c.b0));
                ctx.event("sequential-steps");
                ctx.expect(std::get<0>(rc) == std::get<0>(rd), "use_parallel_cut",
                    cat("array form answered ", name(std::get<0>(rc)),
                        ", plain number ", name(std::get<0>(rd))));
                const Dist d2 = distance(Lc, probe(C), probe(D));
                ctx.expect(d2.centre < 1e-7L && d2.shape < 1e-7L,
                    "use_parallel_cut",
                    cat("array form and plain number differ by ",
                        double(d2.centre), " ", double(d2.shape)));
            }
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
    // copies evolve independently, and like their original would
    ctx.group("copies", 400, [&](Rng& r) {
        auto body = [&](auto tag) {
            using Space = decltype(tag);
            const int n = eg::dim(r);
            const Start s0 = eg::start(r, n);
            auto A = s0.template make<eg::Scaled<Space>>();
            A.use_parallel_cut = r.chance(0.7);
            A.no_defer_trick = r.chance(0.5);
            std::string log = s0.str();
            auto tau = [&](const Arr& g) { return std::sqrt(tsq_of(A, g)); };
            for (int k = 0; k < 3; ++k)
                eg::apply(A, eg::cut(r, n, tau, CUTTING, 0.8));
            auto B = A.copy();
            ctx.scenario(log);
            ctx.expect(same(probe(A), probe(B)), "copy", "copy differs");
            ctx.expect(A.use_parallel_cut == B.use_parallel_cut &&
                    A.no_defer_trick == B.no_defer_trick,
                "copy", "copy has other options");
            std::vector<Cut> cs;
            for (int k = 0; k < 3; ++k)
                cs.push_back(eg::cut(r, n, tau, CUTTING, 0.6));
            const State a0 = probe(A);
            std::vector<State> pb;
            std::vector<double> tb;
            for (auto& c : cs)
            {
                tb.push_back(std::get<1>(eg::apply(B, c)));
                pb.push_back(probe(B));
            }
            ctx.expect(same(probe(A), a0), "copy", "updating the copy changed the original");
            const State b1 = probe(B);
            for (size_t k = 0; k < cs.size(); ++k)
            {
                const double ta = std::get<1>(eg::apply(A, cs[k]));
                ctx.expect(ta == tb[k] && same(probe(A), pb[k]), "copy",
                    "original and copy evolve differently under the same cuts");
            }
            ctx.expect(same(probe(B), b1), "copy", "updating the original changed the copy");
            ctx.event("copies");
            ctx.nontrivial(vh::hashd(vh::hashs(log), tb.back()));
        };
        if (r.chance(0.5))
            body(ell(1., Arr {0., 0.}));
        else
            body(ell_stable(1., Arr {0., 0.}));
    });
}

// C05.  Known finding: the stable space drops the off-diagonal part of its
// factors.  `Legacy` is a model of exactly that behaviour; a step that differs
// from the correct one but is precisely this one is reported under its own key.
namespace
{
struct Legacy
{
    std::vector<LD> d; // shape is kappa*diag(d)
    LD kappa = 1;
    explicit Legacy(const Start& s)
    {
        const size_t n = s.xc.size();
        d.assign(n, 1.L);
        if (s.scalar)
            kappa = s.alpha;
        else
            d.assign(s.diag.begin(), s.diag.end());
    }
    State step(const State& st, const la::Vec& g, const MinEll& me)
    {
        const int n = st.n;
        State s = st;
        const LD sigma = 1 - me.invk;
        LD omega = 0;
        la::Vec Qg(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
        {
            Qg[size_t(i)] = d[size_t(i)] * g[size_t(i)];
            omega += Qg[size_t(i)] * g[size_t(i)];
        }
        const la::Vec dg = Qg;
        for (int i = n - 1; i > 0; --i)
            Qg[size_t(i) - 1] -= d[size_t(i)] * Qg[size_t(i)];
        const LD tau = std::sqrt(kappa * omega);
        for (int i = 0; i < n; ++i)
            s.c[size_t(i)] += me.s0 * tau / omega * Qg[size_t(i)];
        LD t0 = (1 - sigma) * omega;
        for (int i = 0; i < n; ++i)
        {
            const LD t = t0 + sigma * dg[size_t(i)] * g[size_t(i)];
            d[size_t(i)] *= t0 / t;
            t0 = t;
        }
        kappa *= me.R;
        s.P = la::Mat(n, n);
        for (int i = 0; i < n; ++i)
            s.P(i, i) = kappa * d[size_t(i)];
        return s;
    }
};

void stable_history(Ctx& ctx, Rng& r, int n, int steps, const std::vector<int>& kinds)
{
    const Start s0 = eg::start(r, n);
    auto S = s0.make<eg::Scaled<ell_stable>>();
    Legacy leg(s0);
    std::string log = cat("n=", n, " start=", s0.str());
    State st = probe(S);
    uint64_t fp = vh::hashs(log);
    bool legacy_ok = true; // so far the space is where the legacy model is
    for (int k = 0; k < steps; ++k)
    {
        la::Mat L;
        if (!finite(st) || !la::chol(st.P, L))
        {
            ctx.fail("stable-not-positive-definite", cat("before step ", k));
            return;
        }
        const la::Vec ev = la::eig(st.P);
        const LD cond = ev.back() / ev.front();
        const LD xcn = la::norm(st.c);
        if (cond > 1e6L || ev.front() < 1e-9L * (1 + xcn * xcn))
            break;
        const Cut c = eg::cut(
            r, n, [&](const Arr& g) { return std::sqrt(tsq_of(S, g)); }, kinds);
        log += cat("\n", c.str());
        ctx.scenario(log);
        const LD b1 = c.b1;
        const la::Vec g = eg::lvec(c.g);
        const Expect e = expect_cut(st, g, c.b0, c.par ? &b1 : nullptr);
        const LD want_tsq = la::quad(st.P, g);
        const auto [status, tsq] = eg::apply(S, c);
        const State after = probe(S);
        ctx.event(cat("cut.", eg::kname(c.kind), ".", name(status)));
        fp = vh::hashd(fp, tsq);
        ctx.expect(std::fabs(want_tsq - tsq) <= (1e-10L + 1e-13L * cond) * want_tsq,
            "stable-tausq", cat("reported ", tsq, " want ", double(want_tsq)));
        const bool rejected = status != CUTStatus::success;
        if (e.verdict != Verdict::either)
        {
            const bool ok = (e.verdict == Verdict::success && !rejected) ||
                (e.verdict == Verdict::nosoln && status == CUTStatus::nosoln) ||
                (e.verdict == Verdict::noeffect && status == CUTStatus::noeffect);
            ctx.expect(ok, cat("stable-verdict.", eg::kname(c.kind)),
                cat("answered ", name(status)));
        }
        if (rejected)
        {
            ctx.expect(same(st, after), "stable-rejected-changed",
                "a rejected cut changed the space");
            continue;
        }
        if (e.verdict == Verdict::either || !e.check_min)
            break; // not predicted
        if (!finite(after))
        {
            ctx.fail("stable-not-finite", "non-finite after an accepted cut");
            return;
        }
        const LD tol = 1e-9L + 1e-12L * cond +
            1e-13L * xcn / std::sqrt(ev.front());
        const Dist d = distance(L, after, e.next);
        const bool right = d.centre <= tol && d.shape <= tol;
        Dist dl {1e30L, 1e30L};
        if (legacy_ok)
        {
            const State want = leg.step(st, g, e.me);
            dl = distance(L, after, want);
            // (the diagonal-only centre step can be huge in this metric)
            legacy_ok = dl.centre <= tol * (1 + d.centre) && dl.shape <= tol;
        }
        if (right)
            ctx.event("steps.right");
        else if (legacy_ok)
        {
            ctx.event("steps.legacy");
            ctx.fail("stable-drops-off-diagonal",
                cat("update differs from the ordinary space: centre ",
                    double(d.centre), " shape ", double(d.shape),
                    " (exactly the diagonal-only step)"));
        }
        else
        {
            ctx.fail(cat("stable-update.", eg::kname(c.kind)),
                cat("update is neither the ordinary space's (centre ",
                    double(d.centre), " shape ", double(d.shape),
                    ") nor the known diagonal-only one (centre ",
                    double(dl.centre), " shape ", double(dl.shape), ")"));
            return;
        }
        st = after;
    }
    ctx.nontrivial(fp);
    ctx.sample(log);
}
} // namespace

VH_PROPERTY(C05)
{
    ctx.group("history", 1200, [&](Rng& r) {
        stable_history(ctx, r, eg::dim(r), int(r.i(2, 14)), ALL);
    });
    ctx.group("large-n", 12, [&](Rng& r) {
        stable_history(ctx, r, int(r.i(13, 36)), 3, r.chance(0.5) ? ALL : SINGLE);
    });
    ctx.group("single", 800, [&](Rng& r) {
        stable_history(ctx, r, eg::dim(r), int(r.i(2, 20)), SINGLE);
    });
    // stays symmetric positive definite over very long histories
    ctx.group("long", 60, [&](Rng& r) {
        const int n = int(r.i(2, 5));
        const Start s0 = eg::start(r, n);
        auto S = s0.make<eg::Scaled<ell_stable>>();
        ctx.scenario(s0.str());
        uint64_t fp = vh::hashs(s0.str());
        for (int k = 0; k < 200; ++k)
        {
            const Cut c = eg::cut(
                r, n, [&](const Arr& g) { return std::sqrt(tsq_of(S, g)); },
                {eg::central, eg::deep, eg::shallow, eg::par_shallow,
                    eg::par_central}, 0.5);
            const auto [st, tsq] = eg::apply(S, c);
            fp = vh::hashd(fp, tsq);
            ctx.event("long-steps");
            if (!ctx.expect(std::isfinite(tsq) && tsq > 0, "stable-not-positive-definite",
                    cat("tau^2 = ", tsq, " after ", k, " steps")))
                return;
            if (tsq < 1e-200)
                break;
        }
        ctx.nontrivial(fp);
    });
}
