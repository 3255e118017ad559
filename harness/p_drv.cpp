// C06: ell1d.  C07-C09: cutting-plane drivers.  C10, C11: bisection.
#include "ellgen.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <py2cpp/fractions.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <memory>
#include <optional>

using er::Arr;
using er::arr;
using er::dvec;
using vh::cat;
using vh::Ctx;
using vh::LD;
using vh::Rng;

// ---------------------------------------------------------------- C06
namespace
{
// other units: powers of two, so that nothing but magnitudes changes
double unit(Rng& r, int lim = 100)
{
    if (!r.chance(0.3))
        return 1;
    return std::ldexp(1., int(r.chance(0.5) ? r.i(-20, 20) : r.i(-lim, lim)));
}
struct Iv
{
    LD xc, r;
    LD lo() const { return xc - r; }
    LD hi() const { return xc + r; }
};
Iv probe1(const ell1d& S)
{
    ell1d T(S);
    const auto [st, tsq] = T.update(std::make_tuple(1., 1e300));
    (void)st;
    return {S.xc(), std::sqrt(LD(tsq))};
}
} // namespace

VH_PROPERTY(C06)
{
    auto step = [&](ell1d& S, Iv b, double g, double beta, bool exact) {
        const auto [st, tsq] = S.update(std::make_tuple(g, beta));
        const Iv a = probe1(S);
        const LD tau = std::fabs(b.r * g);
        const LD eps = exact ? 0 : 1e-12L * (std::fabs(b.xc) + b.r);
        ctx.expect(std::fabs(tsq - tau * tau) <= 1e-12L * tau * tau, "tausq",
            cat("reported ", tsq, " want ", double(tau * tau)));
        ctx.event(cat("status.", er::name(st)));
        if (!exact && std::fabs(std::fabs(LD(beta)) - tau) < 1e-9L * tau)
            return st; // a tie
        if (LD(beta) > tau)
        {
            ctx.expect(st == CUTStatus::nosoln, "verdict", "a cut that leaves nothing");
            ctx.expect(a.xc == b.xc && a.r == b.r, "rejected-changed", "nosoln");
            return st;
        }
        if (LD(beta) < -tau)
        {
            ctx.expect(st == CUTStatus::noeffect, "verdict", "a cut that removes nothing");
            ctx.expect(a.xc == b.xc && a.r == b.r, "rejected-changed", "noeffect");
            return st;
        }
        if (!(LD(beta) == -tau && st == CUTStatus::noeffect))
            ctx.expect(st == CUTStatus::success, "verdict", "a proper cut");
        const LD x0 = b.xc - LD(beta) / g;
        const LD lo = g > 0 ? b.lo() : std::max(b.lo(), x0);
        const LD hi = g > 0 ? std::min(b.hi(), x0) : b.hi();
        // the half-width is seen through a square: allow its rounding
        const LD er_ = exact ? 1e-15L * (b.r + std::fabs(b.xc)) : eps;
        ctx.expect(std::fabs(a.lo() - lo) <= er_ && std::fabs(a.hi() - hi) <= er_,
            "interval", cat("got [", double(a.lo()), ",", double(a.hi()), "] want [",
                double(lo), ",", double(hi), "]"));
        return st;
    };
    ctx.group("history", 4000, [&](Rng& r) {
        const double lu = unit(r), gu = unit(r);
        double l = r.u(-20, 20), u = l + r.logu(1e-3, 1e3);
        l *= lu;
        u *= lu;
        ell1d S(l, u);
        std::string log = cat("[", l, ",", u, "]");
        ctx.scenario(log);
        const Iv i0 = probe1(S);
        ctx.expect(std::fabs(i0.lo() - l) < 1e-12L * (std::fabs(l) + u - l) &&
                std::fabs(i0.hi() - u) < 1e-12L * (std::fabs(u) + u - l),
            "construct", "interval differs from the bounds given");
        uint64_t fp = vh::hashs(log);
        const int steps = int(r.i(1, 25));
        for (int k = 0; k < steps; ++k)
        {
            const Iv b = probe1(S);
            if (b.r < 1e-9L * (lu + std::fabs(b.xc)))
                break;
            double g = r.chance(0.3) ? double(r.i(1, 3)) : r.logu(1e-3, 1e3);
            g *= r.chance(0.1) ? unit(r) : gu;
            if (r.chance(0.5))
                g = -g;
            const double tau = double(std::fabs(b.r * g));
            const double a = r.chance(0.2) ? 0.
                : r.chance(0.6)            ? r.u(-0.99, 0.99)
                                           : r.u(-2.5, 2.5);
            const double beta = a * tau;
            log += cat("\n g=", g, " beta=", beta);
            ctx.scenario(log);
            // copies: the same cut on a copy first, then on the original
            ell1d C(S);
            const auto [cs, ct] = C.update(std::make_tuple(g, beta));
            const Iv s0 = probe1(S);
            ctx.expect(s0.xc == b.xc && s0.r == b.r, "copy", "updating a copy changed the original");
            const auto st = step(S, b, g, beta, false);
            const Iv ca = probe1(C), sa = probe1(S);
            ctx.expect(cs == st && ca.xc == sa.xc && ca.r == sa.r, "copy",
                "a copy answers differently");
            fp = vh::hashd(fp, double(sa.xc));
            if (r.chance(0.05))
            {
                const double y = r.chance(0.2) ? 0. : r.u(-5, 5) * lu;
                S.set_xc(y);
                const Iv m = probe1(S);
                ctx.expect(m.xc == y && m.r == sa.r, "set_xc", "centre or width");
                ctx.expect(probe1(C).xc == sa.xc, "copy", "set_xc reached the copy");
            }
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
    ctx.group("dyadic", 2000, [&](Rng& r) {
        const double lu = unit(r), gu = unit(r);
        const double l = double(r.i(-64, 64)) * lu, u = l + double(r.chance(0.1) ? 0 : r.i(1, 64)) * 2 * lu;
        ell1d S(l, u);
        std::string log = cat("[", l, ",", u, "]");
        uint64_t fp = vh::hashs(log);
        for (int k = 0; k < 6; ++k)
        {
            const Iv b = probe1(S);
            double g = double(int64_t(1) << r.i(0, 3)) * gu;
            if (r.chance(0.5))
                g = -g;
            if (b.r == 0)
            { // down to a point: cuts through it, before it and beyond it
                ctx.event("point");
                step(S, b, g, double(r.i(-1, 1)) * gu, true);
                continue;
            }
            // eighths of tau, the exact ends included
            const double beta = double(std::fabs(b.r * g)) * double(r.i(-10, 10)) / 8;
            log += cat("\n g=", g, " beta=", beta);
            ctx.scenario(log);
            step(S, b, g, beta, true);
            fp = vh::hashd(fp, S.xc());
        }
        ctx.nontrivial(fp);
    });
    ctx.group("target", 1500, [&](Rng& r) {
        const double lu = unit(r), gu = unit(r);
        const double l = r.u(-20, 20) * lu, u = l + r.u(0.1, 50) * lu;
        const double z = r.u(l, u);
        ell1d S(l, u);
        std::string log = cat("[", l, ",", u, "] target ", z);
        for (int k = 0; k < 40; ++k)
        {
            const Iv b = probe1(S);
            if (b.r < 1e-8L * lu)
                break;
            double g = gu * r.logu(1e-2, 1e2) * (r.chance(0.5) ? 1 : -1);
            const double lim = -g * (z - S.xc());
            const double beta = lim - std::fabs(g) * double(b.r) * r.u(1e-3, 0.5);
            log += cat("\n g=", g, " beta=", beta);
            ctx.scenario(log);
            const auto [st, tsq] = S.update(std::make_tuple(g, beta));
            (void)tsq;
            ctx.expect(st != CUTStatus::nosoln, "target-denied", "the target satisfies the cut");
            const Iv a = probe1(S);
            ctx.event("target-steps");
            if (!ctx.expect(a.lo() <= z + 1e-10L * lu && z - 1e-10L * lu <= a.hi(), "lost-target",
                    cat("[", double(a.lo()), ",", double(a.hi()), "]")))
                return;
        }
        ctx.nontrivial(vh::hashs(log));
    });
}

// ---------------------------------------------------------------- mocks
namespace
{
struct Tok
{
    long id = -7;
};
struct Answer // one scripted iteration
{
    bool accept = false; // feas: no cut
    bool shrunk = false;
    bool more_alt = false;
    double t = 0; // target value set when shrunk
    CUTStatus status = CUTStatus::success;
    double tsq = 1;
};
struct MockCut
{
    long id = 0;
};
struct Tape
{
    std::vector<Answer> script;
    // what happened
    struct Ev
    {
        char what; // 'q' query, 'u' update, 'U' oracle.update(t), 's' set_xc, 'c' copy
        long space = 0;
        long tok = 0;
        long cut = 0;
        double t = 0;
        bool retry = false;
    };
    std::vector<Ev> ev;
    long queries = 0, updates = 0, nextTok = 100, nextSpace = 0, cap = 0;
    std::vector<double> targets; // value of t at each query
    const Answer& at(long k)
    {
        if (k > cap || size_t(k) > script.size())
            throw vh::Overrun(cat("query/update number ", k, " beyond the limit ", cap));
        return script[size_t(k) - 1];
    }
};
struct MockSpace
{
    Tape* tape;
    long space;
    long tok;
    explicit MockSpace(Tape* t)
        : tape {t}
        , space {t->nextSpace++}
        , tok {t->nextTok++}
    {
    }
    MockSpace(MockSpace&&) = default;
    [[nodiscard]] MockSpace copy() const
    {
        MockSpace s(tape);
        s.tok = tok;
        tape->ev.push_back({'c', s.space, tok});
        return s;
    }
    [[nodiscard]] Tok xc() const
    {
        return Tok {tok};
    }
    void set_xc(const Tok& t)
    {
        tape->ev.push_back({'s', space, t.id});
        tok = t.id;
    }
    std::tuple<CUTStatus, double> update(const MockCut& c)
    {
        ++tape->updates;
        tape->ev.push_back({'u', space, tok, c.id});
        const Answer& a = tape->at(tape->queries);
        if (a.status == CUTStatus::success)
            tok = tape->nextTok++;
        return {a.status, a.tsq};
    }

  private:
    MockSpace(const MockSpace&) = default;
};

double pick_tsq(Rng& r, double tol)
{
    const double u = r.u();
    if (u < 0.10)
        return tol; // not below
    if (u < 0.18)
        return tol * 0.999;
    if (u < 0.22)
        return 0;
    if (u < 0.25)
        return std::max(tol * 2, r.logu(1e-300, 1e300));
    return tol * r.logu(1.01, 1e6) + 1e-12 * r.u(0, 1);
}
// a lower target, by much or by next to nothing
double better(Rng& r, double t, double tu, bool maximize, bool whole)
{
    if (maximize)
        return -better(r, -t, tu, false, whole);
    const double u = r.u();
    if (whole)
        return t - double(r.i(1, u < 0.5 ? 1 : 1000));
    if (u < 0.1)
        return std::nextafter(t, -1e300);
    if (u < 0.2)
        return t - std::fabs(t) * r.logu(1e-15, 1e-3) - 1e-300;
    return t - r.u(0.1, 2) * tu;
}
// targets of other types: whole numbers beyond what a double can tell apart
// (the scripts and recorded events hold their distance from a base)
constexpr long long BASE = (1LL << 60) + 1;
template <typename T>
T as_target(double t)
{
    if constexpr (std::is_integral<T>::value)
        return BASE + static_cast<long long>(t);
    else
        return T(t);
}
template <typename T>
double from_target(T t)
{
    if constexpr (std::is_integral<T>::value)
        return double(t - BASE);
    else
        return double(t);
}
// at times the search space reports the same tau^2 for long, or ever more, or
// hardly less: the answers that would end the run early are taken out, too
void steady(Rng& r, std::vector<Answer>& script, double tol)
{
    const bool lengthy = script.size() > 400;
    if (!lengthy && !r.chance(0.15))
        return;
    const double f = r.chance(0.4) ? 1. : r.chance(0.5) ? 1. + r.logu(1e-12, 1.) : 1. - r.logu(1e-12, 1e-3);
    double v = tol * r.logu(1.5, 100.) + 1e-250;
    const bool keep = !lengthy && r.chance(0.3);
    for (auto& a : script)
    {
        a.tsq = std::max(v, tol);
        v *= f;
        if (!keep && r.chance(lengthy ? 0.9999 : 0.95))
        {
            a.accept = false;
            if (a.status == CUTStatus::nosoln)
                a.status = CUTStatus::success;
        }
    }
}
Options pick_opt(Rng& r)
{
    Options o;
    const double u = r.u();
    o.max_it = u < 0.08 ? 0 : u < 0.16 ? 1 : u < 0.24 ? 2 : u < 0.97 ? unsigned(r.i(3, 40)) : u < 0.999 ? unsigned(r.i(40, 400)) : unsigned(r.i(400, 6000));
    o.tol = r.chance(0.1) ? 0. : r.chance(0.3) ? 1e-8 : r.chance(0.2) ? r.logu(1e-200, 1e200) : r.logu(1e-6, 10);
    return o;
}
} // namespace

// ---------------------------------------------------------------- C07
namespace
{
std::string script_str(const Tape& t, const Options& o)
{
    std::string s = cat("max_it=", o.max_it, " tol=", o.tol, " script:");
    for (size_t k = 0; k < t.script.size() && k < 45; ++k)
    {
        const auto& a = t.script[k];
        s += cat(" (", a.accept ? "accept " : "", a.shrunk ? "shrunk " : "",
            a.more_alt ? "more " : "", er::name(a.status), ",", a.tsq, ")");
    }
    return s;
}
CUTStatus pick_status(Rng& r, double p_stop)
{
    if (r.chance(p_stop))
        return r.chance(0.5) ? CUTStatus::nosoln : CUTStatus::noeffect;
    return CUTStatus::success;
}

// feasible set: a polytope containing the ball B(z, rad)
struct Poly
{
    std::vector<std::vector<double>> a;
    std::vector<double> b;
    bool deep = true;
    bool rotate = false; // start scanning where the last violation was
    size_t from = 0;
    long calls = 0;
    std::optional<std::tuple<Arr, double>> operator()(const Arr& x)
    {
        ++calls;
        for (size_t q = 0; q < a.size(); ++q)
        {
            const size_t k = (q + (rotate ? from : 0)) % a.size();
            double v = -b[k];
            for (size_t i = 0; i < a[k].size(); ++i)
                v += a[k][i] * x(i);
            if (v > 0)
            {
                from = k + 1;
                return std::make_tuple(arr(a[k]), deep ? v : 0.);
            }
        }
        return {};
    }
};
} // namespace

VH_PROPERTY(C07)
{
    ctx.group("scripted", 20000, [&](Rng& r) {
        Tape tape;
        const Options o = pick_opt(r);
        const double pa = r.chance(0.3) ? 0.02 : r.chance(0.5) ? 0.15 : 0.;
        const double ps = r.chance(0.3) ? 0.2 : r.chance(0.5) ? 0.03 : 0.;
        for (unsigned k = 0; k < o.max_it; ++k)
        {
            Answer a;
            a.accept = r.chance(pa);
            a.status = pick_status(r, ps);
            a.tsq = pick_tsq(r, o.tol);
            tape.script.push_back(a);
        }
        steady(r, tape.script, o.tol);
        tape.cap = long(o.max_it);
        ctx.scenario(script_str(tape, o));
        MockSpace S(&tape);
        const long s0 = S.space;
        long expect_tok = S.tok;
        long cut_id = 5000;
        auto oracle = [&](const Tok& x) -> std::optional<MockCut> {
            const Answer& a = tape.at(++tape.queries);
            tape.ev.push_back({'q', s0, x.id});
            if (a.accept)
                return {};
            return MockCut {++cut_id};
        };
        CInfo info;
        const bool deflt = o.max_it >= 2000;
        (void)deflt;
        info = cutting_plane_feas(oracle, S, o);
        // what the contract says
        bool feas = false;
        CUTStatus want = CUTStatus::success;
        long k = 0;
        bool stopped = false;
        while (k + 1 < long(o.max_it))
        {
            const Answer& a = tape.script[size_t(k)];
            ++k;
            if (a.accept)
            {
                feas = stopped = true;
                break;
            }
            if (a.status != CUTStatus::success)
            {
                want = a.status;
                stopped = true;
                break;
            }
            if (a.tsq < o.tol)
            {
                want = CUTStatus::smallenough;
                stopped = true;
                break;
            }
        }
        ctx.expect(info.feasible == feas, "feasible", cat("reported ", info.feasible, " want ", feas));
        ctx.expect(info.status == want, "status", cat("reported ", er::name(info.status), " want ", er::name(want)));
        ctx.expect(tape.queries == k, "queries", cat(tape.queries, " oracle calls, want ", k));
        ctx.expect(tape.updates == k - (feas ? 1 : 0), "updates", cat(tape.updates));
        if (o.max_it > 0)
            ctx.expect(long(info.num_iters) == (stopped ? k : long(o.max_it)), "num_iters",
                cat("reported ", info.num_iters, " stopped at ", stopped ? k : long(o.max_it)));
        // the trace: query at the centre, then exactly that cut
        long cut = 5000;
        size_t e = 0;
        for (long q = 1; q <= tape.queries; ++q)
        {
            if (!ctx.expect(e < tape.ev.size() && tape.ev[e].what == 'q' && tape.ev[e].tok == expect_tok,
                    "trace.query", cat("query ", q, " is not at the current centre")))
                return;
            ++e;
            if (tape.script[size_t(q) - 1].accept)
                break;
            ++cut;
            if (!ctx.expect(e < tape.ev.size() && tape.ev[e].what == 'u' && tape.ev[e].cut == cut &&
                        tape.ev[e].space == s0,
                    "trace.update", cat("cut ", q, " was not passed on")))
                return;
            ++e;
            if (tape.script[size_t(q) - 1].status == CUTStatus::success)
                ++expect_tok;
        }
        ctx.expect(e == tape.ev.size(), "trace.extra", "more oracle/space calls than the contract has");
        ctx.expect(S.tok == expect_tok, "trace.centre", "the centre was moved");
        ctx.event("events", long(tape.ev.size()));
        ctx.event(cat("stop.", !stopped ? "limit" : feas ? "feasible" : er::name(want)));
        if (k > 0)
            ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(ctx.desc);
    });
    ctx.group("default-options", 20, [&](Rng& r) {
        // 2000 iterations, tolerance 1e-8
        Tape tape;
        tape.script.resize(2000);
        for (auto& a : tape.script)
            a.tsq = 1e-8 * r.u(1.01, 100.);
        const bool small = r.chance(0.5);
        const long at = r.i(1, 1900);
        if (small)
            tape.script[size_t(at) - 1].tsq = 0.99e-8;
        tape.cap = 2000;
        MockSpace S(&tape);
        long id = 0;
        auto oracle = [&](const Tok&) -> std::optional<MockCut> {
            tape.at(++tape.queries);
            return MockCut {++id};
        };
        const CInfo info = cutting_plane_feas(oracle, S);
        ctx.scenario(cat("default options, small at ", small ? at : -1));
        ctx.expect(!info.feasible, "feasible", "nothing was accepted");
        ctx.expect(info.status == (small ? CUTStatus::smallenough : CUTStatus::success), "status", er::name(info.status));
        ctx.expect(long(info.num_iters) == (small ? at : 2000), "num_iters", cat(info.num_iters));
        ctx.nontrivial(r.next());
    });
    ctx.group("polytope", 700, [&](Rng& r) {
        const int n = int(r.i(2, 7));
        const double lu = unit(r, 60);
        const bool other = r.chance(0.3); // gradients in other units
        const double R = lu * r.logu(1, 100);
        const double rad = R * r.logu(0.002, 0.3);
        std::vector<double> c0, z;
        double nz = 0;
        for (int i = 0; i < n; ++i)
        {
            c0.push_back(r.u(-3, 3) * lu);
            z.push_back(r.normal());
            nz += z.back() * z.back();
        }
        const double sc = (R - rad) * r.u(0.3, 0.999) / std::sqrt(nz);
        for (int i = 0; i < n; ++i)
            z[size_t(i)] = c0[size_t(i)] + sc * z[size_t(i)];
        Poly P;
        P.deep = r.chance(0.7);
        P.rotate = r.chance(0.5);
        const int m = int(r.i(n + 1, 6 * n));
        for (int k = 0; k < m; ++k)
        {
            std::vector<double> g;
            double gg = 0, gz = 0;
            const double gu = other ? unit(r, 60) : 1;
            for (int i = 0; i < n; ++i)
            {
                g.push_back(r.normal() * gu);
                gg += g.back() * g.back();
            }
            for (int i = 0; i < n; ++i)
                gz += g[size_t(i)] * z[size_t(i)];
            P.a.push_back(g);
            P.b.push_back(gz + rad * std::sqrt(gg) * (r.chance(0.7) ? 1. : r.u(1, 3)));
        }
        ell S(R * R, arr(c0));
        ctx.scenario(cat("n=", n, " R=", R, " r=", rad, " m=", m, P.deep ? " deep" : " central"));
        Options o;
        o.tol = other || lu != 1 ? 0. : 1e-30;
        const double bound = 2. * n * (n + 1) * std::log(R / rad) + 2;
        o.max_it = unsigned(bound) + 10;
        const CInfo info = cutting_plane_feas(P, S, o);
        ctx.expect(info.status != CUTStatus::nosoln, "false-nosoln", "the problem is feasible");
        if (ctx.expect(info.feasible, "not-solved",
                cat("not solved in ", info.num_iters, " iterations, theory says ", bound)))
        {
            Poly Q = P;
            ctx.expect(!Q(S.xc()), "not-accepted", "the final centre is not feasible");
            ctx.expect(double(info.num_iters) <= bound, "too-slow", cat(info.num_iters, " > ", bound));
        }
        ctx.expect(P.calls == long(info.num_iters), "num_iters",
            cat(P.calls, " calls, ", info.num_iters, " reported"));
        ctx.event("solved-iterations", long(info.num_iters));
        ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(cat(ctx.desc, " -> ", info.num_iters, " iterations, bound ", bound));
    });
    ctx.group("infeasible", 400, [&](Rng& r) {
        // two opposite half-spaces with a gap
        const int n = int(r.i(2, 6));
        const double lu = unit(r, 60), gu = unit(r, 60);
        Poly P;
        std::vector<double> g, h;
        double gg = 0;
        for (int i = 0; i < n; ++i)
        {
            g.push_back(r.normal() * gu);
            gg += g.back() * g.back();
            h.push_back(-g.back());
        }
        const double off = r.u(-1, 1) * lu * gu, gap = r.logu(1e-2, 1) * std::sqrt(gg) * lu;
        P.a = {g, h};
        P.b = {off, -off - gap};
        ell S(100. * lu * lu, arr(std::vector<double>(size_t(n), 0.)));
        Options o;
        o.tol = 1e-20 * lu * lu * gu * gu;
        const CInfo info = cutting_plane_feas(P, S, o);
        ctx.scenario(cat("gap n=", n, " ", vh::vec(g), " ", off, " ", gap));
        ctx.expect(!info.feasible, "false-feasible", "an infeasible problem");
        ctx.expect(info.status == CUTStatus::nosoln, "not-detected",
            cat("status ", er::name(info.status), " after ", info.num_iters));
        ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.event("infeasible-iterations", long(info.num_iters));
    });
    ctx.group("interval", 800, [&](Rng& r) {
        const double lu = unit(r, 60);
        const double l = r.u(-50, 50) * lu, u = l + r.u(0.5, 100) * lu;
        const double w = (u - l) * r.logu(1e-4, 0.5);
        const double a = r.u(l, u - w);
        ell1d S(l, u);
        long calls = 0;
        const double gu = unit(r, 60), g = r.logu(0.1, 10) * gu;
        const bool deep = r.chance(0.5);
        auto oracle = [&](double x) -> std::optional<std::tuple<double, double>> {
            ++calls;
            if (x > a + w)
                return std::make_tuple(g, deep ? g * (x - a - w) : 0.);
            if (x < a)
                return std::make_tuple(-g, deep ? g * (a - x) : 0.);
            return {};
        };
        Options o;
        o.tol = 1e-30 * lu * lu * gu * gu;
        const CInfo info = cutting_plane_feas(oracle, S, o);
        ctx.scenario(cat("[", l, ",", u, "] feasible [", a, ",", a + w, "] g=", g));
        ctx.expect(info.feasible, "not-solved", cat(er::name(info.status)));
        ctx.expect(a <= S.xc() && S.xc() <= a + w, "not-accepted", cat(S.xc()));
        ctx.expect(double(calls) <= std::log2((u - l) / w) + 3, "too-slow", cat(calls));
        ctx.nontrivial(vh::hashs(ctx.desc));
    });
}

// ---------------------------------------------------------------- C08
namespace
{
// min f(x) = 1/2 (x-z)'H(x-z) + f0 (or a norm), over a ball constraint
struct Quad
{
    int n;
    std::vector<std::vector<double>> H;
    std::vector<double> z;
    double f0 = 0;
    bool norm = false;
    std::vector<std::vector<double>> ga; // constraints ga x <= gb, loose at z
    std::vector<double> gb;
    bool last_objective = false;
    long calls = 0, shrinks = 0;
    std::vector<double> best;
    std::pair<double, std::vector<double>> value(const Arr& x) const
    {
        std::vector<double> d(static_cast<size_t>(n)), g(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
            d[size_t(i)] = x(size_t(i)) - z[size_t(i)];
        double v = 0;
        for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < n; ++j)
                g[size_t(i)] += H[size_t(i)][size_t(j)] * d[size_t(j)];
            v += g[size_t(i)] * d[size_t(i)];
        }
        if (norm)
        {
            const double s = std::sqrt(v);
            if (s > 0)
                for (auto& q : g)
                    q /= s;
            return {s + f0, g};
        }
        return {v / 2 + f0, g};
    }
    std::tuple<std::tuple<Arr, double>, bool> operator()(const Arr& x, double& t)
    {
        ++calls;
        for (size_t k = 0; k < ga.size(); ++k)
        {
            double v = -gb[k];
            for (int i = 0; i < n; ++i)
                v += ga[k][size_t(i)] * x(size_t(i));
            if (v > 0)
            {
                last_objective = false;
                return {std::make_tuple(arr(ga[k]), v), false};
            }
        }
        last_objective = true;
        const auto [v, g] = value(x);
        if (v < t)
        {
            t = v;
            best = dvec(x);
            ++shrinks;
            return {std::make_tuple(arr(g), 0.), true};
        }
        return {std::make_tuple(arr(g), v - t), false};
    }
};
} // namespace

VH_PROPERTY(C08)
{
    auto scripted = [&](Rng& r, auto kind) {
        using Target = decltype(kind);
        const bool whole = std::is_integral<Target>::value, maximize = r.chance(0.4);
        Tape tape;
        const Options o = pick_opt(r);
        const double psh = r.chance(0.3) ? 0.05 : r.chance(0.5) ? 0.4 : 0.;
        const double ps = r.chance(0.3) ? 0.2 : r.chance(0.5) ? 0.03 : 0.;
        const double tu = unit(r);
        double t0 = whole ? double(r.i(-1000, 1000)) : r.u(-5, 100) * tu, tt = t0;
        for (unsigned k = 0; k < o.max_it; ++k)
        {
            Answer a;
            a.shrunk = r.chance(psh);
            if (a.shrunk)
                tt = better(r, tt, tu, maximize, whole);
            a.t = tt;
            a.status = pick_status(r, ps);
            a.tsq = pick_tsq(r, o.tol);
            tape.script.push_back(a);
        }
        steady(r, tape.script, o.tol);
        tape.cap = long(o.max_it);
        ctx.scenario(script_str(tape, o));
        MockSpace S(&tape);
        const long s0 = S.space;
        long expect_tok = S.tok, cut_id = 5000, best_tok = -1;
        Target t = as_target<Target>(t0);
        auto oracle = [&](const Tok& x, Target& tq) {
            const Answer& a = tape.at(++tape.queries);
            tape.ev.push_back({'q', s0, x.id, 0, from_target(tq)});
            if (a.shrunk)
            {
                tq = as_target<Target>(a.t);
                best_tok = x.id;
            }
            return std::make_tuple(MockCut {++cut_id}, a.shrunk);
        };
        const auto [xb, info] = cutting_plane_dc(oracle, S, t, o);
        CUTStatus want = CUTStatus::success;
        long k = 0;
        bool stopped = false, improved = false;
        double want_t = t0;
        while (k + 1 < long(o.max_it))
        {
            const Answer& a = tape.script[size_t(k)];
            ++k;
            improved = improved || a.shrunk;
            if (a.shrunk)
                want_t = a.t;
            if (a.status != CUTStatus::success)
            {
                want = a.status;
                stopped = true;
                break;
            }
            if (a.tsq < o.tol)
            {
                want = CUTStatus::smallenough;
                stopped = true;
                break;
            }
        }
        ctx.expect(info.feasible == improved, "feasible", cat("reported ", info.feasible, " want ", improved));
        ctx.expect(info.status == want, "status", cat("reported ", er::name(info.status), " want ", er::name(want)));
        ctx.expect(from_target(t) == want_t, "target", cat("t=", from_target(t), " want ", want_t));
        ctx.event(cat(whole ? "whole-" : "", maximize ? "maximize" : "minimize"));
        if (improved)
            ctx.expect(xb.id == best_tok, "x_best", cat("returned centre ", xb.id, ", last improvement at ", best_tok));
        ctx.expect(tape.queries == k && tape.updates == k, "queries",
            cat(tape.queries, " queries ", tape.updates, " updates, want ", k));
        if (o.max_it > 0)
            ctx.expect(long(info.num_iters) == (stopped ? k : long(o.max_it)), "num_iters", cat(info.num_iters));
        long cut = 5000;
        size_t e = 0;
        double cur_t = t0;
        for (long q = 1; q <= tape.queries; ++q, e += 2)
        {
            const Answer& a = tape.script[size_t(q) - 1];
            if (!ctx.expect(e + 1 < tape.ev.size() && tape.ev[e].what == 'q' && tape.ev[e].tok == expect_tok &&
                        tape.ev[e].t == cur_t,
                    "trace.query", cat("query ", q, " not at the current centre and target")))
                return;
            if (a.shrunk)
                cur_t = a.t;
            if (!ctx.expect(tape.ev[e + 1].what == 'u' && tape.ev[e + 1].cut == ++cut, "trace.update",
                    cat("cut ", q, " was not passed on")))
                return;
            if (a.status == CUTStatus::success)
                ++expect_tok;
        }
        ctx.expect(e == tape.ev.size(), "trace.extra", "more oracle/space calls than the contract has");
        ctx.event("events", long(tape.ev.size()));
        ctx.event(cat("stop.", !stopped ? "limit" : er::name(want)));
        if (improved)
            ctx.event("improved");
        if (k > 0)
            ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(ctx.desc);
    };
    ctx.group("scripted", 20000, [&](Rng& r) { scripted(r, 0.); });
    ctx.group("whole", 5000, [&](Rng& r) { scripted(r, 0LL); });
    ctx.group("convex", 500, [&](Rng& r) {
        Quad Q;
        const int n = Q.n = int(r.i(2, 6));
        const double R = r.logu(2, 50);
        std::vector<double> c0;
        double nz = 0;
        for (int i = 0; i < n; ++i)
        {
            c0.push_back(r.u(-3, 3));
            Q.z.push_back(r.normal());
            nz += Q.z.back() * Q.z.back();
        }
        const double sc = R * r.u(0.1, 0.9) / std::sqrt(nz);
        for (int i = 0; i < n; ++i)
            Q.z[size_t(i)] = c0[size_t(i)] + sc * Q.z[size_t(i)];
        Q.H.assign(size_t(n), std::vector<double>(size_t(n), 0.));
        for (int k = 0; k < n + 2; ++k)
        {
            std::vector<double> w;
            for (int i = 0; i < n; ++i)
                w.push_back(r.normal());
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    Q.H[size_t(i)][size_t(j)] += w[size_t(i)] * w[size_t(j)];
        }
        for (int i = 0; i < n; ++i)
            Q.H[size_t(i)][size_t(i)] += 0.5;
        Q.f0 = r.u(-10, 10);
        Q.norm = r.chance(0.4);
        const int m = r.chance(0.5) ? 0 : int(r.i(1, 6));
        for (int k = 0; k < m; ++k)
        {
            std::vector<double> g;
            double gz = 0;
            for (int i = 0; i < n; ++i)
            {
                g.push_back(r.normal());
                gz += g.back() * Q.z[size_t(i)];
            }
            Q.ga.push_back(g);
            Q.gb.push_back(gz + r.u(0.05, 2));
        }
        ell S(R * R, arr(c0));
        const double t0 = r.chance(0.85) ? 1e10 : Q.f0 - 1; // sometimes hopeless
        double t = t0;
        Options o;
        o.tol = r.pick(*std::make_unique<std::vector<double>>(std::vector<double> {1e-8, 1e-6, 1e-10}));
        o.max_it = r.chance(0.2) ? unsigned(r.i(1, 60)) : 5000;
        ctx.scenario(cat("quad n=", n, " z=", vh::vec(Q.z), " f0=", Q.f0, " norm=", Q.norm, " m=", m,
            " R=", R, " c0=", vh::vec(c0), " t0=", t0, " tol=", o.tol, " max_it=", o.max_it));
        const auto [xb, info] = cutting_plane_dc(Q, S, t, o);
        ctx.event(cat("convex.", er::name(info.status)));
        ctx.expect(info.feasible == (Q.shrinks > 0), "feasible", "reported improvement");
        ctx.expect(long(info.num_iters) <= long(o.max_it), "num_iters", "limit exceeded");
        if (t0 < Q.f0)
        {
            ctx.expect(!info.feasible && t == t0, "target", "hopeless target changed");
            ctx.nontrivial(vh::hashs(ctx.desc));
            return;
        }
        if (info.feasible)
        {
            ctx.expect(dvec(xb) == Q.best, "x_best", cat("returned ", vh::vec(dvec(xb)), " best ", vh::vec(Q.best)));
            ctx.expect(Q.value(xb).first == t, "target", "t is not the value of x_best");
        }
        ctx.expect(t >= Q.f0 - 1e-9 * (1 + std::fabs(Q.f0)), "below-optimum", cat(t, " < ", Q.f0));
        // the optimum satisfies every cut, so it is never lost
        if (t > Q.f0 + 1e-6)
        {
            ctx.expect(info.status != CUTStatus::nosoln, "false-nosoln", "the optimum satisfies every cut");
            const er::State st = er::probe(S);
            la::Mat L;
            if (la::chol(st.P, L))
            {
                const la::Vec ev = la::eig(st.P);
                la::Vec d;
                for (int i = 0; i < n; ++i)
                    d.push_back(LD(Q.z[size_t(i)]) - st.c[size_t(i)]);
                const LD q = la::norm(la::fsub(L, d));
                if (ev.back() / ev.front() < 1e8L)
                {
                    ctx.event("optimum-located");
                    ctx.expect(q * q <= 1 + 1e-5L, "lost-optimum", cat("squared distance ", double(q * q)));
                }
            }
        }
        if (info.status == CUTStatus::smallenough && Q.last_objective)
        {
            ctx.event("gap-checked");
            ctx.expect(t - Q.f0 <= std::sqrt(o.tol) * (1 + 1e-6) + 1e-9, "gap",
                cat("t-f* = ", t - Q.f0, " > sqrt(tol) = ", std::sqrt(o.tol)));
        }
        ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(cat(ctx.desc, " -> t=", t, " iters=", info.num_iters));
    });
    ctx.group("interval", 800, [&](Rng& r) {
        const double l = r.u(-20, 20), u = l + r.u(0.5, 60), z = r.u(l, u), k1 = r.u(0.1, 3);
        const int form = int(r.i(0, 2));
        auto f = [&](double x) {
            const double d = x - z;
            return form == 0 ? k1 * d * d : form == 1 ? k1 * std::fabs(d) : std::exp(k1 * d) - k1 * d - 1;
        };
        auto df = [&](double x) {
            const double d = x - z;
            return form == 0 ? 2 * k1 * d : form == 1 ? (d > 0 ? k1 : -k1) : k1 * std::exp(k1 * d) - k1;
        };
        if (form == 2 && k1 * (u - l) > 30)
            throw vh::Skip {};
        ell1d S(l, u);
        double t = 1e100, best = 0;
        long shr = 0;
        auto oracle = [&](double x, double& tq) {
            const double v = f(x), g = df(x);
            if (v < tq)
            {
                tq = v;
                best = x;
                ++shr;
                return std::make_tuple(std::make_tuple(g == 0 ? 1e-12 : g, 0.), true);
            }
            return std::make_tuple(std::make_tuple(g == 0 ? 1e-12 : g, v - tq), false);
        };
        Options o;
        o.tol = 1e-12;
        ctx.scenario(cat("1-D form ", form, " [", l, ",", u, "] z=", z, " k=", k1));
        const auto [xb, info] = cutting_plane_dc(oracle, S, t, o);
        ctx.expect(info.feasible && xb == best && f(xb) == t, "x_best", cat("xb=", xb));
        if (info.status == CUTStatus::smallenough)
            ctx.expect(t <= 1.01e-6 + 1e-9, "gap", cat("t-f* = ", t));
        ctx.event(cat("interval.", er::name(info.status)));
        ctx.nontrivial(vh::hashs(ctx.desc));
    });
}

// ---------------------------------------------------------------- C09
VH_PROPERTY(C09)
{
    auto scripted = [&](Rng& r, auto kind) {
        using Target = decltype(kind);
        const bool whole = std::is_integral<Target>::value, maximize = r.chance(0.4);
        Tape tape;
        const Options o = pick_opt(r);
        const double psh = r.chance(0.3) ? 0.05 : r.chance(0.5) ? 0.4 : 0.;
        const double pne = r.chance(0.5) ? 0.5 : 0.15;
        const double pns = r.chance(0.5) ? 0.05 : 0.;
        const double pma = r.chance(0.6) ? 0.95 : 0.6;
        const double tu = unit(r);
        double t0 = whole ? double(r.i(-1000, 1000)) : r.u(-5, 100) * tu, tt = t0;
        for (unsigned k = 0; k < o.max_it; ++k)
        {
            Answer a;
            a.shrunk = r.chance(psh);
            if (a.shrunk)
                tt = better(r, tt, tu, maximize, whole);
            a.t = tt;
            a.status = r.chance(pns) ? CUTStatus::nosoln : r.chance(pne) ? CUTStatus::noeffect : CUTStatus::success;
            a.more_alt = r.chance(pma);
            a.tsq = pick_tsq(r, o.tol);
            if (a.status == CUTStatus::noeffect && a.tsq < o.tol)
                a.tsq = o.tol; // which of the two reasons wins is open
            tape.script.push_back(a);
        }
        steady(r, tape.script, o.tol);
        tape.cap = long(o.max_it);
        ctx.scenario(script_str(tape, o));
        MockSpace S(&tape);
        const long s0 = S.space;
        long expect_tok = S.tok, cut_id = 5000, best_tok = -1;
        Target t = as_target<Target>(t0);
        auto oracle = [&](const Tok& x, Target& tq, bool retry) {
            const Answer& a = tape.at(++tape.queries);
            tape.ev.push_back({'q', s0, x.id, 0, from_target(tq), retry});
            const long pt = 900000 + tape.queries; // the discrete point
            if (a.shrunk)
            {
                tq = as_target<Target>(a.t);
                best_tok = pt;
            }
            return std::make_tuple(MockCut {++cut_id}, Tok {pt}, a.shrunk, a.more_alt);
        };
        const auto [xb, info] = cutting_plane_q(oracle, S, t, o);
        CUTStatus want = CUTStatus::nosoln;
        long k = 0;
        bool stopped = false, improved = false;
        double want_t = t0;
        while (k + 1 < long(o.max_it))
        {
            const Answer& a = tape.script[size_t(k)];
            ++k;
            improved = improved || a.shrunk;
            if (a.shrunk)
                want_t = a.t;
            want = a.status;
            if (a.status == CUTStatus::noeffect && !a.more_alt)
                stopped = true;
            else if (a.status == CUTStatus::nosoln)
                stopped = true;
            else if (a.status == CUTStatus::success && a.tsq < o.tol)
            {
                want = CUTStatus::smallenough;
                stopped = true;
            }
            if (stopped)
                break;
        }
        ctx.expect(info.feasible == improved, "feasible", cat("reported ", info.feasible, " want ", improved));
        if (stopped)
            ctx.expect(info.status == want, "status", cat("reported ", er::name(info.status), " want ", er::name(want)));
        else if (k > 0 && want == CUTStatus::success)
            ctx.expect(info.status == CUTStatus::success, "status", cat("limit reached, reported ", er::name(info.status)));
        else if (k > 0)
            ctx.expect(info.status == CUTStatus::success || info.status == CUTStatus::noeffect, "status",
                cat("limit reached, reported ", er::name(info.status)));
        ctx.expect(from_target(t) == want_t, "target", cat("t=", from_target(t), " want ", want_t));
        ctx.event(cat(whole ? "whole-" : "", maximize ? "maximize" : "minimize"));
        if (improved)
            ctx.expect(xb.id == best_tok, "x_best", cat("returned ", xb.id, ", last improvement at ", best_tok));
        ctx.expect(tape.queries == k && tape.updates == k, "queries",
            cat(tape.queries, " queries ", tape.updates, " updates, want ", k));
        if (o.max_it > 0)
            ctx.expect(long(info.num_iters) == (stopped ? k : long(o.max_it)), "num_iters", cat(info.num_iters));
        long cut = 5000;
        size_t e = 0;
        bool want_retry = false;
        for (long q = 1; q <= tape.queries; ++q, e += 2)
        {
            const Answer& a = tape.script[size_t(q) - 1];
            if (!ctx.expect(e + 1 < tape.ev.size() && tape.ev[e].what == 'q' && tape.ev[e].tok == expect_tok,
                    "trace.query", cat("query ", q, " not at the current centre")))
                return;
            if (!ctx.expect(tape.ev[e].retry == want_retry, "trace.retry",
                    cat("query ", q, " had retry=", tape.ev[e].retry, " after ",
                        q > 1 ? er::name(tape.script[size_t(q) - 2].status) : "nothing")))
                return;
            if (!ctx.expect(tape.ev[e + 1].what == 'u' && tape.ev[e + 1].cut == ++cut, "trace.update",
                    cat("cut ", q, " was not passed on")))
                return;
            want_retry = a.status == CUTStatus::noeffect;
            if (want_retry)
                ctx.event("retries");
            if (a.status == CUTStatus::success)
                ++expect_tok;
        }
        ctx.expect(e == tape.ev.size(), "trace.extra", "more oracle/space calls than the contract has");
        ctx.event("events", long(tape.ev.size()));
        ctx.event(cat("stop.", !stopped ? "limit" : er::name(want)));
        if (k > 0)
            ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(ctx.desc);
    };
    ctx.group("scripted", 30000, [&](Rng& r) { scripted(r, 0.); });
    ctx.group("whole", 8000, [&](Rng& r) { scripted(r, 0LL); });
    // integer least-distance problems, solved for real
    ctx.group("integer", 500, [&](Rng& r) {
        const int n = int(r.i(2, 4));
        std::vector<double> z;
        for (int i = 0; i < n; ++i)
            z.push_back(r.u(-4, 4));
        la::Mat H(n, n);
        for (int k = 0; k < n + 1; ++k)
        {
            std::vector<double> w;
            for (int i = 0; i < n; ++i)
                w.push_back(r.normal());
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    H(i, j) += w[size_t(i)] * w[size_t(j)];
        }
        for (int i = 0; i < n; ++i)
            H(i, i) += 0.3L;
        auto eval = [&](const std::vector<double>& x, std::vector<double>& g) {
            double v = 0;
            g.assign(size_t(n), 0.);
            for (int i = 0; i < n; ++i)
            {
                for (int j = 0; j < n; ++j)
                    g[size_t(i)] += double(H(i, j)) * (x[size_t(j)] - z[size_t(j)]);
                v += g[size_t(i)] * (x[size_t(i)] - z[size_t(i)]);
            }
            return v / 2;
        };
        const double R = r.u(6, 20);
        std::vector<double> c0;
        for (int i = 0; i < n; ++i)
            c0.push_back(r.u(-2, 2));
        ell S(R * R, arr(c0));
        ctx.scenario(cat("integer n=", n, " z=", vh::vec(z), " c0=", vh::vec(c0), " R=", R));
        double t = 1e100, seen = 1e100;
        std::vector<double> best, last;
        int alt = 0;
        long retries = 0, calls = 0;
        auto oracle = [&](const Arr& x, double& tq, bool retry) {
            if (++calls > 3000)
                throw vh::Overrun("more oracle calls than the iteration limit");
            std::vector<double> p;
            for (int i = 0; i < n; ++i)
                p.push_back(std::round(x(size_t(i))));
            if (retry)
            { // another integer point near by
                ++retries;
                ++alt;
                const int i = (alt - 1) % n;
                p[size_t(i)] += (x(size_t(i)) > p[size_t(i)] ? 1 : -1) * (1 + (alt - 1) / n);
            }
            else
                alt = 0;
            std::vector<double> g;
            const double v = eval(p, g);
            seen = std::min(seen, v);
            double beta = 0;
            for (int i = 0; i < n; ++i)
                beta += g[size_t(i)] * (x(size_t(i)) - p[size_t(i)]);
            bool shrunk = false;
            if (v < tq)
            {
                tq = v;
                best = p;
                shrunk = true;
            }
            else
                beta += v - tq;
            return std::make_tuple(std::make_tuple(arr(g), beta), arr(p), shrunk, alt < 3 * n);
        };
        Options o;
        o.max_it = 3000;
        const auto [xb, info] = cutting_plane_q(oracle, S, t, o);
        ctx.event(cat("integer.", er::name(info.status)));
        ctx.event("integer-retries", retries);
        ctx.expect(info.feasible, "feasible", "an improvement was found");
        ctx.expect(dvec(xb) == best, "x_best", cat("returned ", vh::vec(dvec(xb)), " best ", vh::vec(best)));
        ctx.expect(t == seen, "target", cat("t=", t, " best value evaluated ", seen));
        ctx.expect(long(info.num_iters) == calls || calls >= 2999, "num_iters", cat(info.num_iters, " calls ", calls));
        if (info.status == CUTStatus::nosoln)
        { // no better integer point of the start ball may exist
            std::vector<int> lo, hi;
            for (int i = 0; i < n; ++i)
            {
                lo.push_back(int(std::floor(z[size_t(i)])) - 2);
                hi.push_back(lo.back() + 5);
            }
            std::vector<int> p = lo;
            for (;;)
            {
                std::vector<double> x(p.begin(), p.end()), g;
                double d = 0;
                for (int i = 0; i < n; ++i)
                    d += (x[size_t(i)] - c0[size_t(i)]) * (x[size_t(i)] - c0[size_t(i)]);
                if (d <= R * R * 0.999)
                    ctx.expect(eval(x, g) >= t - 1e-6, "false-nosoln", cat("better point ", vh::vec(x)));
                int i = 0;
                while (i < n && ++p[size_t(i)] > hi[size_t(i)])
                {
                    p[size_t(i)] = lo[size_t(i)];
                    ++i;
                }
                if (i == n)
                    break;
            }
            ctx.event("integer-certified");
        }
        ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(cat(ctx.desc, " -> ", er::name(info.status), " t=", t, " iters=", info.num_iters));
    });
}

// ---------------------------------------------------------------- C10
namespace
{
template <typename T>
void bracket(Ctx& ctx, Rng& r, T lo0, T hi0, const Options& o, const std::function<bool(T)>& accept, bool monotone,
    LD threshold, LD slack)
{
    std::pair<T, T> I {lo0, hi0};
    T lo = lo0, hi = hi0;
    long calls = 0;
    ctx.scenario(cat("[", lo0, ",", hi0, "] tol=", o.tol, " max_it=", o.max_it, " threshold=", double(threshold),
        monotone ? "" : " arbitrary"));
    uint64_t fp = vh::hashs(ctx.desc);
    auto oracle = [&](const T& t) {
        if (++calls > long(o.max_it))
            throw vh::Overrun(cat("more than max_it=", o.max_it, " oracle calls"));
        ctx.expect(LD(t) >= LD(lo) - slack && LD(t) <= LD(hi) + slack, "query-outside",
            cat("asked about ", t, " outside [", lo, ",", hi, "]"));
        const bool a = accept(t);
        (a ? hi : lo) = t;
        fp = vh::mix(fp, uint64_t(a));
        ctx.event(a ? "accepted" : "rejected");
        return a;
    };
    const CInfo info = bsearch(oracle, I, o);
    ctx.expect(I.first == lo && I.second == hi, "bracket",
        cat("final [", I.first, ",", I.second, "] but the answers leave [", lo, ",", hi, "]"));
    ctx.expect(info.feasible == (hi != hi0), "feasible", "improvement misreported");
    // the count includes the final, query-less round
    ctx.expect(long(info.num_iters) == calls + 1 || long(info.num_iters) == calls, "num_iters",
        cat(info.num_iters, " reported, ", calls, " queries"));
    const LD w = LD(hi) - LD(lo);
    const bool isint = std::is_integral<T>::value;
    const bool small = isint ? std::floor(w / 2) < LD(o.tol) : w < 2 * LD(o.tol) * (1 + 1e-12L);
    if (info.status == CUTStatus::smallenough)
        ctx.expect(small, "width", cat("stopped with width ", double(w)));
    else
    {
        ctx.expect(info.status == CUTStatus::success, "status", er::name(info.status));
        ctx.expect(calls == long(o.max_it), "status", cat("gave up after ", calls, " of ", o.max_it));
    }
    const LD w0 = LD(hi0) - LD(lo0);
    const LD unit = isint ? std::max<LD>(1, LD(o.tol)) : LD(o.tol);
    const LD need = w0 > unit ? std::log2(w0 / unit) + 2 : 2;
    if (LD(o.max_it) > need + 1)
    {
        ctx.expect(info.status == CUTStatus::smallenough, "not-converged", er::name(info.status));
        ctx.expect(LD(calls) <= need, "too-slow", cat(calls, " > ", double(need)));
    }
    if (monotone)
    {
        // lo < threshold <= hi, where the ends could decide
        if (lo != lo0)
            ctx.expect(LD(lo) < threshold, "lost-threshold", cat("lower ", lo));
        if (hi != hi0)
            ctx.expect(LD(hi) >= threshold, "lost-threshold", cat("upper ", hi));
        if (isint && info.status == CUTStatus::smallenough && o.tol <= 1 && threshold > LD(lo0) &&
            threshold <= LD(hi0))
        {
            ctx.event("smallest-integer");
            ctx.expect(LD(hi) == std::ceil(threshold), "not-smallest", cat("upper ", hi));
        }
    }
    (void)r;
    if (calls > 0)
        ctx.nontrivial(fp);
    ctx.sample(cat(ctx.desc, " -> [", I.first, ",", I.second, "] ", info.num_iters));
}
} // namespace

VH_PROPERTY(C10)
{
    auto options = [](Rng& r, bool isint) {
        Options o;
        o.max_it = r.chance(0.25) ? unsigned(r.i(0, 8)) : 2000;
        if (isint)
            o.tol = r.chance(0.7) ? 1e-8 : double(r.i(1, 6));
        else
            o.tol = r.chance(0.5) ? 1e-8 : r.logu(1e-7, 1);
        return o;
    };
    ctx.group("int", 4000, [&](Rng& r) {
        const int lo = int(r.i(-1000, 1000)), hi = lo + int(r.chance(0.3) ? r.i(0, 4) : r.i(0, 5000));
        const Options o = options(r, true);
        const LD th = LD(r.u(lo - 5., hi + 5.));
        bracket<int>(ctx, r, lo, hi, o, [&](int t) { return LD(t) >= th; }, true, th, 0);
    });
    ctx.group("int-tie", 2000, [&](Rng& r) {
        const int lo = int(r.i(-50, 50)), hi = lo + int(r.i(0, 64));
        const Options o = options(r, true);
        const LD th = LD(r.i(lo - 1, hi + 1));
        bracket<int>(ctx, r, lo, hi, o, [&](int t) { return LD(t) >= th; }, true, th, 0);
    });
    ctx.group("long", 1500, [&](Rng& r) {
        const long lo = r.i(-(1L << 40), 1L << 40), hi = lo + r.i(0, 1L << r.i(1, 50));
        const Options o = options(r, true);
        const LD th = LD(lo) + LD(r.u()) * LD(hi - lo);
        bracket<long>(ctx, r, lo, hi, o, [&](long t) { return LD(t) >= th; }, true, th, 0);
    });
    // numbers near the ends of the type, and brackets as wide as it has
    ctx.group("long-wide", 800, [&](Rng& r) {
        constexpr long bot = std::numeric_limits<long>::min();
        const uint64_t w = r.next() >> r.i(0, 62);
        uint64_t at = r.chance(0.3) ? 0 : r.chance(0.3) ? ~w : r.next(); // from the smallest number
        at = std::min(at, ~w);
        const long lo = long(at + uint64_t(bot)), hi = long(at + w + uint64_t(bot));
        const Options o = options(r, true);
        const LD th = r.chance(0.2) ? LD(lo) : r.chance(0.2) ? LD(hi) : std::floor(LD(lo) + LD(r.u()) * LD(w));
        bracket<long>(ctx, r, lo, hi, o, [&](long t) { return LD(t) >= th; }, true, th, 0);
        ctx.event("brackets wider than the type's maximum", w > (~uint64_t(0) >> 1));
    });
    ctx.group("int-wide", 800, [&](Rng& r) {
        constexpr int bot = std::numeric_limits<int>::min();
        const unsigned w = unsigned(r.next() >> r.i(32, 62));
        unsigned at = r.chance(0.3) ? 0 : r.chance(0.3) ? ~w : unsigned(r.next() >> 32);
        at = std::min(at, ~w);
        const int lo = int(at + unsigned(bot)), hi = int(at + w + unsigned(bot));
        const Options o = options(r, true);
        const LD th = LD(r.i(lo, hi));
        bracket<int>(ctx, r, lo, hi, o, [&](int t) { return LD(t) >= th; }, true, th, 0);
        ctx.event("brackets wider than the type's maximum", w > (~unsigned(0) >> 1));
    });
    ctx.group("double-wide", 400, [&](Rng& r) {
        const double m = std::numeric_limits<double>::max() * (r.chance(0.5) ? 1. : r.u(0.1, 1.));
        const double lo = r.chance(0.5) ? -m : -m * r.u(), hi = r.chance(0.5) ? m : m * r.u();
        Options o = options(r, false);
        o.tol = (r.chance(0.5) ? 1e-7 : r.logu(1e-7, 1)) * m;
        const LD th = r.chance(0.2) ? LD(lo) : LD(lo) + LD(r.u()) * (LD(hi) - LD(lo));
        bracket<double>(ctx, r, lo, hi, o, [&](double t) { return LD(t) >= th; }, true, th, 1e-12L * m);
        ctx.event("brackets wider than the type's maximum", LD(hi) - LD(lo) > LD(std::numeric_limits<double>::max()));
    });
    // tolerances far below the bracket: hundreds of bisections
    ctx.group("double-fine", 300, [&](Rng& r) {
        const double w = r.logu(1e-3, 1e290);
        Options o = options(r, false);
        o.tol = r.logu(1e-290, w * 1e-10);
        if (r.chance(0.3))
            o.max_it = unsigned(r.i(20, 1500));
        const bool down = r.chance(0.5); // towards the end at zero, where there is no rounding to speak of
        const double at = r.chance(0.3) ? 0. : o.tol * r.logu(1e-3, 1e9);
        const double lo = down ? 0. : -w, hi = down ? w : 0.;
        const LD th = down ? LD(at) : -LD(at);
        bracket<double>(ctx, r, lo, hi, o, [&](double t) { return LD(t) >= th; }, true, th, 0);
    });
    ctx.group("unsigned", 800, [&](Rng& r) {
        const unsigned lo = unsigned(r.i(0, 1000)), hi = lo + unsigned(r.i(0, 1 << r.i(1, 30)));
        const Options o = options(r, true);
        const LD th = LD(lo) + LD(r.u()) * LD(hi - lo);
        bracket<unsigned>(ctx, r, lo, hi, o, [&](unsigned t) { return LD(t) >= th; }, true, th, 0);
    });
    ctx.group("double", 3000, [&](Rng& r) {
        const double s = unit(r);
        const double lo = r.u(-20, 20) * s, hi = lo + (r.chance(0.05) ? 0. : r.logu(1e-4, 1e3)) * s;
        Options o = options(r, false);
        o.tol *= s;
        const LD th = LD(r.u(lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)));
        bracket<double>(ctx, r, lo, hi, o, [&](double t) { return LD(t) >= th; }, true, th, 1e-12L * s);
    });
    // rational ends and queries, any tolerance
    ctx.group("fraction", 1500, [&](Rng& r) {
        using F = fun::Fraction<long>;
        auto ld = [](const F& f) { return LD(f.numerator()) / LD(f.denominator()); };
        const F lo0(r.i(-20, 20), r.i(1, 12));
        const F hi0 = lo0 + F(r.chance(0.05) ? 0 : r.i(1, 40), r.i(1, 6));
        const LD w0 = ld(hi0) - ld(lo0);
        const F th = lo0 + (hi0 - lo0) * F(r.i(-1, 11), 10);
        const bool monotone = r.chance(0.7);
        const uint64_t salt = r.next();
        Options o;
        o.max_it = r.chance(0.2) ? unsigned(r.i(0, 8)) : unsigned(r.i(18, 22));
        o.tol = r.chance(0.2) ? double(r.i(1, 3)) : r.chance(0.3) ? std::ldexp(1., -int(r.i(1, 13))) : r.logu(1e-4, 1.);
        std::pair<F, F> I {lo0, hi0};
        F lo = lo0, hi = hi0;
        long calls = 0;
        ctx.scenario(cat("[", double(ld(lo0)), ",", double(ld(hi0)), "] fractions, tol=", o.tol, " max_it=", o.max_it, " threshold=", double(ld(th)), monotone ? "" : " arbitrary"));
        uint64_t fp = vh::hashs(ctx.desc);
        const CInfo info = bsearch(
            [&](const F& t) {
                if (++calls > long(o.max_it))
                    throw vh::Overrun(cat("more than max_it=", o.max_it, " oracle calls"));
                ctx.expect(t - lo == hi - t, "query-outside", cat("asked about ", double(ld(t)), " in [", double(ld(lo)), ",", double(ld(hi)), "]"));
                const bool a = monotone ? !(t < th) : (vh::mix(salt, uint64_t(t.numerator())) & 4) != 0;
                (a ? hi : lo) = t;
                fp = vh::mix(fp, uint64_t(a));
                ctx.event(a ? "accepted" : "rejected");
                return a;
            },
            I, o);
        ctx.expect(I.first == lo && I.second == hi, "bracket", "the final bracket is not what the answers leave");
        ctx.expect(info.feasible == !(hi == hi0), "feasible", "improvement misreported");
        ctx.expect(long(info.num_iters) == calls + 1 || long(info.num_iters) == calls, "num_iters", cat(info.num_iters, " reported, ", calls, " queries"));
        const LD w = ld(hi) - ld(lo);
        if (info.status == CUTStatus::smallenough)
            ctx.expect(w / 2 < LD(o.tol) * (1 + 1e-15L), "width", cat("stopped with width ", double(w)));
        else
            ctx.expect(calls == long(o.max_it), "status", cat("gave up after ", calls, " of ", o.max_it));
        const LD need = w0 > LD(o.tol) ? std::log2(w0 / LD(o.tol)) + 2 : 2;
        if (LD(o.max_it) > need + 1)
        {
            ctx.expect(info.status == CUTStatus::smallenough, "not-converged", er::name(info.status));
            ctx.expect(LD(calls) <= need, "too-slow", cat(calls, " > ", double(need)));
        }
        if (monotone)
        {
            ctx.expect(lo == lo0 || lo < th, "lost-threshold", "lower end");
            ctx.expect(hi == hi0 || !(hi < th), "lost-threshold", "upper end");
        }
        if (calls > 0)
            ctx.nontrivial(fp);
        ctx.sample(ctx.desc);
    });
    ctx.group("arbitrary", 2000, [&](Rng& r) {
        const double s = unit(r);
        Options o = options(r, false);
        o.tol *= s;
        const uint64_t salt = r.next();
        const double lo = r.u(-20, 20) * s, hi = lo + r.logu(1e-3, 1e3) * s;
        bracket<double>(
            ctx, r, lo, hi, o, [&](double t) { return (vh::hashd(salt, t) & 4) != 0; }, false, 0, 1e-12L * s);
    });
    ctx.group("arbitrary-int", 1500, [&](Rng& r) {
        const Options o = options(r, true);
        const uint64_t salt = r.next();
        const int lo = int(r.i(-500, 500)), hi = lo + int(r.i(0, 3000));
        bracket<int>(ctx, r, lo, hi, o, [&](int t) { return (vh::hashd(salt, t) & 4) != 0; }, false, 0, 0);
    });
}

// ---------------------------------------------------------------- C11
namespace
{
struct MockParam
{
    Tape* tape;
    long cut_id = 5000;
    void update(double t)
    {
        tape->ev.push_back({'U', 0, 0, 0, t});
    }
    std::optional<MockCut> operator()(const Tok& x)
    {
        const Answer& a = tape->at(++tape->queries);
        tape->ev.push_back({'q', 0, x.id});
        if (a.accept)
            return {};
        return MockCut {++cut_id};
    }
};

// || x - z_k || <= t for every k
struct Balls
{
    std::vector<std::vector<double>> z;
    double t = 0;
    long calls = 0;
    void update(double tt)
    {
        t = tt;
    }
    double worst(const Arr& x, size_t& at) const
    {
        double m = -1;
        for (size_t k = 0; k < z.size(); ++k)
        {
            double d = 0;
            for (size_t i = 0; i < z[k].size(); ++i)
                d += (x(i) - z[k][i]) * (x(i) - z[k][i]);
            d = std::sqrt(d);
            if (d > m)
            {
                m = d;
                at = k;
            }
        }
        return m;
    }
    std::optional<std::tuple<Arr, double>> operator()(const Arr& x)
    {
        ++calls;
        size_t k = 0;
        const double m = worst(x, k);
        if (m <= t)
            return {};
        std::vector<double> g;
        for (size_t i = 0; i < z[k].size(); ++i)
            g.push_back((x(i) - z[k][i]) / m);
        return std::make_tuple(arr(g), m - t);
    }
};
} // namespace

VH_PROPERTY(C11)
{
    ctx.group("scripted", 8000, [&](Rng& r) {
        Tape tape;
        Options o = pick_opt(r);
        if (o.max_it < 2)
            o.max_it = 2;
        MockSpace S(&tape);
        const long s0 = S.space;
        MockParam P {&tape};
        const Options given = o;
        // the adaptor keeps its own options
        auto opt = std::make_unique<Options>(o);
        bsearch_adaptor<MockParam, MockSpace> A(P, S, *opt);
        opt->max_it = 1;
        opt->tol = 1e9;
        std::string log = cat("max_it=", o.max_it, " tol=", o.tol);
        uint64_t fp = vh::hashs(log);
        const int targets = int(r.i(1, 6));
        long centre = S.tok;
        double last = 0;
        for (int k = 0; k < targets; ++k)
        {
            tape.script.clear();
            tape.ev.clear();
            tape.queries = tape.updates = 0;
            const double pa = r.chance(0.5) ? 0.3 : 0.03;
            for (unsigned q = 0; q < given.max_it; ++q)
            {
                Answer a;
                a.accept = r.chance(pa);
                a.status = pick_status(r, 0.05);
                a.tsq = pick_tsq(r, given.tol);
                tape.script.push_back(a);
            }
            steady(r, tape.script, given.tol);
            tape.cap = long(given.max_it);
            // the same target again, whatever happened in between
            const double t = k > 0 && r.chance(0.3) ? last : r.u(-10, 10) * unit(r);
            last = t;
            if (r.chance(0.2))
            { // the oracle was told something else
                P.update(r.u(-10, 10));
                log += "\n (oracle told)";
            }
            if (r.chance(0.15))
            { // the caller moves the centre
                S.set_xc(Tok {centre = tape.nextTok++});
                log += "\n (centre set)";
            }
            if (r.chance(0.2))
            { // another adaptor uses the oracle, with the same target or another
                const double t2 = r.chance(0.5) ? t : r.u(-10, 10);
                const long keep = S.tok;
                MockSpace S2(&tape);
                bsearch_adaptor<MockParam, MockSpace> A2(P, S2, given);
                A2(t2);
                ctx.expect(S.tok == keep, "trace.other", "another adaptor moved the centre");
                log += cat("\n (other adaptor t=", t2, ")");
            }
            tape.ev.clear();
            tape.queries = tape.updates = 0;
            log += cat("\n t=", t);
            ctx.scenario(log);
            const bool ans = A(t);
            bool feas = false;
            long q = 0;
            while (q + 1 < long(given.max_it))
            {
                const Answer& a = tape.script[size_t(q)];
                ++q;
                if (a.accept)
                {
                    feas = true;
                    break;
                }
                if (a.status != CUTStatus::success || a.tsq < given.tol)
                    break;
            }
            ctx.expect(ans == feas, "answer", cat("answered ", ans, " want ", feas));
            ctx.expect(tape.queries == q, "queries", cat(tape.queries, " want ", q));
            // order of events
            bool told = false;
            long lasttok = -1, nset = 0;
            for (auto& e : tape.ev)
            {
                if (e.what == 'U')
                {
                    ctx.expect(!told && lasttok < 0 && e.t == t, "trace.target", "target told late, twice or wrong");
                    told = true;
                }
                if (e.what == 'q')
                {
                    ctx.expect(told, "trace.target", "queried before the target was told");
                    if (lasttok < 0)
                        ctx.expect(e.tok == centre, "trace.start", "first query not at the kept centre");
                    lasttok = e.tok;
                }
                if (e.what == 'u')
                    ctx.expect(e.space != s0, "trace.copy", "the original space was cut");
                if (e.what == 's' && e.space == s0)
                {
                    ++nset;
                    ctx.expect(feas && e.tok == lasttok, "trace.set", "centre set to another point than the accepted");
                }
            }
            ctx.expect(told, "trace.target", "the oracle was never told the target");
            if (feas)
                centre = lasttok;
            ctx.expect(S.tok == centre && A.x_best().id == centre, "best",
                cat("x_best ", A.x_best().id, " want ", centre));
            ctx.event(feas ? "accepted" : "refused");
            ctx.event("events", long(tape.ev.size()));
            fp = vh::mix(fp, uint64_t(q * 2 + feas));
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
    ctx.group("default-options", 30, [&](Rng& r) {
        Tape tape;
        tape.script.resize(2000);
        for (auto& a : tape.script)
            a.tsq = 1.5e-8;
        const long at = r.i(1, 1990);
        const bool acc = r.chance(0.5);
        if (acc)
            tape.script[size_t(at) - 1].accept = true;
        else
            tape.script[size_t(at) - 1].tsq = 0.9e-8;
        tape.cap = 2000;
        MockSpace S(&tape);
        MockParam P {&tape};
        bsearch_adaptor<MockParam, MockSpace> A(P, S);
        ctx.scenario(cat("default options, event at ", at, acc ? " accept" : " small"));
        ctx.expect(A(1.5) == acc, "answer", "wrong answer");
        ctx.expect(tape.queries == at, "queries", cat(tape.queries, " want ", at));
        ctx.nontrivial(vh::mix(uint64_t(at), acc));
    });
    ctx.group("balls", 250, [&](Rng& r) {
        const int n = int(r.i(2, 5));
        Balls B;
        std::vector<double> a, b, mid;
        for (int i = 0; i < n; ++i)
        {
            a.push_back(r.u(-3, 3));
            b.push_back(r.u(-3, 3));
            mid.push_back((a.back() + b.back()) / 2);
        }
        B.z = {a, b};
        double d = 0;
        for (int i = 0; i < n; ++i)
            d += (a[size_t(i)] - b[size_t(i)]) * (a[size_t(i)] - b[size_t(i)]);
        const double tstar = std::sqrt(d) / 2;
        ell S(400., arr(std::vector<double>(size_t(n), r.u(-1, 1))));
        const er::State s0 = er::probe(S);
        Options inner;
        inner.tol = 1e-16;
        Options outer;
        outer.tol = 1e-3;
        bsearch_adaptor<Balls, ell> A(B, S, inner);
        std::pair<double, double> I {0., 20.};
        ctx.scenario(cat("balls ", vh::vec(a), " ", vh::vec(b)));
        const CInfo info = bsearch(A, I, outer);
        ctx.expect(info.feasible && info.status == CUTStatus::smallenough, "bsearch", er::name(info.status));
        const er::State s1 = er::probe(S);
        ctx.expect(s1.P.a == s0.P.a, "shape", "the original space was cut");
        size_t k = 0;
        ctx.expect(B.worst(A.x_best(), k) <= I.second, "best", "x_best infeasible for the last accepted target");
        ctx.expect(I.second >= tstar * (1 - 1e-9), "below-optimum", cat(I.second, " < ", tstar));
        // inside the bracket, unless a thin feasible set was given up on
        ctx.expect(I.second <= tstar + 0.02, "above-optimum", cat(I.second, " > ", tstar));
        ctx.event("bisections", long(info.num_iters));
        ctx.nontrivial(vh::hashs(ctx.desc));
        ctx.sample(cat(ctx.desc, " -> ", I.second, " t*=", tstar));
    });
}
