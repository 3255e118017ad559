// C12: LDL^T.  C13: LMI oracles.  C14: quadratic matrix inequality oracle.
#include "ellref.hpp"
#include <ellcpp/oracles/ldlt_ext.hpp>
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <optional>

using er::Arr;
using er::arr;
using la::Mat;
using la::Vec;
using vh::cat;
using vh::Ctx;
using vh::LD;
using vh::Rng;

namespace
{
Arr toarr(const Mat& A)
{
    Arr x = xt::zeros<double>({size_t(A.r), size_t(A.c)});
    for (int i = 0; i < A.r; ++i)
        for (int j = 0; j < A.c; ++j)
            x(i, j) = double(A(i, j));
    return x;
}
std::string mstr(const Mat& A)
{
    std::string s = "[";
    for (int i = 0; i < A.r; ++i)
    {
        s += i ? ";" : "";
        for (int j = 0; j < A.c; ++j)
            s += cat(j ? " " : "", double(A(i, j)));
    }
    return s + "]";
}
void roundd(Mat& A)
{
    for (auto& x : A.a)
        x = double(x);
}
// data in other units: powers of two, so that exact cases stay exact
LD unit(Rng& r, int lim = 100)
{
    if (!r.chance(0.3))
        return 1;
    return std::ldexp(1.L, int(r.chance(0.5) ? r.i(-20, 20) : r.i(-lim, lim)));
}
void scaleby(Mat& A, LD s)
{
    for (auto& x : A.a)
        x *= s;
}
Mat sym_int(Rng& r, int n, int64_t k)
{
    Mat A(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j)
            A(i, j) = A(j, i) = LD(r.i(-k, k));
    return A;
}
// the pivots until the first non-positive one; margin = how far the decision
// is from a rounding tie, relative to the matrix
struct Pivots
{
    bool pd = true;
    int stop = 0; // index of the first non-positive pivot + 1
    LD margin = 1e30L, last = 0;
};
Pivots pivots(const Mat& A)
{
    const int n = A.r;
    Pivots p;
    Mat L(n, n);
    Vec d(static_cast<size_t>(n));
    const LD scale = la::maxabs(A) + 1e-300L;
    for (int i = 0; i < n; ++i)
    {
        for (int j = 0; j < i; ++j)
        {
            LD s = A(i, j);
            for (int k = 0; k < j; ++k)
                s -= L(i, k) * L(j, k) * d[size_t(k)];
            L(i, j) = s / d[size_t(j)];
        }
        LD s = A(i, i);
        for (int k = 0; k < i; ++k)
            s -= L(i, k) * L(i, k) * d[size_t(k)];
        d[size_t(i)] = s;
        p.margin = std::min(p.margin, std::fabs(s) / scale);
        p.last = s;
        if (!(s > 0))
        {
            p.pd = false;
            p.stop = i + 1;
            return p;
        }
    }
    return p;
}
Vec masked(const ldlt_ext& Q, int n)
{
    Vec v(size_t(n), 0.L);
    for (size_t i = Q.p.first; i < Q.p.second && i < size_t(n); ++i)
        v[i] = Q.v(i);
    return v;
}
// after a factorization that failed: witness and quadratic form
void certificate(Ctx& ctx, Rng& r, ldlt_ext& Q, const Mat& A, bool exact, bool semidef = false)
{
    const int n = A.r;
    ctx.expect(Q.p.first < Q.p.second && Q.p.second <= size_t(n), "range",
        cat("failed range ", Q.p.first, "..", Q.p.second));
    if (!(Q.p.first < Q.p.second && Q.p.second <= size_t(n)))
        return;
    const double ep = Q.witness();
    const Vec v = masked(Q, n);
    const LD vv = la::dot(v, v);
    ctx.event("witnesses");
    ctx.expect(vv > 0 && std::isfinite(vv), "witness-zero", "witness vector vanishes");
    const LD q = la::quad(A, v);
    LD mag = 0; // magnitude of the terms summed
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            mag += std::fabs(A(i, j) * v[size_t(i)] * v[size_t(j)]);
    const LD tol = exact ? 0 : 1e-9L * mag + 1e-12L * std::fabs(LD(ep));
    ctx.expect(std::fabs(q + ep) <= tol, "witness-value",
        cat("v'Av = ", double(q), " but -ep = ", -ep, " v=", vh::vec(v)));
    ctx.expect(semidef ? ep > 0 : ep >= 0, "witness-sign", cat("ep = ", ep));
    for (int k = 0; k < 3; ++k)
    {
        Mat B = exact ? sym_int(r, n, 9) : Mat(n, n);
        if (!exact)
            for (int i = 0; i < n; ++i)
                for (int j = 0; j <= i; ++j)
                    B(i, j) = B(j, i) = LD(r.normal());
        const double s = Q.sym_quad(toarr(B));
        const LD w = la::quad(B, v);
        LD m2 = 0;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                m2 += std::fabs(LD(double(B(i, j))) * v[size_t(i)] * v[size_t(j)]);
        if (!exact)
        {
            Mat Bd = B;
            roundd(Bd);
            ctx.expect(std::fabs(la::quad(Bd, v) - s) <= 1e-12L * m2 * n, "sym_quad",
                cat("sym_quad = ", s, " v'Bv = ", double(w)));
        }
        else
            ctx.expect(w == s, "sym_quad", cat("sym_quad = ", s, " v'Bv = ", double(w)));
        ctx.event("quadratic-forms");
    }
}
void squareroot(Ctx& ctx, ldlt_ext& Q, const Mat& A)
{
    const int n = A.r;
    const Arr R = Q.sqrt();
    const LD sc = la::maxabs(A);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            if (j < i)
                ctx.expect(R(i, j) == 0, "sqrt", "not upper triangular");
            LD s = 0;
            for (int k = 0; k < n; ++k)
                s += LD(R(k, i)) * R(k, j);
            ctx.expect(std::fabs(s - A(i, j)) <= 1e-10L * sc * n, "sqrt",
                cat("(R'R)(", i, ",", j, ") = ", double(s), " want ", double(A(i, j))));
        }
    ctx.event("square-roots");
}
// factor through a monitored entry function
bool factor(Ctx& ctx, ldlt_ext& Q, const Mat& A)
{
    const size_t n = size_t(A.r);
    size_t row = 0;
    bool order = true, range = true;
    size_t maxrow = 0;
    long calls = 0;
    auto getA = [&](size_t i, size_t j) -> double {
        ++calls;
        if (i >= n || j > i)
        {
            range = false;
            return i < n && j < n ? double(A(int(i), int(j))) : 0.;
        }
        if (i < row)
            order = false;
        row = std::max(row, i);
        maxrow = std::max(maxrow, i);
        return double(A(int(i), int(j)));
    };
    const bool ok = Q.factor(getA);
    ctx.expect(range, "access-range", "asked for an entry outside the lower triangle");
    ctx.expect(order, "access-order", "entries not requested row by row");
    ctx.expect(ok == Q.is_spd(), "is_spd", "factor and is_spd disagree");
    if (!ok && n > 0)
        ctx.expect(maxrow + 1 <= Q.p.second, "access-lazy", "rows beyond the failing one were requested");
    ctx.event("entries", calls);
    return ok;
}
} // namespace

VH_PROPERTY(C12)
{
    auto exact_case = [&](Rng& r, int n, Mat& A, int& first_bad) {
        Mat L(n, n);
        Vec d(static_cast<size_t>(n));
        first_bad = -1;
        const bool pd = r.chance(0.4);
        for (int i = 0; i < n; ++i)
        {
            L(i, i) = 1;
            for (int j = 0; j < i; ++j)
                L(i, j) = n < 9 ? LD(r.i(-3, 3)) : r.chance(0.3) ? LD(r.i(-1, 1)) : 0; // exact either way
            d[size_t(i)] = LD(r.i(1, 9));
            if (!pd && r.chance(1.5 / n))
                d[size_t(i)] = LD(r.i(-4, 0));
            if (first_bad < 0 && d[size_t(i)] <= 0)
                first_bad = i;
        }
        A = Mat(n, n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                for (int k = 0; k <= std::min(i, j); ++k)
                    A(i, j) += L(i, k) * L(j, k) * d[size_t(k)];
        scaleby(A, unit(r));
    };
    ctx.group("exact", 4000, [&](Rng& r) {
        const int n = r.chance(0.04) ? int(r.i(9, 24)) : int(r.i(1, 8));
        ldlt_ext Q {size_t(n)};
        std::string log;
        uint64_t fp = 0;
        const int seq = int(r.i(1, 5)); // one object, several matrices
        for (int k = 0; k < seq; ++k)
        {
            Mat A;
            int bad;
            exact_case(r, n, A, bad);
            log += (k ? "\n" : "") + mstr(A);
            ctx.scenario(log);
            const bool viaM = r.chance(0.3);
            const bool ok = viaM ? Q.factorize(toarr(A)) : factor(ctx, Q, A);
            ctx.event(ok ? "exact.pd" : "exact.notpd");
            ctx.expect(ok == (bad < 0), "verdict", cat("answered ", ok, ", first bad pivot ", bad));
            if (ok == (bad < 0))
            {
                if (!ok)
                    certificate(ctx, r, Q, A, true);
                else
                    squareroot(ctx, Q, A);
                ldlt_ext Q2 {size_t(n)};
                ctx.expect(Q2.factorize(toarr(A)) == ok && Q2.p == Q.p, "reuse",
                    "a fresh object answers differently");
            }
            fp = vh::mix(fp, vh::hashs(mstr(A)));
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
    ctx.group("float", 4000, [&](Rng& r) {
        const int n = r.chance(0.1) ? int(r.i(10, r.chance(0.05) ? 64 : 30)) : int(r.i(1, 9));
        ldlt_ext Q {size_t(n)};
        std::string log;
        const int seq = int(r.i(1, 4));
        uint64_t fp = 0;
        for (int k = 0; k < seq; ++k)
        {
            Mat A(n, n);
            const int rank = int(r.i(1, n + 3));
            const double sc = r.logu(1e-3, 1e3) * double(unit(r));
            for (int q = 0; q < rank; ++q)
            {
                Vec w(static_cast<size_t>(n));
                for (auto& x : w)
                    x = r.normal();
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j)
                        A(i, j) += sc * w[size_t(i)] * w[size_t(j)];
            }
            const double shift = sc * (r.chance(0.5) ? r.u(-1., 1.) * n : r.logu(1e-6, 1));
            for (int i = 0; i < n; ++i)
                A(i, i) += shift;
            roundd(A);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < i; ++j)
                    A(j, i) = A(i, j);
            log += (k ? "\n" : "") + mstr(A);
            ctx.scenario(log);
            fp = vh::mix(fp, vh::hashs(mstr(A)));
            const Pivots p = pivots(A);
            const bool ok = r.chance(0.3) ? Q.factorize(toarr(A)) : factor(ctx, Q, A);
            if (p.margin < 1e-8L)
                continue; // a rounding tie
            ctx.event(ok ? "float.pd" : "float.notpd");
            if (!ctx.expect(ok == p.pd, "verdict", cat("answered ", ok, ", smallest relative pivot ", double(p.margin))))
                continue;
            const Vec ev = la::eig(A);
            if (std::fabs(ev.front()) > 1e-7L * la::maxabs(A))
                ctx.expect(ok == (ev.front() > 0), "verdict-eig", cat("answered ", ok, ", least eigenvalue ", double(ev.front())));
            if (!ok)
                certificate(ctx, r, Q, A, false);
            else
                squareroot(ctx, Q, A);
        }
        ctx.nontrivial(fp);
        ctx.sample(log);
    });
    // semidefinite mode
    ctx.group("semidefinite", 2500, [&](Rng& r) {
        const int n = r.chance(0.05) ? int(r.i(7, 20)) : int(r.i(1, 6));
        ldlt_ext Q {size_t(n)}; // one object, several matrices
        std::string log;
        for (int64_t seq = r.i(1, 4); seq > 0; --seq)
        {
        Mat A(n, n);
        Mat L(n, n);
        Vec d(static_cast<size_t>(n));
        bool psd = true;
        const double pneg = r.chance(0.6) ? 0. : 0.3;
        for (int i = 0; i < n; ++i)
        {
            L(i, i) = 1;
            for (int j = 0; j < i; ++j)
                L(i, j) = n < 7 ? LD(r.i(-2, 2)) : r.chance(0.3) ? LD(r.i(-1, 1)) : 0;
            d[size_t(i)] = r.chance(0.35) ? 0 : LD(r.i(1, 5));
            if (r.chance(pneg))
                d[size_t(i)] = LD(r.i(-3, -1));
            psd = psd && d[size_t(i)] >= 0;
        }
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                for (int k = 0; k <= std::min(i, j); ++k)
                    A(i, j) += L(i, k) * L(j, k) * d[size_t(k)];
        scaleby(A, unit(r));
        auto getA = [&](size_t i, size_t j) -> double { return double(A(int(i), int(j))); };
        const bool ok = Q.factor<decltype(getA)&, true>(getA);
        log += "\nsemidefinite " + mstr(A);
        ctx.scenario(log);
        ctx.event(cat("semidefinite.", psd ? "psd." : "indefinite.", ok ? "accepted" : "rejected"));
        ctx.nontrivial(vh::hashs(ctx.desc));
        // columns up to a zero pivot are forgotten, after which the arithmetic
        // is not exact any more: sharp claims only while it is
        int zero = n, neg = n;
        for (int i = n - 1; i >= 0; --i)
        {
            if (d[size_t(i)] == 0)
                zero = i;
            if (d[size_t(i)] < 0)
                neg = i;
        }
        const bool sharp = zero >= n - 2 || neg < zero;
        if (psd && sharp)
            ctx.expect(ok, "semidefinite-refused", "a positive semidefinite matrix was refused");
        if (ok)
        {
            if (!psd)
                ctx.fail(zero < neg ? "semidefinite-forgets-zero-pivot" : "semidefinite-accepted",
                "an indefinite matrix was accepted");
        }
        else
            certificate(ctx, r, Q, A, sharp, true);
        if (r.chance(0.25))
        { // the ordinary mode in between
            Mat B;
            int bad;
            exact_case(r, n, B, bad);
            log += "\n" + mstr(B);
            ctx.scenario(log);
            const bool got = Q.factorize(toarr(B));
            ctx.expect(got == (bad < 0), "verdict", cat("answered ", got, ", first bad pivot ", bad));
            if (!got && bad >= 0)
                certificate(ctx, r, Q, B, true);
        }
        }
    });
}

// ---------------------------------------------------------------- C13
namespace
{
Mat rnd_sym(Rng& r, int n, bool ints)
{
    Mat A(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j)
            A(i, j) = A(j, i) = ints ? LD(r.i(-3, 3)) : LD(r.normal());
    return A;
}
Mat comb(const Mat* B, const std::vector<Mat>& F, const std::vector<double>& x, LD sign)
{
    Mat A(F[0].r, F[0].c);
    if (B)
        A = *B;
    for (size_t k = 0; k < F.size(); ++k)
        for (size_t i = 0; i < A.a.size(); ++i)
            A.a[i] += sign * F[k].a[i] * x[k];
    return A;
}
LD inner(const Mat& A, const Mat& B)
{
    LD s = 0;
    for (size_t i = 0; i < A.a.size(); ++i)
        s += A.a[i] * B.a[i];
    return s;
}
} // namespace

VH_PROPERTY(C13)
{
    using Cut = std::optional<std::tuple<Arr, double>>;
    // form 0: lmi, 1: lmi_old, 2: lmi0
    auto run = [&](Rng& r, int form, int n, int m) {
        const bool ints = r.chance(0.3);
        std::vector<Mat> F;
        for (int k = 0; k < m; ++k)
            F.push_back(rnd_sym(r, n, ints));
        Mat B = rnd_sym(r, n, ints);
        for (int i = 0; i < n; ++i)
            B(i, i) += LD(r.i(0, 2 * n));
        // inequalities that fail at a late row only
        const int late = r.chance(n > 6 ? 0.7 : 0.2) ? int(r.i(0, n)) : 0;
        for (int i = 0; i < late; ++i)
            (form == 2 ? F[0] : B)(i, i) += 4 * n;
        // a point that is feasible, when there is one around
        if (form == 2 && r.chance(0.5))
            for (int i = 0; i < n; ++i)
                F[0](i, i) += 2 * n;
        // other units, of the whole inequality and of each variable
        const LD us = unit(r, 60);
        std::vector<LD> uk;
        for (auto& f : F)
        {
            uk.push_back(unit(r, 60));
            roundd(f);
            scaleby(f, us * uk.back());
        }
        roundd(B);
        scaleby(B, us);
        const LD sign = form == 2 ? 1 : -1;
        const Mat* Bp = form == 2 ? nullptr : &B;
        // plain basis, and the basis extended by unit matrices that reveal v v'
        std::vector<Arr> fp, fx;
        for (auto& f : F)
            fp.push_back(toarr(f));
        fx = fp;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j <= i; ++j)
            {
                Arr e = xt::zeros<double>({size_t(n), size_t(n)});
                e(i, j) = 1;
                e(j, i) = 1;
                fx.push_back(e);
            }
        const size_t mx = fx.size();
        std::optional<lmi_oracle> l1, l1x;
        std::optional<lmi_old_oracle> l2, l2x;
        std::optional<lmi0_oracle> l0, l0x;
        auto build = [&] {
            if (form == 0)
            {
                l1.emplace(fp, toarr(B));
                l1x.emplace(fx, toarr(B));
            }
            else if (form == 1)
            {
                l2.emplace(fp, toarr(B));
                l2x.emplace(fx, toarr(B));
            }
            else
            {
                l0.emplace(fp);
                l0x.emplace(fx);
            }
        };
        build();
        auto ask = [&](const Arr& x, bool ext) -> Cut {
            if (form == 0)
                return ext ? (*l1x)(x) : (*l1)(x);
            if (form == 1)
                return ext ? (*l2x)(x) : (*l2)(x);
            return ext ? (*l0x)(x) : (*l0)(x);
        };
        std::string log = cat("form ", form, " n=", n, " m=", m, form == 2 ? "" : " B=" + mstr(B));
        for (auto& f : F)
            log += " F=" + mstr(f);
        uint64_t fpnt = vh::hashs(log);
        std::vector<std::vector<double>> feas;
        // a query history
        for (int q = 0; q < 8; ++q)
        {
            std::vector<double> x;
            const double sc = r.chance(0.5) ? 0.2 : r.logu(0.05, 20);
            for (int k = 0; k < m; ++k)
                x.push_back(ints && r.chance(0.5) ? double(r.i(-3, 3)) : sc * r.normal());
            if (form == 2 && r.chance(0.4))
                x[0] = r.u(0.5, 3);
            if (r.chance(0.1))
                std::fill(x.begin(), x.end(), 0.);
            if (r.chance(0.2))
                for (auto& v : x)
                    v = r.chance(0.4) ? 0. : v;
            for (size_t k = 0; k < x.size(); ++k)
                x[k] = double(x[k] / uk[k]);
            ctx.scenario(log + "\n x=" + vh::vec(x));
            const Mat A = comb(Bp, F, x, sign);
            const Pivots p = pivots(A);
            const Cut c = ask(arr(x), false);
            std::vector<double> xx = x;
            xx.resize(mx, 0.);
            const Cut cx = ask(arr(xx), true);
            const bool pd = !c;
            fpnt = vh::mix(fpnt, uint64_t(pd));
            if (p.margin > 1e-9L)
            {
                ctx.event(pd ? "accepted" : "cut");
                if (!ctx.expect(pd == p.pd, "verdict",
                        cat("answered ", pd ? "feasible" : "cut", ", smallest relative pivot ", double(p.margin))))
                    continue;
            }
            if (!ctx.expect(bool(c) == bool(cx), "extended", "unit matrices with zero weight changed the answer"))
                continue;
            if (pd)
            {
                if (p.pd && p.margin > 1e-9L)
                    feas.push_back(x);
                continue;
            }
            const auto& [g, ep] = *c;
            const auto& [gx, epx] = *cx;
            ctx.expect(ep >= 0, "cut-sign", cat("beta = ", ep, ": the queried point is not cut"));
            if (!ctx.expect(int(g.size()) == m && gx.size() == mx, "cut-size", "gradient of the wrong length"))
                continue;
            // V = v v'
            Mat V(n, n);
            size_t at = size_t(m);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j <= i; ++j, ++at)
                {
                    const LD val = (form == 2 ? -1 : 1) * LD(gx(at)) / (i == j ? 1 : 2);
                    V(i, j) = V(j, i) = val;
                }
            LD tr = 0;
            for (int i = 0; i < n; ++i)
                tr += V(i, i);
            if (!ctx.expect(tr > 0 && std::isfinite(tr), "certificate", cat("v'v = ", double(tr))))
                continue;
            const LD tv = 1e-10L * tr;
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    if (!(std::fabs(V(i, j) * V(i, j) - V(i, i) * V(j, j)) <= tv * tr) || !(V(i, i) >= -tv))
                    {
                        ctx.fail("certificate", "the gradient is not the form of one vector");
                        i = j = n;
                    }
            const LD mag = tr * (la::maxabs(A) + 1e-30L * us) * n;
            ctx.expect(std::fabs(inner(V, A) + ep) <= 1e-8L * mag, "cut-value",
                cat("beta = ", ep, " but -v'F(x)v = ", -double(inner(V, A))));
            for (int k = 0; k < m; ++k)
            {
                const LD want = (form == 2 ? -1 : 1) * inner(V, F[size_t(k)]);
                const LD tol = 1e-9L * tr * (la::maxabs(F[size_t(k)]) * n + us * uk[size_t(k)]);
                ctx.expect(std::fabs(g(k) - want) <= tol, "cut-gradient",
                    cat("g[", k, "] = ", g(k), " want ", double(want)));
                ctx.expect(std::fabs(g(k) - gx(k)) <= tol, "extended", "gradient changed by unit matrices");
            }
            // no feasible point is cut off
            for (auto& z : feas)
            {
                LD s = ep, ms = std::fabs(LD(ep));
                for (int k = 0; k < m; ++k)
                {
                    s += LD(g(k)) * (LD(z[size_t(k)]) - x[size_t(k)]);
                    ms += std::fabs(LD(g(k))) * (std::fabs(LD(z[size_t(k)])) + std::fabs(LD(x[size_t(k)])));
                }
                ctx.event("feasible-point-checks");
                ctx.expect(s <= 1e-10L * ms, "cut-off", cat("a feasible point is cut off by ", double(s)));
            }
            // a fresh oracle answers the same
            if (q == 7 || r.chance(0.1))
            {
                const Arr g0 = g;
                const double e0 = ep;
                build();
                const Cut f = ask(arr(x), false);
                if (ctx.expect(bool(f), "history", "a fresh oracle accepts what a used one cut"))
                    ctx.expect(std::get<1>(*f) == e0 && std::get<0>(*f) == g0, "history",
                        "a fresh oracle cuts differently");
                ctx.event("fresh-comparisons");
            }
            // lazy and dense variants agree
            if (form == 0 && p.margin > 1e-9L)
            {
                lmi_old_oracle D(fp, toarr(B));
                const Cut d = D(arr(x));
                if (ctx.expect(bool(d), "lazy-dense", "the dense variant accepts"))
                {
                    ctx.expect(std::fabs(std::get<1>(*d) - ep) <= 1e-7L * (mag + std::fabs(LD(ep))), "lazy-dense", "other value");
                    for (int k = 0; k < m; ++k)
                        ctx.expect(std::fabs(std::get<0>(*d)(k) - g(k)) <=
                                1e-6L * (tr * (la::maxabs(F[size_t(k)]) * n + us * uk[size_t(k)])),
                            "lazy-dense", "other gradient");
                }
                ctx.event("lazy-dense-comparisons");
            }
        }
        ctx.nontrivial(fpnt);
        ctx.sample(log);
    };
    ctx.group("lmi", 1500, [&](Rng& r) { const int n = int(r.i(1, 6)); run(r, 0, n, int(r.i(1, 5))); });
    ctx.group("lmi_old", 1000, [&](Rng& r) { const int n = int(r.i(1, 6)); run(r, 1, n, int(r.i(1, 5))); });
    ctx.group("lmi0", 1500, [&](Rng& r) { const int n = int(r.i(1, 6)); run(r, 2, n, int(r.i(1, 5))); });
    ctx.group("large", 150, [&](Rng& r) { const int n = int(r.i(7, 16)); run(r, int(r.i(0, 2)), n, int(r.i(1, 9))); });
    ctx.group("very-large", 10, [&](Rng& r) { const int n = int(r.i(17, 45)); run(r, int(r.i(0, 2)), n, int(r.i(1, 24))); });
}

// ---------------------------------------------------------------- C14
VH_PROPERTY(C14)
{
    using Cut = std::optional<std::tuple<Arr, double>>;
    auto run = [&](Rng& r, int n, int m, int nx) {
        auto rnd = [&] {
            Mat A(n, m);
            for (auto& a : A.a)
                a = double(r.normal());
            return A;
        };
        std::vector<Mat> F;
        for (int k = 0; k < nx; ++k)
            F.push_back(rnd());
        Mat F0 = rnd();
        if (r.chance(m > 6 ? 0.7 : 0.2))
        { // the larger columns come late
            const int late = int(r.i(0, m - 1));
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                {
                    for (auto& f : F)
                        f(i, j) = double(f(i, j) * (j < late ? 0.1L : 1.L));
                    F0(i, j) = double(F0(i, j) * (j < late ? 0.1L : 1.L));
                }
        }
        // other units, of the matrix and of each variable
        const LD us = unit(r, 60);
        std::vector<LD> uk;
        for (auto& f : F)
        {
            uk.push_back(unit(r, 60));
            scaleby(f, us * uk.back());
        }
        scaleby(F0, us);
        std::vector<Arr> fp, fx;
        for (auto& f : F)
            fp.push_back(toarr(f));
        fx = fp;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < m; ++j)
            {
                Arr e = xt::zeros<double>({size_t(n), size_t(m)});
                e(i, j) = 1;
                fx.push_back(e);
            }
        const size_t mx = fx.size();
        qmi_oracle Q(fp, toarr(F0));
        qmi_oracle X(fx, toarr(F0));
        std::string log = cat("n=", n, " m=", m, " F0=", mstr(F0));
        for (auto& f : F)
            log += " F=" + mstr(f);
        double t = 0;
        uint64_t fpnt = vh::hashs(log);
        std::vector<std::pair<std::vector<double>, LD>> seen; // points and lambda_max
        for (int q = 0; q < 8; ++q)
        {
            std::vector<double> x;
            const double sc = r.logu(0.05, 3);
            const double pz = r.chance(0.2) ? 0.4 : 0.;
            for (int k = 0; k < nx; ++k)
                x.push_back(r.chance(pz) ? 0. : double(sc * r.normal() / uk[size_t(k)]));
            if (!seen.empty() && r.chance(0.2)) // the same point again, or only one coordinate changed
            {
                const double y = x[0] * double(uk[0]);
                x = seen[size_t(r.next() % seen.size())].first;
                if (r.chance(0.5))
                {
                    const auto at = size_t(r.i(0, nx - 1));
                    x[at] = double(y / uk[at]);
                }
            }
            const Mat Fx = comb(&F0, F, x, -1);
            const Mat G = la::mul(la::T(Fx), Fx);
            const LD lmax = la::eig(G).back();
            if (q == 0 || r.chance(0.7))
            {
                const double u = r.u();
                t = u < 0.1 ? r.u(0, 0.1) * double(us * us) : u < 0.8 ? double(lmax) * r.u(0.3, 1.6) : r.logu(0.1, 100) * double(us * us);
                Q.update(t);
                X.update(t);
            }
            log += cat("\n t=", t, " x=", vh::vec(x));
            ctx.scenario(log);
            Mat A(m, m);
            for (int i = 0; i < m; ++i)
                for (int j = 0; j < m; ++j)
                    A(i, j) = (i == j ? LD(t) : 0) - G(i, j);
            const Pivots p = pivots(A);
            const Cut c = Q(arr(x));
            std::vector<double> xx = x;
            xx.resize(mx, 0.);
            const Cut cx = X(arr(xx));
            const bool ok = !c;
            fpnt = vh::mix(fpnt, uint64_t(ok));
            seen.push_back({x, lmax});
            if (p.margin > 1e-9L)
            {
                ctx.event(ok ? "accepted" : "cut");
                if (!ctx.expect(ok == p.pd, "verdict", cat("answered ", ok ? "feasible" : "cut", " lambda_max=", double(lmax), " t=", t)))
                    continue;
            }
            if (!ctx.expect(bool(c) == bool(cx), "extended", "unit matrices with zero weight changed the answer"))
                continue;
            if (ok)
                continue;
            const auto& [g, ep] = *c;
            const auto& [gx, epx] = *cx;
            ctx.expect(ep >= 0, "cut-sign", cat("beta = ", ep));
            if (!ctx.expect(int(g.size()) == nx && gx.size() == mx, "cut-size", "gradient of the wrong length"))
                continue;
            // M = (F v) v'
            Mat M(n, m);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                    M(i, j) = -LD(gx(size_t(nx + i * m + j))) / 2;
            LD fr = 0;
            int bi = 0;
            LD bn = -1;
            for (int i = 0; i < n; ++i)
            {
                LD s = 0;
                for (int j = 0; j < m; ++j)
                    s += M(i, j) * M(i, j);
                fr += s;
                if (s > bn)
                {
                    bn = s;
                    bi = i;
                }
            }
            fr = std::sqrt(fr);
            if (!ctx.expect(fr > 0 && std::isfinite(fr), "certificate", "no direction in the gradient"))
                continue;
            Vec u(static_cast<size_t>(m));
            for (int j = 0; j < m; ++j)
                u[size_t(j)] = M(bi, j) / std::sqrt(bn);
            const Vec Fu = la::mul(Fx, u);
            const LD nf = la::norm(Fu);
            if (!ctx.expect(nf > 0, "certificate", "F(x)v vanishes"))
                continue;
            const LD s2 = fr / nf; // v'v
            const LD scl = s2 * (nf + 1e-9L * us);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                    if (!(std::fabs(M(i, j) - s2 * Fu[size_t(i)] * u[size_t(j)]) <= 1e-8L * (scl + s2 * la::maxabs(Fx))))
                    {
                        ctx.fail("certificate", cat("not the gradient of one form: M=", mstr(M), " F(x)=", mstr(Fx)));
                        i = n;
                        break;
                    }
            const LD val = s2 * (nf * nf - t);
            ctx.expect(std::fabs(val - ep) <= 1e-7L * s2 * (nf * nf + std::fabs(LD(t)) + la::maxabs(G)), "cut-value",
                cat("beta = ", ep, " but v'F'Fv - t v'v = ", double(val)));
            for (int k = 0; k < nx; ++k)
            {
                const LD want = -2 * s2 * la::dot(Fu, la::mul(F[size_t(k)], u));
                ctx.expect(std::fabs(want - g(k)) <= 1e-7L * s2 * (la::maxabs(Fx) * la::maxabs(F[size_t(k)]) * n * m + 1e-9L * us * us * uk[size_t(k)]),
                    "cut-gradient", cat("g[", k, "] = ", g(k), " want ", double(want)));
            }
            // no point feasible for this t is cut off
            for (int k = 0; k < 6; ++k)
            {
                std::vector<double> z;
                LD lz;
                if (k < 3 && !seen.empty())
                {
                    auto& e = seen[size_t(r.next() % seen.size())];
                    z = e.first;
                    lz = e.second;
                }
                else
                {
                    for (int j = 0; j < nx; ++j)
                        z.push_back(double(r.normal() * sc / uk[size_t(j)]));
                    const Mat Fz = comb(&F0, F, z, -1);
                    lz = la::eig(la::mul(la::T(Fz), Fz)).back();
                }
                if (!(lz < t))
                    continue;
                LD s = ep, ms = std::fabs(LD(ep));
                for (int j = 0; j < nx; ++j)
                {
                    s += LD(g(j)) * (LD(z[size_t(j)]) - x[size_t(j)]);
                    ms += std::fabs(LD(g(j))) * (std::fabs(LD(z[size_t(j)])) + std::fabs(LD(x[size_t(j)])));
                }
                ctx.event("feasible-point-checks");
                ctx.expect(s <= 1e-10L * ms, "cut-off", cat("a feasible point is cut off by ", double(s)));
            }
            if (r.chance(0.2))
            {
                qmi_oracle W(fp, toarr(F0));
                W.update(t);
                const Cut f = W(arr(x));
                if (ctx.expect(bool(f), "history", "a fresh oracle accepts what a used one cut"))
                    ctx.expect(std::get<1>(*f) == ep && std::get<0>(*f) == g, "history", "a fresh oracle cuts differently");
                ctx.event("fresh-comparisons");
            }
        }
        ctx.nontrivial(fpnt);
        ctx.sample(log);
    };
    ctx.group("qmi", 3000, [&](Rng& r) {
        const int n = int(r.i(1, 6)), m = int(r.i(1, 6));
        run(r, n, m, int(r.i(1, 5)));
    });
    ctx.group("large", 200, [&](Rng& r) {
        const int n = int(r.i(1, 12)), m = int(r.i(5, 12));
        run(r, n, m, int(r.i(1, 7)));
    });
    ctx.group("very-large", 10, [&](Rng& r) {
        const int n = int(r.i(1, 40)), m = int(r.i(13, 40));
        run(r, n, m, int(r.i(1, 24)));
    });
}
