// Reference model of the covariance fits, in long double.
#pragma once
#include "la.hpp"
#include <xtensor/xarray.hpp>

namespace lsq
{
using namespace la;
using vh::LD;
using vh::Rng;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

struct Fit
{
    int n = 0, m = 0;
    std::vector<Mat> F;
    Mat Y;
};
inline Mat of(const Arr& A)
{
    Mat M(int(A.shape()[0]), int(A.shape()[1]));
    for (int i = 0; i < M.r; ++i)
        for (int j = 0; j < M.c; ++j)
            M(i, j) = A(size_t(i), size_t(j));
    return M;
}
inline Mat comb(const Fit& P, const Vec& p)
{
    Mat S(P.n, P.n);
    for (int k = 0; k < P.m; ++k)
        for (size_t i = 0; i < S.a.size(); ++i)
            S.a[i] += p[size_t(k)] * P.F[size_t(k)].a[i];
    return S;
}
inline Mat axpy(LD a, const Mat& X, LD b, const Mat& Y)
{
    Mat S(X.r, X.c);
    for (size_t i = 0; i < S.a.size(); ++i)
        S.a[i] = a * X.a[i] + b * Y.a[i];
    return S;
}
enum Mode
{
    LSQ_PSD, // spectral norm, positive definite
    LSQ,     // spectral norm alone
    MLE      // likelihood, 0 < Sigma < 2Y
};
// admissibility margin: the smallest eigenvalue of the constraints
inline LD margin(const Fit& P, Mode mode, const Vec& p)
{
    if (mode == LSQ)
        return 1.;
    const Mat S = comb(P, p);
    LD e = eig(S)[0];
    if (mode == MLE)
        e = std::min(e, eig(axpy(2, P.Y, -1, S))[0]);
    return e;
}
inline LD spectral(const Fit& P, const Vec& p)
{
    const Vec e = eig(axpy(1, P.Y, -1, comb(P, p)));
    return std::max(std::fabs(e.front()), std::fabs(e.back()));
}
// value and subgradient of the objective, or of the violated constraint
inline LD value(const Fit& P, Mode mode, const Vec& p, Vec& g, bool& admissible)
{
    const int n = P.n;
    const Mat S = comb(P, p);
    Mat V;
    g.assign(size_t(P.m), 0.L);
    auto along = [&](int c, LD s) {
        Vec v(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
            v[size_t(i)] = V(i, c);
        for (int k = 0; k < P.m; ++k)
            g[size_t(k)] = s * quad(P.F[size_t(k)], v);
    };
    admissible = false;
    if (mode != LSQ)
    {
        const Vec e = eig(S, &V);
        if (!(e[0] > 0))
        {
            along(0, -1);
            return -e[0];
        }
    }
    if (mode == MLE)
    {
        const Vec e = eig(axpy(2, P.Y, -1, S), &V);
        if (!(e[0] > 0))
        {
            along(0, 1);
            return -e[0];
        }
        Mat L;
        if (!chol(S, L))
            return 0;
        const Mat W = whiten(L, P.Y);
        LD f = 0;
        for (int i = 0; i < n; ++i)
            f += 2 * std::log(L(i, i)) + W(i, i);
        for (int k = 0; k < P.m; ++k)
        {
            const Mat Z = whiten(L, P.F[size_t(k)]);
            LD s = 0;
            for (int i = 0; i < n; ++i)
            {
                s += Z(i, i);
                for (int j = 0; j < n; ++j)
                    s -= Z(i, j) * W(j, i);
            }
            g[size_t(k)] = s;
        }
        admissible = true;
        return f;
    }
    const Vec e = eig(axpy(1, S, -1, P.Y), &V);
    const int c = std::fabs(e[0]) > std::fabs(e[size_t(n - 1)]) ? 0 : n - 1;
    along(c, e[size_t(c)] < 0 ? -1 : 1);
    admissible = true;
    return std::fabs(e[size_t(c)]);
}
// an upper bound of the optimum that is close to it (ellipsoid method)
inline LD optimum(const Fit& P, Mode mode, Vec& best_p)
{
    const int m = P.m;
    Vec x(size_t(m), 0.L);
    x[0] = 4;
    Mat Q = Mat::eye(m);
    LD sc = 256;
    for (int i = 0; i < m; ++i, sc /= 40)
        Q(i, i) = sc;
    LD best = 1e99L, lower = -1e99L;
    for (int k = 0; k < 1200; ++k)
    {
        Vec g;
        bool ok = false;
        const LD f = value(P, mode, x, g, ok);
        const Vec Qg = mul(Q, g);
        const LD t = std::sqrt(dot(g, Qg));
        if (!(t > 0))
            break;
        if (ok)
        {
            if (f < best)
            {
                best = f;
                best_p = x;
            }
            lower = std::max(lower, f - t);
            if (best - lower < 1e-6L)
                break;
        }
        const LD al = ok ? (f - best) / t : f / t;
        if (al >= 1)
            break;
        const LD rho = (1 + m * al) / (m + 1), sg = 2 * (1 + m * al) / ((m + 1) * (1 + al));
        const LD de = LD(m) * m * (1 - al * al) / (LD(m) * m - 1);
        for (int i = 0; i < m; ++i)
            x[size_t(i)] -= rho * Qg[size_t(i)] / t;
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
                Q(i, j) = de * (Q(i, j) - sg * Qg[size_t(i)] * Qg[size_t(j)] / (t * t));
    }
    return best;
}

// random site sets and sample covariances
inline Arr sites(Rng& r, int& n)
{
    n = int(r.chance(0.03) ? r.i(10, 18) : r.i(3, 9));
    Arr s = xt::zeros<double>({size_t(n), size_t(2)});
    for (int i = 0; i < n; ++i)
    {
        s(size_t(i), 0) = r.u(0., 10.);
        s(size_t(i), 1) = r.u(0., 8.);
        for (int j = 0; j < i; ++j) // keep them apart
            if (std::hypot(s(size_t(i), 0) - s(size_t(j), 0), s(size_t(i), 1) - s(size_t(j), 1)) < 0.5)
            {
                --i;
                break;
            }
    }
    return s;
}
inline Arr covariance(Rng& r, const Arr& s)
{
    const int n = int(s.shape()[0]);
    const double c = r.u(0.2, 1.2), scale = r.logu(0.1, 2.);
    const int N = int(r.i(n + 2, 150));
    Mat K(n, n), L, W(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            K(i, j) = std::exp(-c * std::hypot(s(size_t(i), 0) - s(size_t(j), 0), s(size_t(i), 1) - s(size_t(j), 1)));
    if (!chol(K, L))
        throw vh::Skip {};
    for (int k = 0; k < N; ++k)
    {
        Vec z(size_t(n), 0.L), y(size_t(n), 0.L);
        for (auto& v : z)
            v = r.normal();
        for (int i = 0; i < n; ++i)
            for (int j = 0; j <= i; ++j)
                y[size_t(i)] += L(i, j) * z[size_t(j)];
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                W(i, j) += y[size_t(i)] * y[size_t(j)] * 4 * scale / N;
    }
    Arr Y = xt::zeros<double>({size_t(n), size_t(n)});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j)
            Y(size_t(i), size_t(j)) = Y(size_t(j), size_t(i)) = double(W(i, j));
    return Y;
}
inline LD dist(const Arr& s, int i, int j)
{
    LD d = 0;
    for (size_t c = 0; c < s.shape()[1]; ++c)
        d = std::hypot(d, LD(s(size_t(i), c)) - s(size_t(j), c));
    return d;
}
inline Fit fit(const Arr& s, const Arr& Y, int m)
{
    Fit P;
    P.n = int(s.shape()[0]);
    P.m = m;
    P.Y = of(Y);
    for (int k = 0; k < m; ++k)
    {
        Mat F(P.n, P.n);
        for (int i = 0; i < P.n; ++i)
            for (int j = 0; j < P.n; ++j)
            {
                const LD d = dist(s, i, j);
                LD v = 1;
                for (int e = 0; e < k; ++e)
                    v *= d;
                F(i, j) = v;
            }
        P.F.push_back(F);
    }
    return P;
}
inline std::string show(const Arr& A)
{
    std::string o = "[";
    for (size_t i = 0; i < A.shape()[0]; ++i)
    {
        o += "[";
        for (size_t j = 0; j < A.shape()[1]; ++j)
            o += vh::cat(j ? "," : "", A(i, j));
        o += "]";
    }
    return o + "]";
}
} // namespace lsq
