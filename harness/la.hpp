// Small dense linear algebra in long double, for the reference models.
#pragma once
#include "vh.hpp"
#include <algorithm>

namespace la
{
using vh::LD;
using Vec = std::vector<LD>;
struct Mat
{
    int r = 0, c = 0;
    std::vector<LD> a;
    Mat() = default;
    Mat(int r_, int c_)
        : r {r_}
        , c {c_}
        , a(size_t(r_) * size_t(c_), 0.L)
    {
    }
    LD& operator()(int i, int j)
    {
        return a[size_t(i) * size_t(c) + size_t(j)];
    }
    const LD& operator()(int i, int j) const
    {
        return a[size_t(i) * size_t(c) + size_t(j)];
    }
    static Mat eye(int n)
    {
        Mat m(n, n);
        for (int i = 0; i < n; ++i)
            m(i, i) = 1;
        return m;
    }
};
inline Mat T(const Mat& A)
{
    Mat B(A.c, A.r);
    for (int i = 0; i < A.r; ++i)
        for (int j = 0; j < A.c; ++j)
            B(j, i) = A(i, j);
    return B;
}
inline Mat mul(const Mat& A, const Mat& B)
{
    Mat C(A.r, B.c);
    for (int i = 0; i < A.r; ++i)
        for (int k = 0; k < A.c; ++k)
        {
            LD v = A(i, k);
            for (int j = 0; j < B.c; ++j)
                C(i, j) += v * B(k, j);
        }
    return C;
}
inline Vec mul(const Mat& A, const Vec& x)
{
    Vec y(size_t(A.r), 0.L);
    for (int i = 0; i < A.r; ++i)
        for (int j = 0; j < A.c; ++j)
            y[size_t(i)] += A(i, j) * x[size_t(j)];
    return y;
}
inline LD dot(const Vec& a, const Vec& b)
{
    LD s = 0;
    for (size_t i = 0; i < a.size(); ++i)
        s += a[i] * b[i];
    return s;
}
inline LD norm(const Vec& a)
{
    return std::sqrt(dot(a, a));
}
inline LD maxabs(const Mat& A)
{
    LD m = 0;
    for (auto v : A.a)
        m = std::max(m, std::fabs(v));
    return m;
}
inline LD quad(const Mat& A, const Vec& x)
{
    return dot(x, mul(A, x));
}
inline bool finite(const Mat& A)
{
    for (auto v : A.a)
        if (!std::isfinite(v))
            return false;
    return true;
}
// lower Cholesky factor; false if not positive definite
inline bool chol(const Mat& A, Mat& L)
{
    const int n = A.r;
    L = Mat(n, n);
    for (int j = 0; j < n; ++j)
    {
        LD d = A(j, j);
        for (int k = 0; k < j; ++k)
            d -= L(j, k) * L(j, k);
        if (!(d > 0))
            return false;
        L(j, j) = std::sqrt(d);
        for (int i = j + 1; i < n; ++i)
        {
            LD s = A(i, j);
            for (int k = 0; k < j; ++k)
                s -= L(i, k) * L(j, k);
            L(i, j) = s / L(j, j);
        }
    }
    return true;
}
inline Vec fsub(const Mat& L, Vec b) // L y = b
{
    for (int i = 0; i < L.r; ++i)
    {
        for (int k = 0; k < i; ++k)
            b[size_t(i)] -= L(i, k) * b[size_t(k)];
        b[size_t(i)] /= L(i, i);
    }
    return b;
}
inline Vec bsub(const Mat& L, Vec b) // L' y = b
{
    for (int i = L.r - 1; i >= 0; --i)
    {
        for (int k = i + 1; k < L.r; ++k)
            b[size_t(i)] -= L(k, i) * b[size_t(k)];
        b[size_t(i)] /= L(i, i);
    }
    return b;
}
// L^-1 A L^-T
inline Mat whiten(const Mat& L, const Mat& A)
{
    const int n = A.r;
    Mat B(n, n);
    for (int j = 0; j < n; ++j)
    {
        Vec col(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
            col[size_t(i)] = A(i, j);
        col = fsub(L, col);
        for (int i = 0; i < n; ++i)
            B(i, j) = col[size_t(i)];
    }
    Mat C = T(B);
    for (int j = 0; j < n; ++j)
    {
        Vec col(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
            col[size_t(i)] = C(i, j);
        col = fsub(L, col);
        for (int i = 0; i < n; ++i)
            B(i, j) = col[size_t(i)];
    }
    return B;
}
// eigenvalues of a symmetric matrix (Jacobi), ascending; V columns if wanted
inline Vec eig(Mat A, Mat* Vout = nullptr)
{
    const int n = A.r;
    Mat V = Mat::eye(n);
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        LD off = 0, dia = 0;
        for (int i = 0; i < n; ++i)
        {
            dia += A(i, i) * A(i, i);
            for (int j = 0; j < i; ++j)
                off += A(i, j) * A(i, j);
        }
        if (!(off > 1e-38L * (dia + off)))
            break;
        for (int p = 0; p < n; ++p)
            for (int q = p + 1; q < n; ++q)
            {
                if (A(p, q) == 0)
                    continue;
                LD th = (A(q, q) - A(p, p)) / (2 * A(p, q));
                LD t = (th >= 0 ? 1.L : -1.L) /
                    (std::fabs(th) + std::sqrt(th * th + 1));
                LD c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < n; ++k)
                {
                    LD x = A(k, p), y = A(k, q);
                    A(k, p) = c * x - s * y;
                    A(k, q) = s * x + c * y;
                }
                for (int k = 0; k < n; ++k)
                {
                    LD x = A(p, k), y = A(q, k);
                    A(p, k) = c * x - s * y;
                    A(q, k) = s * x + c * y;
                }
                for (int k = 0; k < n; ++k)
                {
                    LD x = V(k, p), y = V(k, q);
                    V(k, p) = c * x - s * y;
                    V(k, q) = s * x + c * y;
                }
            }
    }
    std::vector<int> id(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i)
        id[size_t(i)] = i;
    std::sort(id.begin(), id.end(), [&](int x, int y) { return A(x, x) < A(y, y); });
    Vec e(static_cast<size_t>(n));
    if (Vout)
        *Vout = Mat(n, n);
    for (int i = 0; i < n; ++i)
    {
        e[size_t(i)] = A(id[size_t(i)], id[size_t(i)]);
        if (Vout)
            for (int k = 0; k < n; ++k)
                (*Vout)(k, i) = V(k, id[size_t(i)]);
    }
    return e;
}
} // namespace la
