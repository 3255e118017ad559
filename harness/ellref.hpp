// Observation of a search space through its public interface, and the
// reference model of the ellipsoid method.
#pragma once
#include "la.hpp"
#include <ellcpp/cut_config.hpp>
#include <tuple>
#include <xtensor/xarray.hpp>

namespace er
{
using vh::LD;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

inline Arr arr(const std::vector<double>& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i)
        a(i) = v[i];
    return a;
}
inline std::vector<double> dvec(const Arr& a)
{
    std::vector<double> v;
    for (size_t i = 0; i < a.size(); ++i)
        v.push_back(a.data()[i]);
    return v;
}

struct State
{
    int n = 0;
    la::Vec c; // centre
    la::Mat P; // {x : (x-c)' P^-1 (x-c) <= 1}
};

// tau^2 of a gradient, by a cut that certainly leaves nothing, on a copy
template <typename Space>
double tsq_of(const Space& S, const Arr& g)
{
    auto E = S.copy();
    const auto r = E.update(std::make_tuple(Arr {g}, 1e300));
    return std::get<1>(r);
}

// the represented ellipsoid, by polarization of tau^2
template <typename Space>
State probe(const Space& S)
{
    State st;
    const Arr x = S.xc();
    st.n = int(x.size());
    const int n = st.n;
    for (int i = 0; i < n; ++i)
        st.c.push_back(x.data()[i]);
    st.P = la::Mat(n, n);
    Arr g = xt::zeros<double>({size_t(n)});
    for (int i = 0; i < n; ++i)
    {
        g(i) = 1;
        st.P(i, i) = tsq_of(S, g);
        g(i) = 0;
    }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
        {
            g(i) = 1;
            g(j) = 1;
            const LD s = tsq_of(S, g);
            g(j) = -1;
            const LD d = tsq_of(S, g);
            g(i) = 0;
            g(j) = 0;
            st.P(i, j) = st.P(j, i) = (s - d) / 4;
        }
    return st;
}

// The smallest ellipsoid around {||u|| <= 1, l <= s <= h} (s = first
// coordinate), -1 <= l <= h <= 1, n >= 2:   centre s0, squared half-axis R
// across and R/k along s.  It is a member of the pencil
//      ||u||^2 - 1 + (k-1)(s-l)(s-h) <= 0,   k >= 1,
// and k minimizes  n*log R(k) - log k,
//      R(k) = 1 + l*h - 2m^2 + k d^2 + m^2/k,  m = (l+h)/2, d = (h-l)/2.
struct MinEll
{
    LD s0 = 0, R = 1, invk = 1;
    bool noeffect = false;
    LD margin = 0; // > 0 if the cut has an effect: 1 + n*l*h
};
inline MinEll min_ellipsoid(int n, LD l, LD h)
{
    MinEll e;
    const LD m = (l + h) / 2, d2 = (h - l) * (h - l) / 4, N = n;
    e.margin = 1 + N * l * h;
    if (e.margin <= 0)
    {
        e.noeffect = true;
        return e;
    }
    const LD A = 1 + l * h - 2 * m * m;
    // (n-1) d2 k^2 - A k - (n+1) m^2 = 0; solved for 1/k without cancellation:
    // (n+1) m^2 q^2 + A q - (n-1) d2 = 0
    const LD disc = std::sqrt(A * A + 4 * (N * N - 1) * d2 * m * m);
    LD q;
    if (A >= 0)
        q = 2 * (N - 1) * d2 / (A + disc);
    else
        q = (-A + disc) / (2 * (N + 1) * m * m);
    e.invk = q;
    e.s0 = (1 - q) * m;
    const LD kd2 = (A >= 0) ? (A + disc) / (2 * (N - 1)) : d2 / q;
    e.R = A + kd2 + m * m * q;
    return e;
}
inline LD logvol(int n, LD R, LD invk)
{
    return n * std::log(R) / 2 + std::log(invk) / 2;
}
// independent minimization over the pencil, to check min_ellipsoid itself
inline LD search_logvol(int n, LD l, LD h)
{
    const LD m = (l + h) / 2, d2 = (h - l) * (h - l) / 4;
    auto f = [&](LD t) { // t = log k
        const LD k = std::exp(t);
        return n * std::log(1 + l * h - 2 * m * m + k * d2 + m * m / k) / 2 -
            t / 2;
    };
    LD a = 0, b = 60;
    for (int it = 0; it < 300; ++it)
    {
        const LD x = a + (b - a) * 0.381966L, y = a + (b - a) * 0.618034L;
        if (f(x) < f(y))
            b = y;
        else
            a = x;
    }
    return f((a + b) / 2);
}

enum class Verdict
{
    success,
    nosoln,
    noeffect,
    either
};

struct Expect
{
    Verdict verdict = Verdict::success;
    bool check_min = true; // minimality is claimed
    LD tau = 0, l = -1, h = 1;
    MinEll me;
    State next;
};

// what a cut (b0 [, b1]) must do to the ellipsoid `st`
inline Expect expect_cut(const State& st, const la::Vec& g, LD b0,
    const LD* b1p, LD tie = 1e-9L)
{
    Expect e;
    const int n = st.n;
    const la::Vec Pg = la::mul(st.P, g);
    const LD tau = std::sqrt(la::dot(g, Pg));
    e.tau = tau;
    const LD a = b0 / tau;
    bool single = true;
    LD c = 1;
    if (b1p != nullptr)
    {
        c = *b1p / tau;
        single = std::fabs(c) >= 1;
    }
    auto near = [&](LD x, LD y) { return std::fabs(x - y) <= tie; };
    if (b1p && near(std::fabs(c), 1))
        e.verdict = Verdict::either;
    if (single)
    {
        if (b1p && c <= -1)
        { // the slab misses the ellipsoid: nothing to lose
            e.verdict = Verdict::either;
            e.check_min = false;
        }
        e.l = -1;
        e.h = -a;
        if (near(a, 1) || near(n * a, -1))
            e.verdict = Verdict::either;
        else if (a > 1)
        {
            if (e.verdict != Verdict::either)
                e.verdict = Verdict::nosoln;
            return e;
        }
    }
    else
    {
        if (a > c || near(a, c))
        {
            e.verdict = near(a, c) ? Verdict::either : Verdict::nosoln;
            if (a > c)
            {
                e.check_min = false;
                return e;
            }
        }
        e.l = -c;
        e.h = -a;
        if (a < -1)
        {
            e.check_min = false;
            e.verdict = Verdict::either;
        }
        if (near(n * a * c, -1))
            e.verdict = Verdict::either;
    }
    const LD h = std::min<LD>(e.h, 1), l = std::max<LD>(e.l, -1);
    if (l > h)
    {
        e.check_min = false;
        return e;
    }
    e.me = min_ellipsoid(n, l, h);
    if (e.me.noeffect)
    {
        if (e.verdict == Verdict::success)
            e.verdict = Verdict::noeffect;
        e.next = st;
        return e;
    }
    e.next.n = n;
    e.next.c = st.c;
    e.next.P = la::Mat(n, n);
    for (int i = 0; i < n; ++i)
    {
        e.next.c[size_t(i)] += e.me.s0 * Pg[size_t(i)] / tau;
        for (int j = 0; j < n; ++j)
            e.next.P(i, j) = e.me.R *
                (st.P(i, j) -
                    (1 - e.me.invk) * (Pg[size_t(i)] / tau) *
                        (Pg[size_t(j)] / tau));
    }
    return e;
}

inline const char* name(CUTStatus s)
{
    switch (s)
    {
        case CUTStatus::success: return "success";
        case CUTStatus::nosoln: return "nosoln";
        case CUTStatus::smallenough: return "smallenough";
        case CUTStatus::noeffect: return "noeffect";
    }
    return "?";
}

// distances in the metric of `st`: centre and shape
struct Dist
{
    LD centre = 0, shape = 0;
};
inline Dist distance(const la::Mat& L, const State& x, const State& y)
{
    Dist d;
    la::Vec dc(x.c.size());
    for (size_t i = 0; i < dc.size(); ++i)
        dc[i] = x.c[i] - y.c[i];
    d.centre = la::norm(la::fsub(L, dc));
    la::Mat D(x.n, x.n);
    for (size_t i = 0; i < D.a.size(); ++i)
        D.a[i] = x.P.a[i] - y.P.a[i];
    d.shape = la::maxabs(la::whiten(L, D));
    return d;
}
inline bool finite(const State& s)
{
    for (auto v : s.c)
        if (!std::isfinite(v))
            return false;
    return la::finite(s.P);
}
inline bool same(const State& x, const State& y)
{
    return x.c == y.c && x.P.a == y.P.a;
}
} // namespace er
