// Workload generator for search spaces: starts and cuts of every kind.
#pragma once
#include "ellref.hpp"
#include <ellcpp/ell_stable.hpp>

namespace eg
{
using er::Arr;
using vh::Rng;

// A space whose outside uses other units than its inside: lengths inside are
// `len` times and gradients `grad` times those outside.  Both are powers of two,
// so every conversion is exact and the space should behave the same.
template <typename Space>
struct Scaled : Space
{
    double len = 1, grad = 1;
    Scaled(Space&& S, double l, double g)
        : Space(std::move(S))
        , len {l}
        , grad {g}
    {
    }
    Scaled(Scaled&&) = default;
    Scaled copy() const { return Scaled(Space::copy(), len, grad); }
    double in(double b) const
    {
        return std::fabs(b) >= 1e299 ? b : b * len * grad;
    }
    Arr in(Arr b) const
    {
        for (auto& v : b)
            v = in(v);
        return b;
    }
    template <typename T>
    auto update(const std::tuple<Arr, T>& cut)
    {
        const auto r = Space::update(std::tuple<Arr, T>(
            Arr(std::get<0>(cut) * grad), in(std::get<1>(cut))));
        return std::make_tuple(std::get<0>(r), std::get<1>(r) / len / grad / len / grad);
    }
    Arr xc() const { return Space::xc() / len; }
    void set_xc(const Arr& x) { Space::set_xc(x * len); }
    void units(double l) { len *= l; } // the outside changes its unit
};

struct Start
{
    std::vector<double> xc;
    bool scalar = true;
    double alpha = 1;
    std::vector<double> diag;
    int lexp = 0, gexp = 0; // units used inside
    template <typename Space>
    Space make() const
    {
        return make(static_cast<Space*>(nullptr));
    }
    template <typename Space>
    Space make(Space*, double l = 1.) const
    {
        if (scalar)
            return Space(alpha * l * l, Arr(er::arr(xc) * l));
        return Space(Arr(er::arr(diag) * (l * l)), Arr(er::arr(xc) * l));
    }
    template <typename Space>
    Scaled<Space> make(Scaled<Space>*) const
    {
        // (with the recorded defect of ell_stable its step depends on the
        // unit of lengths, unless that unit is in the scalar factor alone)
        const bool keep = std::is_same<Space, ell_stable>::value && !scalar;
        const double l = keep ? 1. : std::ldexp(1., lexp);
        return Scaled<Space>(make(static_cast<Space*>(nullptr), l), l, std::ldexp(1., gexp));
    }
    std::string str() const
    {
        return (lexp != 0 || gexp != 0 ? vh::cat("[lengths*2^", lexp, ", gradients*2^", gexp, "]") : std::string()) + str0();
    }
    std::string str0() const
    {
        return scalar ? vh::cat("(", alpha, ",", vh::vec(xc), ")")
                      : vh::cat("(", vh::vec(diag), ",", vh::vec(xc), ")");
    }
};

inline Start start(Rng& r, int n)
{
    Start s;
    for (int i = 0; i < n; ++i)
        s.xc.push_back(r.chance(0.3) ? double(r.i(-3, 3)) : 3 * r.normal());
    s.scalar = r.chance(0.5);
    if (s.scalar)
        s.alpha = r.chance(0.3) ? double(1 << r.i(0, 6)) : r.logu(0.01, 1000);
    else
        for (int i = 0; i < n; ++i)
            s.diag.push_back(
                r.chance(0.3) ? double(r.i(1, 16)) : r.logu(0.05, 50));
    if (r.chance(0.3))
    {
        const double u = r.u();
        const int e = u < 0.5 ? 20 : u < 0.85 ? 120 : 200;
        s.lexp = int(r.i(-e, e));
        s.gexp = e == 200 || r.chance(0.5) ? 0 : int(r.i(-e, e));
    }
    return s;
}
inline int dim(Rng& r)
{
    const double u = r.u();
    if (u < 0.3)
        return 2;
    if (u < 0.5)
        return 3;
    if (u < 0.95)
        return int(r.i(4, 7));
    return int(r.i(8, 12));
}

enum Kind
{
    central,
    deep,
    shallow,
    empty1,
    noeffect1,
    par_deep,      // 0 < b0 < b1
    par_shallow,   // b0 < 0 < b1
    par_other,     // b0 < b1 <= 0
    par_central,   // b0 == 0 < b1
    par_sym,       // b0 == -b1
    par_zero1,     // b0 < 0, b1 == 0
    par_flat0,     // b0 == b1 == 0
    par_far,       // b1 beyond the ellipsoid
    par_crossed,   // b1 < b0
    par_noeffect,
    par_outside,   // b0 < -tau: first face outside
    par_missed,    // b1 < -tau: slab misses the ellipsoid
    NKINDS
};
inline const char* kname(int k)
{
    static const char* n[] = {"central", "deep", "shallow", "empty", "noeffect",
        "par_deep", "par_shallow", "par_other", "par_central", "par_sym",
        "par_zero1", "par_flat0", "par_far", "par_crossed", "par_noeffect",
        "par_outside", "par_missed"};
    return n[k];
}

struct Cut
{
    int kind = central;
    std::vector<double> g;
    bool par = false; // two faces
    bool arr1 = false; // one face, given as an array
    double b0 = 0, b1 = 0;
    std::string str() const
    {
        return vh::cat(kname(kind), arr1 ? "[1]" : "", " g=", vh::vec(g),
            " b0=", b0, par ? vh::cat(" b1=", b1) : std::string());
    }
};

inline std::vector<double> gradient(Rng& r, int n)
{
    std::vector<double> g(static_cast<size_t>(n));
    const double u = r.u();
    if (u < 0.15)
        g[size_t(r.i(0, n - 1))] = r.chance(0.5) ? 1 : -1;
    else if (u < 0.35)
    {
        bool nz = false;
        while (!nz)
            for (auto& x : g)
            {
                x = double(r.i(-2, 2));
                nz = nz || x != 0;
            }
    }
    else
    {
        const double sc = r.chance(0.3) ? r.logu(1e-3, 1e3) : 1.;
        for (auto& x : g)
            x = sc * r.normal();
    }
    return g;
}

// tau: sqrt(g'Pg) of the space the cut is for
inline Cut cut(Rng& r, int n, const std::function<double(const Arr&)>& tau_of,
    const std::vector<int>& kinds, double lim = 0.9)
{
    Cut c;
    c.kind = kinds[size_t(r.next() % kinds.size())];
    c.g = gradient(r, n);
    const double tau = tau_of(er::arr(c.g));
    double a = 0, b = 0;
    c.par = c.kind >= par_deep;
    // the second face cuts off next to nothing
    const bool grazing = r.chance(0.15);
    const double graze = 1. - r.logu(1e-4, 0.02);
    switch (c.kind)
    {
        case central: break;
        case deep: a = r.chance(0.2) ? r.logu(1e-10, 1e-2) : lim > 0.85 && r.chance(0.06) ? 1 - r.logu(1e-7, 0.1) : r.u(0.001, lim); break;
        case shallow: a = -(r.chance(0.2) ? r.logu(1e-10, 1e-2) : lim > 0.85 && r.chance(0.1) ? 1 - r.logu(1e-7, 0.03) : r.u(0.001, 0.97)) / n; break;
        case empty1: a = r.chance(0.3) ? 1 + r.logu(1e-8, 1e-4) : r.chance(0.5) ? r.u(1.0001, 1.1) : r.logu(1.1, 1e4); break;
        case noeffect1: a = -(1. / n) * (r.chance(0.2) ? 1 + r.logu(1e-7, 1e-3) : r.chance(0.5) ? r.u(1.001, 1.1) : r.u(1.1, 3. * n)); break;
        case par_deep:
            a = r.chance(0.15) ? r.logu(1e-10, 1e-3) : r.u(0.001, 0.8);
            b = a + (0.98 - a) * r.u(0.02, 1.);
            if (grazing)
                b = graze;
            break;
        case par_shallow:
            b = grazing ? graze : r.u(0.02, 0.98);
            a = -(r.chance(0.15) ? r.logu(1e-10, 1e-3) : r.u(0.001, 0.97)) / (n * b);
            if (a < -0.95)
                a = -0.95 * r.u(0.1, 1.);
            break;
        case par_other:
            b = -r.u(0.001, 0.9);
            a = b - (0.98 + b) * r.u(0.05, 1.);
            break;
        case par_central: b = grazing ? graze : r.u(0.02, 0.98); break;
        case par_sym:
            b = (r.chance(0.3) ? r.u(0.01, 0.1) : r.u(0.02, 0.97)) / std::sqrt(double(n));
            break;
        case par_zero1: a = -r.u(0.02, 0.98); break;
        case par_flat0: break;
        case par_far:
            a = r.u(-0.9 / n, 0.9);
            b = r.chance(0.5) ? r.u(1.0001, 1.5) : r.logu(1.5, 1e6);
            break;
        case par_crossed:
            b = r.u(-0.98, 0.97);
            a = b + (r.chance(0.2) ? r.logu(1e-9, 1e-3) : r.chance(0.6) ? r.u(0.001, 0.5) : r.u(0.5, 3.));
            if (r.chance(0.15)) // one face exactly through the centre
            {
                a = 0;
                b = -r.u(0.001, 0.97);
            }
            else if (r.chance(0.1))
            {
                b = 0;
                a = r.u(0.001, 1.5);
            }
            break;
        case par_noeffect:
            b = r.u(1.05 / n, 0.98);
            a = -1. / (n * b) * (1 + r.u(0.01, 1.));
            if (a < -0.99)
            {
                a = -0.99;
                b = r.u(1.02 / (n * 0.99), 0.99);
                if (b >= 1)
                    b = 0.99;
            }
            break;
        case par_outside:
            a = -r.u(1.01, 5.);
            b = r.u(-0.9, 0.95);
            break;
        case par_missed:
            b = -r.u(1.01, 3.);
            a = b - r.u(0.01, 2.);
            break;
    }
    c.b0 = a * tau;
    c.b1 = b * tau;
    if (c.kind == par_sym)
        c.b0 = -c.b1;
    if (!c.par && r.chance(0.15))
        c.arr1 = true;
    return c;
}

template <typename Space>
auto apply(Space& S, const Cut& c)
{
    if (c.par)
        return S.update(std::make_tuple(er::arr(c.g), Arr {c.b0, c.b1}));
    if (c.arr1)
        return S.update(std::make_tuple(er::arr(c.g), Arr {c.b0}));
    return S.update(std::make_tuple(er::arr(c.g), c.b0));
}
inline la::Vec lvec(const std::vector<double>& v)
{
    return la::Vec(v.begin(), v.end());
}
} // namespace eg
