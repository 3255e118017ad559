// C24: every computation is a function of its own inputs. Jobs drive one
// object each and hash every result bit; a job's digest must not depend on
// what else runs before, in between, inside its callbacks, or in other threads.
#include "ellgen.hpp"
#include "vh.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/ldlt_ext.hpp>
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <ellip/gp_solve.hpp>
#include <ellip/posynomial.hpp>
#include <ellip/profitmaxprob.hpp>
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <py2cpp/py2cpp.hpp>
#include <xnetwork/classes/digraphs.hpp>

#include <atomic>
#include <malloc.h>
#include <memory>
#include <thread>

using namespace vh;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

extern Arr create_2d_sites(size_t, size_t);
extern Arr create_2d_isotropic(const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> lsq_corr_poly2(const Arr&, const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> lsq_corr_poly(const Arr&, const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> mle_corr_poly(const Arr&, const Arr&, size_t);
extern auto to_csd(double num, int places) noexcept -> std::string;
extern auto to_csdfixed(double num, unsigned int nnz) noexcept -> std::string;
extern auto to_decimal(std::string_view csd_str) noexcept -> double;

namespace
{
thread_local double profit_price = 20.;
}
template <>
profit_max<double>::profit_max()
    : gp_base<double>()
    , p {profit_price}
    , alpha {0.1}
    , beta {0.4}
    , v1 {10.}
    , v2 {35.}
    , k {40.}
    , A {40.}
    , cd(3)
{
    gp_setup();
}
template <>
profit_max<double>::~profit_max()
{
}
namespace
{
uint64_t hd(uint64_t h, double d)
{
    return d != d ? mix(h, 0x7ff8) : hashd(h, d);
}
uint64_t ha(uint64_t h, const Arr& a)
{
    h = mix(h, a.size() * 31 + a.dimension());
    for (auto v : a)
        h = hd(h, v);
    return h;
}
Arr rarr(Rng& r, size_t n, double s = 1)
{
    Arr a = xt::zeros<double>({n});
    for (size_t i = 0; i < n; ++i)
        a(i) = s * r.normal();
    return a;
}
Arr rmat(Rng& r, size_t n, size_t m, double s = 1)
{
    Arr a = xt::zeros<double>({n, m});
    for (auto& v : a)
        v = s * r.normal();
    return a;
}
Arr rsym(Rng& r, size_t n, double shift = 0)
{
    Arr a = rmat(r, n, n);
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < i; ++j)
            a(i, j) = a(j, i);
        a(i, i) += shift;
    }
    return a;
}

struct Job
{
    Rng r;
    uint64_t h = 7;
    int left;
    std::function<void()> inside; // called from within callbacks
    explicit Job(Rng q, int steps)
        : r(q)
        , left(steps)
    {
    }
    Job(const Job& o)
        : r(o.r)
        , h(o.h)
        , left(o.left)
    {
    }
    virtual ~Job() = default;
    bool step()
    {
        if (left <= 0)
            return false;
        --left;
        work();
        return left > 0;
    }
    void finish()
    {
        while (step())
            ;
    }
    virtual void work() = 0;
    virtual std::unique_ptr<Job> clone() const
    {
        return nullptr;
    }
    void reenter()
    {
        if (inside)
            inside();
    }
};

// ------------------------------------------------------------ search spaces
template <typename Space>
struct SpaceJob : Job
{
    int n;
    Space S;
    SpaceJob(Rng q)
        : Job(q, 0)
        , n(eg::dim(r))
        , S(eg::start(r, n).template make<Space>())
    {
        left = int(r.i(5, 25));
        S.use_parallel_cut = r.chance(0.8);
        S.no_defer_trick = r.chance(0.4);
    }
    SpaceJob(const SpaceJob& o, int how)
        : Job(o)
        , n(o.n)
        , S(how ? o.S.copy() : Space(o.S))
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<SpaceJob>(*this, int(left % 2));
    }
    void work() override
    {
        auto tau = [&](const Arr& g) {
            auto T = S.copy();
            const auto [st, tsq] = T.update(std::make_tuple(g, 0.));
            return std::sqrt(std::fabs(tsq));
        };
        static const std::vector<int> kinds {eg::central, eg::deep, eg::shallow, eg::empty1, eg::noeffect1, eg::par_deep,
            eg::par_shallow, eg::par_central, eg::par_sym, eg::par_far, eg::par_crossed, eg::par_noeffect};
        const auto c = eg::cut(r, n, tau, kinds, 0.6);
        const auto [st, tsq] = eg::apply(S, c);
        h = hd(mix(h, uint64_t(st)), tsq);
        if (r.chance(0.1))
        {
            Arr x = S.xc();
            x(0) += 0.5;
            S.set_xc(x);
        }
        h = ha(h, S.xc());
    }
};
struct Ell1dJob : Job
{
    ell1d S;
    Ell1dJob(Rng q)
        : Job(q, 20)
        , S(-r.logu(0.1, 100), r.logu(0.1, 100))
    {
    }
    Ell1dJob(const Ell1dJob& o)
        : Job(o)
        , S(o.S)
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<Ell1dJob>(*this);
    }
    void work() override
    {
        const double g = (r.chance(0.5) ? 1 : -1) * r.logu(0.1, 10);
        ell1d T(S);
        const double tau = std::sqrt(std::get<1>(T.update(std::make_tuple(g, 0.))));
        const auto [st, tsq] = S.update(std::make_tuple(g, r.chance(0.3) ? 0. : tau * r.u(-1.2, 1.1)));
        h = hd(hd(mix(h, uint64_t(st)), tsq), S.xc());
    }
};

// ------------------------------------------------------------ drivers
struct Halfspaces
{
    std::vector<Arr> a;
    std::vector<double> b;
    Job* job;
    std::optional<std::tuple<Arr, double>> operator()(const Arr& x)
    {
        job->reenter();
        for (size_t k = 0; k < a.size(); ++k)
        {
            const double v = xt::sum(a[k] * x)() - b[k];
            if (v > 0)
                return std::tuple<Arr, double> {a[k], v};
        }
        return {};
    }
    template <typename T>
    void update(const T& t)
    {
        b[0] = double(t);
    }
};
struct DriverJob : Job
{
    DriverJob(Rng q)
        : Job(q, 5)
    {
    }
    void work() override
    {
        const size_t n = size_t(r.i(2, 5));
        Halfspaces H;
        H.job = this;
        const Arr c = rarr(r, n);
        const double rad = r.chance(0.8) ? 0.2 : -0.2;
        for (int64_t k = r.i(2, 8); k > 0; --k)
        {
            H.a.push_back(rarr(r, n));
            H.b.push_back(xt::sum(H.a.back() * c)() + rad);
        }
        Options opt;
        opt.max_it = unsigned(r.i(1, 60));
        opt.tol = r.logu(1e-9, 1e-4);
        const bool stable = r.chance(0.3);
        const double size = r.u(2, 40);
        const Arr x0 = rarr(r, n);
        auto hinfo = [&](const CInfo& i) { h = mix(mix(mix(h, i.feasible), i.num_iters), uint64_t(i.status)); };
        auto go = [&](auto S) {
            switch (r.i(0, 4))
            {
                case 0:
                    hinfo(cutting_plane_feas(H, S, opt));
                    break;
                case 1:
                {
                    double t = 1e100;
                    const Arr goal = rarr(r, n, 2);
                    auto quad = [&](const Arr& x, double& tt) {
                        reenter();
                        const Arr d = x - goal;
                        const double f = xt::sum(d * d)();
                        std::tuple<Arr, double> cut {Arr(2 * d), f - tt};
                        if (f < tt)
                        {
                            tt = f;
                            std::get<1>(cut) = 0;
                            return std::tuple {cut, true};
                        }
                        return std::tuple {cut, false};
                    };
                    const auto [x, info] = cutting_plane_dc(quad, S, t, opt);
                    hinfo(info);
                    h = hd(ha(h, x), t);
                    break;
                }
                case 2:
                {
                    double t = 1e100;
                    const Arr goal = rarr(r, n, 2);
                    auto quad = [&](const Arr& x, double& tt, bool retry) {
                        reenter();
                        Arr y = xt::round(x);
                        if (retry)
                            y(0) += 1;
                        const Arr d = y - goal, g = 2 * (x - goal);
                        const double f = xt::sum(d * d)();
                        std::tuple<Arr, double> cut {g, 0.};
                        const bool better = f < tt;
                        if (better)
                            tt = f;
                        else
                            std::get<1>(cut) = -0.01 * (f - tt);
                        return std::tuple<std::tuple<Arr, double>, Arr, bool, bool> {cut, y, better, !retry};
                    };
                    const auto [x, info] = cutting_plane_q(quad, S, t, opt);
                    hinfo(info);
                    h = hd(ha(h, x), t);
                    break;
                }
                case 3:
                {
                    bsearch_adaptor<Halfspaces, decltype(S)> B(H, S, opt);
                    Options o2;
                    o2.tol = 1e-3;
                    std::pair<double, double> I {H.b[0] - 5., H.b[0] + 5.};
                    hinfo(bsearch(B, I, o2));
                    h = ha(hd(h, I.second), B.x_best());
                    break;
                }
                default:
                {
                    const double th = r.u(-3, 3);
                    auto less = [&](double t) {
                        reenter();
                        return t >= th;
                    };
                    std::pair<double, double> I {-4., 4.};
                    hinfo(bsearch(less, I, opt));
                    h = hd(h, I.second);
                }
            }
            h = ha(h, S.xc());
        };
        if (stable)
            go(ell_stable(size, x0));
        else
            go(ell(size, x0));
    }
};

// ------------------------------------------------------------ oracles
struct MatrixJob : Job
{
    int form;
    size_t n, m;
    std::vector<Arr> F;
    std::unique_ptr<lmi_oracle> l;
    std::unique_ptr<lmi_old_oracle> lo;
    std::unique_ptr<lmi0_oracle> l0;
    std::unique_ptr<qmi_oracle> q;
    std::unique_ptr<ldlt_ext> Q;
    MatrixJob(Rng qq)
        : Job(qq, 15)
        , form(int(r.i(0, 4)))
        , n(size_t(r.i(1, 5)))
        , m(size_t(r.i(1, 4)))
    {
        const size_t cols = size_t(r.i(1, 4));
        for (size_t k = 0; k < m; ++k)
            F.push_back(form == 3 ? rmat(r, n, cols) : rsym(r, n, form == 2 && k == 0 ? 3 : 0));
        if (form == 0)
            l = std::make_unique<lmi_oracle>(F, rsym(r, n, 3));
        else if (form == 1)
            lo = std::make_unique<lmi_old_oracle>(F, rsym(r, n, 3));
        else if (form == 2)
            l0 = std::make_unique<lmi0_oracle>(F);
        else if (form == 3)
        {
            q = std::make_unique<qmi_oracle>(F, rmat(r, n, cols));
            q->update(r.u(0.5, 5));
        }
        else
            Q = std::make_unique<ldlt_ext>(n);
    }
    void work() override
    {
        if (Q)
        {
            const bool ok = Q->factorize(rsym(r, n, r.u(-1, 5)));
            h = mix(h, ok);
            if (ok)
            {
                h = ha(h, Q->sqrt());
                return;
            }
            h = hd(h, Q->witness());
            h = hd(h, Q->sym_quad(rsym(r, n)));
            return;
        }
        const Arr x = rarr(r, m, r.logu(0.1, 2));
        if (q && r.chance(0.3))
            q->update(r.u(0.5, 5));
        const auto c = l ? (*l)(x) : lo ? (*lo)(x) : l0 ? (*l0)(x) : (*q)(x);
        h = mix(h, bool(c));
        if (c)
            h = hd(ha(h, std::get<0>(*c)), std::get<1>(*c));
    }
};
struct LowpassJob : Job
{
    struct Data
    {
        Arr Ap, As, An;
    };
    size_t n;
    std::shared_ptr<Data> d;
    lowpass_oracle P;
    double t = 3;
    static std::shared_ptr<Data> data(Rng& r, size_t n)
    {
        auto d = std::make_shared<Data>();
        d->Ap = rmat(r, size_t(r.i(1, 5)), n);
        d->As = rmat(r, size_t(r.i(1, 5)), n);
        d->An = rmat(r, size_t(r.i(0, 5)), n);
        return d;
    }
    LowpassJob(Rng q)
        : Job(q, 30)
        , n(size_t(r.i(2, 5)))
        , d(data(r, n))
        , P(d->Ap, d->As, d->An, -1., 2.)
    {
    }
    LowpassJob(const LowpassJob&) = default;
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<LowpassJob>(*this);
    }
    void work() override
    {
        Arr x = rarr(r, n, 0.4);
        if (r.chance(0.8))
            x(0) = std::fabs(x(0));
        const auto [cut, shrunk] = P(x, t);
        h = hd(mix(ha(ha(h, std::get<0>(cut)), std::get<1>(cut)), shrunk), t);
        if (r.chance(0.2))
            t = r.u(0.5, 3);
    }
};
struct ProfitJob : Job
{
    int kind;
    profit_oracle P;
    profit_rb_oracle R;
    profit_q_oracle Q;
    double t = 0;
    Arr old;
    bool last = false;
    static Arr pair(Rng& r, double lo, double hi)
    {
        Arr a {r.u(lo, hi), r.u(lo, hi)};
        return a;
    }
    struct In
    {
        double p, A, k, e3;
        Arr a, v, e;
        In(Rng& r)
            : p(r.u(10, 40))
            , A(r.u(10, 60))
            , k(r.u(10, 60))
            , e3(r.u(0, 1))
            , a(pair(r, 0.05, 0.45))
            , v(pair(r, 2, 30))
            , e(pair(r, 0, 0.01))
        {
        }
    };
    ProfitJob(Rng q, const In& in)
        : Job(q, 20)
        , kind(int(r.i(0, 2)))
        , P(in.p, in.A, in.k, in.a, in.v)
        , R(in.p, in.A, in.k, in.a, in.v, in.e, in.e3)
        , Q(in.p, in.A, in.k, in.a, in.v)
    {
    }
    ProfitJob(const ProfitJob& o)
        : Job(o)
        , kind(o.kind)
        , P(o.P)
        , R(o.R)
        , Q(o.Q)
        , t(o.t)
        , old(o.old)
        , last(o.last)
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<ProfitJob>(*this);
    }
    void cut(const std::tuple<Arr, double>& c)
    {
        h = hd(ha(h, std::get<0>(c)), std::get<1>(c));
    }
    void work() override
    {
        const Arr y = pair(r, -1, 5);
        bool shrunk = false;
        if (kind == 0)
        {
            const auto [c, s] = P(y, t);
            cut(c);
            shrunk = s;
        }
        else if (kind == 1)
        {
            const auto [c, s] = R(y, t);
            cut(c);
            shrunk = s;
        }
        else
        {
            const bool retry = last && r.chance(0.3);
            const auto [c, x, s, more] = Q(retry ? old : y, t, retry);
            cut(c);
            h = mix(ha(h, x), more);
            shrunk = s;
            old = y;
            last = true;
        }
        h = hd(mix(h, shrunk), t);
    }
};

// ------------------------------------------------------------ networks
using graph_t = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property,
    boost::property<boost::edge_index_t, size_t>>;
using Ad = xn::grAdaptor<graph_t>;

struct Net
{
    Ad g;
    int n;
    std::vector<std::pair<int, int>> e;
    size_t id(const Ad::edge_t& k) const
    {
        return boost::get(boost::edge_index, static_cast<const graph_t&>(g), k);
    }
};
std::vector<std::pair<int, int>> redges(Rng& r, int n, bool loops)
{
    std::vector<std::pair<int, int>> e;
    for (int v = 0; v < n; ++v)
        e.push_back({v, (v + 1) % n});
    for (int64_t k = r.i(0, 2 * n); k > 0; --k)
    {
        const int u = int(r.i(0, n - 1)), v = int(r.i(0, n - 1));
        if (loops || u != v)
            e.push_back({u, v});
    }
    return e;
}
Net net(Rng& r, bool loops)
{
    const int n = int(r.i(2, 8));
    auto e = redges(r, n, loops);
    graph_t g {size_t(n)};
    for (size_t k = 0; k < e.size(); ++k)
        boost::add_edge(size_t(e[k].first), size_t(e[k].second), k, g);
    return Net {Ad(std::move(g)), n, e};
}
struct CycleJob : Job
{
    Net N;
    negCycleFinder<Ad> S;
    std::vector<double> dist;
    CycleJob(Rng q)
        : Job(q, 8)
        , N(net(r, true))
        , S(N.g)
        , dist(size_t(N.n), 0.)
    {
    }
    void work() override
    {
        std::vector<double> w;
        for (size_t k = 0; k < N.e.size(); ++k)
            w.push_back(double(r.i(-2, 9)));
        for (auto& d : dist)
            d = double(r.i(-5, 5));
        long budget = 20000;
        auto C = S.find_neg_cycle(dist, [&](const auto& e) {
            if (--budget < 0)
                throw Overrun("the search does not end");
            reenter();
            return w[N.id(e)];
        });
        h = mix(h, C.size());
        for (auto&& e : C)
            h = mix(h, N.id(e));
        for (auto d : dist)
            h = hd(h, d);
    }
};
struct NativeCycleJob : Job
{
    int n;
    xn::SimpleDiGraphS g;
    NativeCycleJob(Rng q)
        : Job(q, 6)
        , n(int(r.i(2, 8)))
        , g(n)
    {
        for (auto& e : redges(r, n, true))
            g.add_edge(e.first, e.second, int(r.i(-2, 9)));
    }
    void work() override
    {
        negCycleFinder<xn::SimpleDiGraphS> S(g);
        std::vector<int> dist(size_t(n), 0);
        for (auto& d : dist)
            d = int(r.i(-5, 5));
        const int shift = int(r.i(-1, 3));
        long budget = 20000;
        auto C = S.find_neg_cycle(dist, [&](const auto& e) {
            if (--budget < 0)
                throw Overrun("the search does not end");
            reenter();
            const auto uv = g.end_points(e);
            return g[uv.first][uv.second] + shift;
        });
        for (auto&& e : C)
            h = mix(h, uint64_t(e.first * 100 + e.second));
        for (auto d : dist)
            h = mix(h, uint64_t(d));
        for (auto&& e : g.edges())
            h = mix(h, uint64_t(e.first * 100 + e.second));
        g.add_edge(int(r.i(0, n - 1)), int(r.i(0, n - 1)), int(r.i(-2, 9)));
    }
};
struct RatioJob : Job
{
    RatioJob(Rng q)
        : Job(q, 3)
    {
    }
    template <typename T>
    void solve(const Net& N, const std::vector<long>& c, const std::vector<long>& t)
    {
        long budget = 200000;
        std::vector<T> dist(size_t(N.n), T(0));
        T x(100);
        auto cost = [&](const auto& e) {
            if (--budget < 0)
                throw Overrun("does not converge");
            reenter();
            return c[N.id(e)];
        };
        auto time = [&](const auto& e) { return t[N.id(e)]; };
        auto C = min_cycle_ratio(N.g, x, cost, time, dist);
        for (auto&& e : C)
            h = mix(h, N.id(e));
        value(x);
    }
    void value(double x) { h = hd(h, x); }
    void value(const fun::Fraction<long>& x) { h = mix(mix(h, uint64_t(x.numerator())), uint64_t(x.denominator())); }
    void work() override
    {
        const Net N = net(r, true);
        std::vector<long> c, t;
        for (size_t k = 0; k < N.e.size(); ++k)
        {
            c.push_back(long(r.i(-9, 9)));
            t.push_back(long(1 << r.i(0, 1)));
        }
        solve<fun::Fraction<long>>(N, c, t);
    }
};
struct ScalingJob : Job
{
    Net N;
    std::vector<double> c, u, u2;
    struct Cost
    {
        ScalingJob* j;
        double operator()(const Ad::edge_t& e) const
        {
            j->reenter();
            return j->c[j->N.id(e)];
        }
    };
    struct Time
    {
        double operator()(const Ad::edge_t&) const
        {
            return 1.;
        }
    };
    ScalingJob(Rng q)
        : Job(q, 10)
        , N(net(r, false))
        , u(size_t(N.n), 0.)
        , u2(size_t(N.n), 0.)
    {
        for (size_t k = 0; k < N.e.size(); ++k)
            c.push_back(double(r.i(-4, 6)));
        O = std::make_unique<optscaling_oracle<Ad, std::vector<double>, Cost>>(N.g, u, Cost {this});
        R = std::make_unique<cycle_ratio_oracle<Ad, std::vector<double>, Cost, Time>>(N.g, u2, Cost {this}, Time {});
    }
    std::unique_ptr<optscaling_oracle<Ad, std::vector<double>, Cost>> O;
    std::unique_ptr<cycle_ratio_oracle<Ad, std::vector<double>, Cost, Time>> R;
    double t = 1e6, tr = -1e6;
    void work() override
    {
        Arr x {double(r.i(-4, 12)), double(r.i(-12, 4))};
        {
            const auto [cut, better] = (*O)(x, t);
            h = hd(mix(hd(ha(h, std::get<0>(cut)), std::get<1>(cut)), better), t);
        }
        {
            const auto [cut, better] = (*R)(double(r.i(-4, 6)), tr);
            h = hd(mix(hd(hd(h, std::get<0>(cut)), std::get<1>(cut)), better), tr);
        }
        for (auto v : u)
            h = hd(h, v);
    }
};

// ------------------------------------------------------------ the rest
struct FitJob : Job
{
    FitJob(Rng q)
        : Job(q, 1)
    {
    }
    void work() override
    {
        const Arr s = create_2d_sites(size_t(r.i(2, 3)), 2);
        const Arr Y = create_2d_isotropic(s, size_t(r.i(20, 60)));
        h = ha(ha(h, s), Y);
        const size_t m = size_t(r.i(2, 3));
        const auto [a, it, ok] = r.chance(0.4) ? lsq_corr_poly(Y, s, m) : r.chance(0.5) ? lsq_corr_poly2(Y, s, m) : mle_corr_poly(Y, s, m);
        h = mix(h, ok);
        if (ok)
            h = mix(ha(h, a), it);
    }
};
struct CsdJob : Job
{
    CsdJob(Rng q)
        : Job(q, 20)
    {
    }
    void work() override
    {
        const double x = (r.chance(0.5) ? 1 : -1) * r.logu(1e-6, 1e6);
        const auto a = to_csd(x, int(r.i(0, 20)));
        const auto b = to_csdfixed(x, unsigned(r.i(1, 8)));
        h = hd(hd(mix(mix(h, hashs(a)), hashs(b)), to_decimal(a)), to_decimal(b));
    }
};
template <typename Z>
struct FracJob : Job
{
    using F = fun::Fraction<Z>;
    F x {Z(1), Z(1)};
    FracJob(Rng q)
        : Job(q, 30)
    {
    }
    FracJob(const FracJob&) = default;
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<FracJob>(*this);
    }
    void work() override
    {
        F y(Z(r.i(-20, 20)), Z(r.i(1, 20)));
        const Z c = Z(r.i(-20, 20));
        const bool zero = y.numerator() == 0;
        switch (r.i(0, 24))
        {
            case 0: x = x + y; break;
            case 1: x = x - y; break;
            case 2: x *= y; break;
            case 3:
                if (!zero)
                    x = x / y;
                break;
            case 4: x += y; break;
            case 5: x -= y; break;
            case 6: x = x * y; break;
            case 7:
                if (!zero)
                    x /= y;
                break;
            case 8: x = x + c; break;
            case 9: x = x - c; break;
            case 10: x = x * c; break;
            case 11:
                if (c != 0)
                    x = x / c;
                break;
            case 12: x += c; break;
            case 13: x -= c; break;
            case 14: x *= c; break;
            case 15:
                if (c != 0)
                    x /= c;
                break;
            case 16: x = -x; break;
            case 17: x = x.abs(); break;
            case 18:
                if (!zero)
                {
                    y.reciprocal();
                    x = y;
                }
                break;
            case 19: x = c + y; break;
            case 20: x = c - y; break;
            case 21: x = 2 + x; break;
            case 22: x = 2 - x; break;
            case 23: h = mix(mix(h, uint64_t(fun::gcd(x.numerator(), c))), uint64_t(fun::lcm(y.denominator(), c))); break;
            default:
            {
                std::ostringstream o;
                o << x;
                h = mix(h, hashs(o.str()));
            }
        }
        h = mix(mix(h, uint64_t(x.numerator())), uint64_t(x.denominator()));
        h = mix(h, uint64_t(x < y) + 2 * (x == y) + 4 * (x < c) + 8 * (x > c) + 16 * (x == c) + 32 * (x < 0.75) + 64 * (x >= y) + 128 * (x != y));
        if (fun::abs(x.numerator()) > 100000 || x.denominator() > 100000)
            x = F(Z(3), Z(7));
    }
};
struct PosyJob : Job
{
    size_t n;
    posynomial<double> p;
    PosyJob(Rng q)
        : Job(q, 10)
        , n(size_t(r.i(1, 4)))
        , p(one())
    {
    }
    PosyJob(const PosyJob& o)
        : Job(o)
        , n(o.n)
        , p(o.p)
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<PosyJob>(*this);
    }
    monomial<double> one()
    {
        std::valarray<double> a(n);
        for (auto& v : a)
            v = r.normal();
        return monomial<double>(r.logu(0.1, 10), a);
    }
    void work() override
    {
        if (r.chance(0.6))
            p += one();
        else if (r.chance(0.5))
            p *= one();
        else
            p /= one();
        std::valarray<double> y(n);
        for (auto& v : y)
            v = 0.3 * r.normal();
        h = hd(h, p.lse(y));
        double f = 0;
        const std::valarray<double> g = p.lse_gradient(y, f);
        h = hd(h, f);
        for (auto v : g)
            h = hd(h, v);
    }
};
// monomials and sums of them, through every operation
struct AlgebraJob : Job
{
    using M = monomial<double>;
    using P = posynomial<double>;
    using Va = std::valarray<double>;
    size_t n;
    size_t terms = 1;
    M m;
    P p;
    AlgebraJob(Rng q)
        : Job(q, 12)
        , n(size_t(r.i(1, 5)))
        , m(one())
        , p(one())
    {
    }
    AlgebraJob(const AlgebraJob& o)
        : Job(o)
        , n(o.n)
        , terms(o.terms)
        , m(o.m)
        , p(o.p)
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<AlgebraJob>(*this);
    }
    M one()
    {
        Va a(n);
        for (auto& v : a)
            v = r.normal();
        const double c = r.logu(0.2, 5);
        switch (r.i(0, 4))
        {
            case 0: return M(n, c);
            case 1:
            {
                M k(n);
                k.set_coeff(c);
                return k;
            }
            case 2:
            {
                std::vector<double> ar {c};
                for (auto v : a)
                    ar.push_back(v);
                return M(n, ar.data());
            }
            case 3:
                if (n == 2)
                    return M(c, {a[0], a[1]});
                return M(c, a);
            default: return M(c, a);
        }
    }
    void hv(const Va& v)
    {
        for (auto t : v)
            h = hd(h, t);
    }
    template <typename E>
    void evaluate(const E& e, const Va& y)
    {
        h = hd(h, e.lse(y));
        double f = 0;
        const Va g = e.lse_gradient(y, f);
        h = hd(h, f);
        hv(g);
        Va g2(n);
        h = hd(h, e.log_exp_fvalue_with_gradient(y, g2));
        hv(g2);
    }
    void work() override
    {
        const M k = one();
        const double c = r.logu(0.2, 5);
        switch (r.i(0, 11))
        {
            case 0: m *= k; break;
            case 1: m /= k; break;
            case 2: m *= c; break;
            case 3: m /= c; break;
            case 4: m = m * c; break;
            case 5: m = m / c; break;
            case 6: m = c * m; break;
            case 7: m = c / m; break;
            case 8: m = m * k; break;
            case 9: m = m / k; break;
            case 10: m.sqrt(); break;
            default: m = sqrt(m);
        }
        switch (r.i(0, 12))
        {
            case 0: p += k; ++terms; break;
            case 1: p = p + m; ++terms; break;
            case 2: p *= k; break;
            case 3: p /= m; break;
            case 4: p = p * k; break;
            case 5: p = p / k; break;
            case 6: p *= c; break;
            case 7: p /= c; break;
            case 8: p = p * c; break;
            case 9: p = p / c; break;
            case 10:
                p += P(m + k);
                terms += 2;
                break;
            case 11:
                p = p * P(m + k);
                terms *= 2;
                break;
            default:
            {
                const P q(p);
                p = q;
            }
        }
        if (terms > 40)
        {
            p = P(k);
            terms = 1;
        }
        Va y(n);
        for (auto& v : y)
            v = 0.3 * r.normal();
        evaluate(m, y);
        hv(m.lse_gradient(y));
        evaluate(p, y);
        hv(p.log_exp_gradient(y));
    }
};
// the geometric-programming package: its oracle, ellipsoid and loops
struct GpJob : Job, gp_base<double>
{
    using Va = std::valarray<double>;
    size_t n;
    Va x0;
    ellipsoid E;
    GpJob(Rng q)
        : Job(q, 8)
        , n(size_t(r.i(2, 5)))
        , x0(0., n)
        , E(x0, r.u(1, 9))
    {
        for (int64_t k = r.i(1, 4); k >= 0; --k)
        {
            posynomial<double> p(one());
            for (int64_t j = r.i(0, 3); j > 0; --j)
                p += one();
            this->_M.push_back(p);
        }
    }
    GpJob(const GpJob& o)
        : Job(o)
        , gp_base<double>(o)
        , n(o.n)
        , x0(o.x0)
        , E(o.E)
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<GpJob>(*this);
    }
    monomial<double> one()
    {
        Va a(n);
        for (auto& v : a)
            v = r.normal();
        return monomial<double>(r.logu(0.05, 1), a);
    }
    void hv(const Va& v)
    {
        for (auto t : v)
            h = hd(h, t);
    }
    void work() override
    {
        if (r.chance(0.7))
        { // one step
            const auto a = static_cast<const gp_base<double>&>(*this)(E.x());
            h = hd(mix(h, a._is_feasible), a._f);
            hv(a._g);
            if (r.chance(0.5))
                E.update(a._g);
            else
                h = mix(h, uint64_t(E.update(a._g, a._is_feasible ? 0. : a._f)));
        }
        else
        { // a run on a copy of the ellipsoid
            ellipsoid C(E);
            auto ask = [&](const Va& x) {
                reenter();
                return static_cast<const gp_base<double>&>(*this)(x);
            };
            Va bx(0., n);
            double bf = 0;
            const int m = int(r.i(1, 12));
            const double tol = r.logu(1e-6, 1e-1);
            const auto how = r.i(0, 2);
            h = mix(h, uint64_t(how == 0 ? ellipsoid_dc(C, ask, bx, bf, m, tol)
                        : how == 1 ? ellipsoid_dc_discrete(C, ask, bx, bf, m, tol)
                                   : ellipsoid_algo(C, ask, bx, bf, m, tol)));
            h = hd(h, bf);
            hv(bx);
            hv(C.x());
        }
        hv(E.x());
    }
};
struct ContJob : Job
{
    py::set<int> s {};
    py::dict<int, double> d {};
    ContJob(Rng q)
        : Job(q, 30)
    {
    }
    ContJob(const ContJob& o)
        : Job(o)
        , s(o.s.copy())
        , d(o.d.copy())
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<ContJob>(*this);
    }
    void work() override
    {
        const int k = int(r.i(0, 30));
        if (r.chance(0.7))
        {
            s.insert(k);
            d[k] = r.normal();
        }
        else
        {
            s.erase(k);
            d.erase(k);
        }
        const int q = int(r.i(0, 30));
        h = hd(mix(mix(h, s.contains(q)), d.contains(q)), d.get(q, -1.));
        h = mix(mix(h, s.size()), d.size());
        for (auto i : py::range<int>(q))
            h = mix(h, uint64_t(i));
        std::vector<int> v {4, 5, 6};
        for (auto&& [i, x] : py::enumerate(v))
            h = mix(h, uint64_t(i) * 10 + uint64_t(x));
    }
};

struct ProfitMaxJob : Job
{
    ProfitMaxJob(Rng q)
        : Job(q, 2)
    {
    }
    void work() override
    {
        profit_price = r.u(15., 30.);
        profit_max<double> P;
        std::valarray<double> z {3., 1., 1.}, bx(0., 3);
        h = hd(h, P.obj(z));
        ellipsoid E {z, r.u(20., 200.)};
        double bf = 0;
        h = mix(h, uint64_t(ellipsoid_dc(E, P, bx, bf, int(r.i(1, 60)), 1e-8)));
        h = hd(h, bf);
        for (auto v : bx)
            h = hd(h, v);
    }
};
uint64_t both(uint64_t a, uint64_t b) { return mix(mix(17, a), b); }
struct Cont2Job : Job
{
    py::set<std::string> s {"a", "b"};
    py::dict<std::string, int> d {{"x", 1}, {"y", 2}};
    Cont2Job(Rng q)
        : Job(q, 20)
    {
    }
    Cont2Job(const Cont2Job& o)
        : Job(o)
        , s(o.s)
        , d(o.d)
    {
    }
    std::unique_ptr<Job> clone() const override
    {
        return std::make_unique<Cont2Job>(*this);
    }
    void work() override
    {
        const auto k = cat("key number ", r.i(0, 20));
        s.insert(k);
        d[k] = int(r.i(-9, 9));
        uint64_t sum = 0; // whatever the order
        for (auto&& x : s)
            sum += hashs(x);
        for (auto&& x : d)
            sum += hashs(x);
        for (auto&& kv : d.items())
            sum += both(hashs(kv.first), uint64_t(kv.second));
        h = mix(h, sum);
        const auto q = cat("key number ", r.i(0, 20));
        const auto& cd = d;
        h = mix(mix(h, uint64_t(q < s) + 2 * (q < d)), py::len(s) * 100 + py::len(d));
        if (cd.contains(q))
            h = mix(h, uint64_t(cd[q]));
        auto s2 = s.copy();
        auto d2 = d.copy();
        s2.insert("more");
        d2["more"] = 3;
        h = mix(mix(h, s2.size() * 100 + d2.size()), s.size() * 100 + d.size());
        py::set<std::string> s3;
        s3 = std::move(s2);
        py::dict<std::string, int> d3(std::move(d2));
        d2 = py::dict<std::string, int> {};
        d2 = std::move(d3);
        h = mix(h, s3.size() * 100 + d2.size());
        const int a = int(r.i(-5, 5)), b = int(r.i(-5, 9));
        const auto R = py::range<int>(a, b);
        h = mix(h, R.size() * 10 + R.contains(int(r.i(-5, 9))));
        if (!R.empty())
            h = mix(h, uint64_t(R[R.size() - 1]));
        for (auto it = R.begin(); it != R.end(); ++it)
            h = mix(h, uint64_t(*it));
        const std::vector<int> v {1, 2, 2, int(r.i(3, 9))};
        py::set<int> si(v.begin(), v.end());
        h = mix(h, si.size());
    }
};
struct GraphJob : Job
{
    using Range = decltype(py::range<int>(1));
    int n;
    xn::SimpleGraph a;
    xn::Graph<Range, py::dict<int, int>> b;
    xn::SimpleDiGraphS c;
    xn::DiGraphS<Range, py::set<int>> e;
    GraphJob(Rng q)
        : Job(q, 10)
        , n(int(r.i(1, 9)))
        , a(n)
        , b(py::range<int>(n))
        , c(n)
        , e(py::range<int>(n))
    {
    }
    template <typename G>
    void look(G& g)
    {
        h = mix(mix(h, g.number_of_nodes()), g.number_of_edges());
        const int u = int(r.i(0, n - 1)), v = int(r.i(0, n - 1));
        h = mix(mix(h, g.has_edge(u, v)), g.degree(u));
        h = mix(h, uint64_t(g.has_node(v + 1)) + 2 * g.is_directed() + 4 * g.is_multigraph() + 8 * g.order());
        uint64_t sum = 0;
        for (auto&& w : g[u])
            sum += mix(3, uint64_t(w));
        for (auto&& w : g.adj()[v])
            sum += mix(4, uint64_t(w));
        for (auto w : g)
            sum += uint64_t(w);
        uint64_t row = 0;
        for (auto&& nbrs : g.adj())
        {
            ++row;
            for (auto&& w : nbrs)
                sum += both(row, uint64_t(w));
        }
        h = mix(h, sum);
    }
    template <typename G>
    void arcs(G& g)
    {
        uint64_t sum = 0;
        for (auto&& p : g.edges())
            sum += both(uint64_t(p.first), uint64_t(p.second));
        const int u = int(r.i(0, n - 1));
        for (auto&& w : g.successors(u))
            sum += mix(5, uint64_t(w));
        h = mix(h, sum + g.has_successor(u, int(r.i(0, n - 1))));
    }
    void work() override
    {
        const int u = int(r.i(0, n - 1)), v = int(r.i(0, n - 1)), w = int(r.i(-9, 9));
        a.add_edge(u, v);
        e.add_edge(v, u);
        if (r.chance(0.5))
        {
            b.add_edge(u, v, w);
            c.add_edge(u, v, w);
        }
        else
        {
            b.add_edge(u, v);
            c.add_edge(u, v);
        }
        std::vector<std::pair<int, int>> es;
        std::vector<int> ws;
        for (int64_t q = r.i(0, 3); q > 0; --q)
        {
            es.push_back({int(r.i(0, n - 1)), int(r.i(0, n - 1))});
            ws.push_back(int(r.i(-9, 9)));
        }
        b.add_edges_from(es, ws);
        c.add_edges_from(es, ws);
        look(a);
        look(b);
        look(c);
        look(e);
        arcs(c);
        arcs(e);
        h = mix(h, uint64_t(b[u][v]) * 31 + uint64_t(c[u][v]));
        if (r.chance(0.1))
        {
            a.clear();
            c.clear();
            e.clear();
        }
        if (r.chance(0.1))
        {
            xn::SimpleDiGraphS k(n);
            k.add_edges_from(es, ws);
            auto m = std::move(k);
            look(m);
            arcs(m);
        }
    }
};
template <typename G>
struct AdaptorJob : Job
{
    int n;
    xn::grAdaptor<G> g;
    AdaptorJob(Rng q)
        : Job(q, 10)
        , n(int(r.i(1, 9)))
        , g(G {size_t(n)})
    {
    }
    void work() override
    {
        const auto res = g.add_edge(size_t(r.i(0, n - 1)), size_t(r.i(0, n - 1)));
        h = mix(mix(h, g.source(res.first)), g.target(res.first));
        h = mix(mix(h, g.number_of_nodes()), g.number_of_edges());
        for (auto v : g)
            h = mix(h, v);
        const auto ev = g.edges();
        for (auto&& e : ev)
        {
            const auto p = g.end_points(e);
            h = mix(h, p.first * 100 + p.second);
        }
        const auto nb = g.neighbors(size_t(r.i(0, n - 1)));
        for (auto&& e : nb)
            h = mix(h, g.target(e));
        for (auto it = nb.cbegin(); it != nb.cend(); ++it)
            h = mix(h, g.target(*it));
        h = mix(h, g.null_vertex());
    }
};
// the network oracle with a target, and the rest of the drivers
struct NetOracleJob : Job
{
    Net N;
    std::vector<double> c, u;
    struct H
    {
        NetOracleJob* j;
        double t = 0;
        template <typename T>
        void update(const T& v)
        {
            t = double(v);
        }
        double eval(const Ad::edge_t& e, const Arr& x) const
        {
            j->reenter();
            const auto k = j->N.id(e);
            return j->c[k] + t - x(k % 2);
        }
        Arr grad(const Ad::edge_t& e, const Arr&) const
        {
            Arr g = xt::zeros<double>({2});
            g(j->N.id(e) % 2) = -1.;
            return g;
        }
    };
    network_oracle<Ad, std::vector<double>, H> O;
    NetOracleJob(Rng q)
        : Job(q, 10)
        , N(net(r, true))
        , u(size_t(N.n), 0.)
        , O(N.g, u, H {this})
    {
        for (size_t k = 0; k < N.e.size(); ++k)
            c.push_back(double(r.i(-4, 6)));
    }
    void work() override
    {
        O.update(double(r.i(-2, 4)));
        const Arr x {double(r.i(-3, 6)), double(r.i(-3, 6))};
        const auto cut = O(x);
        h = mix(h, bool(cut));
        if (cut)
            h = hd(ha(h, std::get<0>(*cut)), std::get<1>(*cut));
        for (auto v : u)
            h = hd(h, v);
    }
};
template <typename T>
struct SearchJob : Job
{
    SearchJob(Rng q)
        : Job(q, 6)
    {
    }
    uint64_t hash(double x) { return hd(1, x); }
    uint64_t hash(int x) { return uint64_t(x); }
    uint64_t hash(unsigned x) { return uint64_t(x); }
    uint64_t hash(const fun::Fraction<long>& x) { return both(uint64_t(x.numerator()), uint64_t(x.denominator())); }
    void work() override
    {
        const long th = long(r.i(0, 200)), hi = long(r.i(0, 200));
        auto ask = [&](const T& t) {
            reenter();
            return !(t < T(th));
        };
        Options o;
        o.max_it = unsigned(r.i(1, 12));
        o.tol = 0.3;
        std::pair<T, T> I {T(0), T(hi)};
        const auto info = bsearch(ask, I, o);
        h = mix(mix(mix(h, info.feasible), info.num_iters), uint64_t(info.status));
        h = mix(mix(h, hash(I.first)), hash(I.second));
        ell A(double(r.i(1, 9)), Arr {1., 2.}), B(std::move(A));
        ell_stable C(double(r.i(1, 9)), Arr {1., 2.}), D(std::move(C));
        const double b = r.u(-0.2, 0.2);
        h = hd(h, std::get<1>(B.update(std::make_tuple(Arr {1., b}, b))));
        h = hd(h, std::get<1>(D.update(std::make_tuple(Arr {1., b}, b))));
        h = ha(ha(h, B.xc()), D.xc());
        ell1d E(-3., 5.);
        E.set_xc(b);
        h = hd(h, std::get<1>(E.update(std::make_tuple(1.5, b))));
        h = hd(h, E.xc());
    }
};

const int KINDS = 25;
std::unique_ptr<Job> make(uint64_t seed, int kind)
{
    Rng r(mix(seed, uint64_t(kind) + 99));
    switch (kind)
    {
        case 0: return std::make_unique<SpaceJob<ell>>(r);
        case 1: return std::make_unique<SpaceJob<ell_stable>>(r);
        case 2: return std::make_unique<Ell1dJob>(r);
        case 3: return std::make_unique<DriverJob>(r);
        case 4: return std::make_unique<MatrixJob>(r);
        case 5: return std::make_unique<LowpassJob>(r);
        case 6:
        {
            Rng q = r;
            return std::make_unique<ProfitJob>(r, ProfitJob::In(q));
        }
        case 7: return std::make_unique<CycleJob>(r);
        case 8: return std::make_unique<NativeCycleJob>(r);
        case 9: return std::make_unique<RatioJob>(r);
        case 10: return std::make_unique<ScalingJob>(r);
        case 11: return std::make_unique<CsdJob>(r);
        case 12:
            if (seed % 3 == 0)
                return std::make_unique<FracJob<int>>(r);
            if (seed % 3 == 1)
                return std::make_unique<FracJob<long long>>(r);
            return std::make_unique<FracJob<long>>(r);
        case 13: return std::make_unique<PosyJob>(r);
        case 14: return std::make_unique<ContJob>(r);
        case 15: return std::make_unique<GpJob>(r);
        case 17: return std::make_unique<AlgebraJob>(r);
        case 18: return std::make_unique<Cont2Job>(r);
        case 19: return std::make_unique<GraphJob>(r);
        case 20: return std::make_unique<AdaptorJob<boost::adjacency_list<boost::vecS, boost::vecS, boost::bidirectionalS>>>(r);
        case 21: return std::make_unique<AdaptorJob<boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS>>>(r);
        case 22: return std::make_unique<NetOracleJob>(r);
        case 23:
            if (seed % 4 == 0)
                return std::make_unique<SearchJob<int>>(r);
            if (seed % 4 == 1)
                return std::make_unique<SearchJob<unsigned>>(r);
            if (seed % 4 == 2)
                return std::make_unique<SearchJob<fun::Fraction<long>>>(r);
            return std::make_unique<SearchJob<double>>(r);
        case 24: return std::make_unique<ProfitMaxJob>(r);
        default: return std::make_unique<FitJob>(r);
    }
}
const char* kname(int k)
{
    static const char* n[KINDS] = {"ell", "ell_stable", "ell1d", "drivers", "matrix oracles", "lowpass", "profit",
        "negCycleFinder", "native graph", "min_cycle_ratio", "scaling", "csd", "Fraction", "posynomial", "containers", "geometric programs", "covariance fits", "posynomial algebra", "more containers", "native graphs",
        "bidirectional adaptor", "undirected adaptor", "network oracle", "searches", "profit program"};
    return n[k];
}
int rkind(Rng& r)
{
    if (r.chance(0.02))
        return 16;
    const int k = int(r.i(0, KINDS - 2));
    return k < 16 ? k : k + 1;
}
// fill what malloc hands out with another byte each time
void perturb(Rng& r)
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    mallopt(M_PERTURB, int(r.i(1, 255)));
#else
    (void)r;
#endif
}
uint64_t solo(uint64_t seed, int kind)
{
    auto j = make(seed, kind);
    if (seed % 4 == 0)
    { // hand over to a copy on the way
        j->step();
        if (auto c = j->clone())
            j = std::move(c);
    }
    j->finish();
    return j->h;
}
} // namespace

VH_PROPERTY(C24)
{
    ctx.group("repeat", 4000, [&](Rng& r) {
        const int k = rkind(r), o = rkind(r);
        const uint64_t s = r.next(), t = r.next();
        ctx.scenario(cat(kname(k), " seed ", s, ", then ", kname(o), " seed ", t));
        perturb(r);
        const uint64_t a = solo(s, k);
        perturb(r);
        solo(t, o);
        if (r.chance(0.5))
            solo(r.next(), k); // the same kind with other data
        const uint64_t b = solo(s, k);
        ctx.expect(a == b, cat("repeat:", kname(k)), "the same computation gives other results the second time");
        ctx.event(cat("repeated ", kname(k)));
        ctx.nontrivial(a);
        ctx.sample(ctx.desc);
    });
    ctx.group("interleave", 4000, [&](Rng& r) {
        const int n = int(r.i(2, 4));
        std::vector<int> k;
        std::vector<uint64_t> s, want;
        const bool same = r.chance(0.4); // objects of one kind
        for (int i = 0; i < n; ++i)
        {
            k.push_back(i && same ? k[0] : rkind(r));
            s.push_back(i && r.chance(0.15) && k[size_t(i)] == k[0] ? s[0] : r.next());
        }
        const bool first = r.chance(0.5);
        auto alone = [&] {
            perturb(r);
            for (int i = 0; i < n; ++i)
                want.push_back(solo(s[size_t(i)], k[size_t(i)]));
        };
        if (first)
            alone();
        perturb(r);
        std::vector<std::unique_ptr<Job>> jobs;
        std::string what;
        for (int i = 0; i < n; ++i)
        {
            jobs.push_back(make(s[size_t(i)], k[size_t(i)]));
            what += cat(kname(k[size_t(i)]), " seed ", s[size_t(i)], "; ");
        }
        ctx.scenario(what);
        // the callbacks of one advance another now and then
        Rng q(r.next());
        bool inner = false;
        if (r.chance(0.5))
            jobs[0]->inside = [&] {
                if (inner || !q.chance(0.1))
                    return;
                inner = true;
                jobs[size_t(q.i(1, n - 1))]->step();
                ctx.event("steps inside a callback");
                inner = false;
            };
        std::vector<size_t> live;
        for (size_t i = 0; i < jobs.size(); ++i)
            live.push_back(i);
        uint64_t h = 3;
        while (!live.empty())
        {
            const size_t at = size_t(r.next() % live.size());
            h = mix(h, live[at]);
            if (!jobs[live[at]]->step())
                live.erase(live.begin() + long(at));
        }
        if (!first)
            alone();
        for (int i = 0; i < n; ++i)
            ctx.expect(jobs[size_t(i)]->h == want[size_t(i)], cat("interleave:", kname(k[size_t(i)])),
                cat("job ", i, " gives other results when others run in between"));
        ctx.event("interleavings");
        ctx.nontrivial(mix(h, want[0]));
        ctx.sample(ctx.desc);
    });
    ctx.group("copies", 3000, [&](Rng& r) {
        static const int copyable[] = {0, 1, 2, 5, 6, 12, 13, 14, 15, 17, 18};
        const int k = copyable[r.next() % 11];
        const uint64_t s = r.next(), branch = r.next();
        const int before = int(r.i(0, 6));
        ctx.scenario(cat(kname(k), " seed ", s, " copied after ", before, " steps, branch ", branch));
        auto orig = make(s, k), ref = make(s, k);
        for (int i = 0; i < before; ++i)
        {
            orig->step();
            ref->step();
        }
        auto copy = orig->clone();
        auto refc = make(s, k);
        for (int i = 0; i < before; ++i)
            refc->step();
        copy->r = Rng(branch);
        refc->r = Rng(branch);
        if (r.chance(0.2))
        { // the copy outlives the original
            orig.reset();
            copy->finish();
        }
        else
        {
            bool a = true, b = true;
            while (a || b)
                if (b && (!a || r.chance(0.5)))
                    b = copy->step();
                else
                    a = orig->step();
        }
        refc->finish();
        ref->finish();
        if (orig)
            ctx.expect(orig->h == ref->h, cat("copy-disturbs:", kname(k)), "the original gives other results after its copy was used");
        ctx.expect(copy->h == refc->h, cat("copy-differs:", kname(k)), "the copy gives other results than an object with the same history");
        ctx.event(cat("copied ", kname(k)));
        ctx.nontrivial(mix(ref->h, refc->h));
        ctx.sample(ctx.desc);
    });
    if (!ctx.valgrind)
        ctx.group("threads", 600, [&](Rng& r) {
            const int n = int(r.i(2, 6));
            std::vector<std::vector<std::pair<uint64_t, int>>> todo{size_t(n)};
            std::vector<std::vector<uint64_t>> got{size_t(n)}, want{size_t(n)};
            const int common = ctx.cur_i % 2 ? int((uint64_t(ctx.cur_i) / 2 + ctx.seed * 7) % KINDS) : -1;
            const int other[] = {rkind(r), rkind(r), rkind(r)}; // a few kinds, so that like meets like
            const int each = common == 16 ? int(r.i(1, 2)) : int(r.i(1, 6));
            const bool wide = r.chance(0.2);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < each; ++j)
                    todo[size_t(i)].push_back({r.next(), common >= 0 ? common : wide ? rkind(r) : other[r.next() % 3]});
            ctx.scenario(cat(n, " threads with ", each, " computations each, ", common < 0 ? "mixed" : kname(common)));
            auto alone = [&] {
                for (int i = 0; i < n; ++i)
                    for (auto& t : todo[size_t(i)])
                        want[size_t(i)].push_back(solo(t.first, t.second));
            };
            const bool first = r.chance(0.5);
            if (first)
                alone();
            std::atomic<int> ready {0};
            std::vector<std::thread> th;
            std::vector<std::string> errors{size_t(n)};
            for (int i = 0; i < n; ++i)
                th.emplace_back([&, i] {
                    ++ready;
                    while (ready < n)
                        std::this_thread::yield();
                    try
                    {
                        for (auto& t : todo[size_t(i)])
                            got[size_t(i)].push_back(solo(t.first, t.second));
                    }
                    catch (const std::exception& e)
                    {
                        errors[size_t(i)] = e.what();
                    }
                });
            for (auto& t : th)
                t.join();
            if (!first)
                alone();
            uint64_t h = 5;
            for (int i = 0; i < n; ++i)
            {
                ctx.expect(errors[size_t(i)].empty(), "thread-exception", errors[size_t(i)]);
                for (size_t j = 0; j < got[size_t(i)].size(); ++j)
                    ctx.expect(got[size_t(i)][j] == want[size_t(i)][j], cat("thread:", kname(todo[size_t(i)][j].second)),
                        "other results when run beside other threads");
                h = mix(h, want[size_t(i)][0]);
            }
            ctx.event("thread groups");
            ctx.event("computations in threads", n * each);
            ctx.nontrivial(h);
            ctx.sample(ctx.desc);
        });
}
