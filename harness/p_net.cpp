// C17-C19: negative cycles, cycle ratios and the network oracles.
#include "vh.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/graph/properties.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <csignal>
#include <memory>
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <netoptim/parametric.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <py2cpp/py2cpp.hpp>

#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vh;
using I64 = long long;
using I128 = __int128;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

namespace
{
// ------------------------------------------------------------ plain graphs
struct Plain
{
    int n = 0;
    std::vector<std::pair<int, int>> e;
    size_t m() const { return e.size(); }
    std::string str() const
    {
        std::string s = cat("n=", n, " edges");
        for (auto& p : e)
            s += cat(" ", p.first, ">", p.second);
        return s;
    }
};

// ------------------------------------------------------------ graph types
template <typename EdgeC>
struct BoostBase
{
    using graph_t = boost::adjacency_list<EdgeC, boost::vecS, boost::directedS,
        boost::no_property, boost::property<boost::edge_index_t, size_t>>;
    using G = xn::grAdaptor<graph_t>;
    G g;
    static graph_t raw(const Plain& p)
    {
        graph_t r(size_t(p.n));
        for (size_t k = 0; k != p.m(); ++k)
            boost::add_edge(size_t(p.e[k].first), size_t(p.e[k].second), k, r);
        return r;
    }
    explicit BoostBase(const Plain& p)
        : g {raw(p)}
    {
    }
    template <typename E>
    size_t id(const E& e) const
    {
        return boost::get(boost::edge_index, static_cast<const graph_t&>(g), e);
    }
    template <typename D>
    static std::vector<D> dist(const std::vector<D>& d)
    {
        return d;
    }
    template <typename D>
    static D at(const std::vector<D>& d, int v)
    {
        return d[size_t(v)];
    }
};
using BoostVec = BoostBase<boost::vecS>;
using BoostList = BoostBase<boost::listS>;

// a user-defined graph: string nodes, integer edge handles, dict potentials
struct Named
{
    using node_t = std::string;
    using edge_t = size_t;
    struct Edges
    {
        std::vector<size_t> ids;
        auto begin() const { return ids.begin(); }
        auto end() const { return ids.end(); }
    };
    std::vector<node_t> nodes;
    std::vector<std::pair<node_t, node_t>> ep;
    Edges all;
    static node_t name(int v) { return "node-" + std::to_string(v); }
    auto begin() const { return nodes.begin(); }
    auto end() const { return nodes.end(); }
    const Edges& edges() const { return all; }
    std::pair<node_t, node_t> end_points(size_t e) const { return ep[e]; }
    static node_t null_vertex() { return ""; }
    size_t number_of_nodes() const { return nodes.size(); }
    size_t number_of_edges() const { return ep.size(); }
};
struct NamedBox
{
    using G = Named;
    Named g;
    explicit NamedBox(const Plain& p)
    {
        for (int v = 0; v != p.n; ++v)
            g.nodes.push_back(Named::name(v));
        for (size_t k = 0; k != p.m(); ++k)
        {
            g.ep.push_back({Named::name(p.e[k].first), Named::name(p.e[k].second)});
            g.all.ids.push_back(k);
        }
    }
    size_t id(size_t e) const { return e; }
    template <typename D>
    static py::dict<std::string, D> dist(const std::vector<D>& d)
    {
        py::dict<std::string, D> r;
        for (size_t v = 0; v != d.size(); ++v)
            r[Named::name(int(v))] = d[v];
        return r;
    }
    template <typename D>
    static D at(const py::dict<std::string, D>& d, int v)
    {
        return d[Named::name(v)];
    }
};

// ------------------------------------------------------------ references
// does any walk get ever cheaper? (virtual source, exact)
template <typename W>
bool has_negative(const Plain& p, const std::vector<W>& w)
{
    std::vector<W> d(size_t(p.n), W(0));
    for (int it = 0; it <= p.n; ++it)
    {
        bool ch = false;
        for (size_t k = 0; k != p.m(); ++k)
        {
            W c = d[size_t(p.e[k].first)] + w[k];
            if (c < d[size_t(p.e[k].second)])
            {
                d[size_t(p.e[k].second)] = c;
                ch = true;
            }
        }
        if (!ch)
            return false;
    }
    return true;
}

// the ids as one closed directed cycle, in forward or reverse list order
std::string not_a_cycle(const Plain& p, const std::vector<size_t>& c)
{
    if (c.empty())
        return "empty";
    for (auto k : c)
        if (k >= p.m())
            return "unknown edge";
    const size_t L = c.size();
    bool fwd = true, rev = true;
    for (size_t i = 0; i != L; ++i)
    {
        auto a = p.e[c[i]], b = p.e[c[(i + 1) % L]];
        fwd = fwd && a.second == b.first;
        rev = rev && a.first == b.second;
    }
    if (!fwd && !rev)
        return "edges do not form a closed directed walk";
    std::set<int> heads;
    for (auto k : c)
        if (!heads.insert(p.e[k].second).second)
            return "a vertex is visited twice";
    return "";
}

// same, for an unordered multiset of edges (counts)
std::string not_a_cycle_set(const Plain& p, const std::vector<long>& cnt)
{
    std::map<int, int> next;
    size_t L = 0;
    for (size_t k = 0; k != p.m(); ++k)
    {
        if (cnt[k] == 0)
            continue;
        if (cnt[k] != 1)
            return "an edge is counted more than once";
        if (!next.emplace(p.e[k].first, p.e[k].second).second)
            return "two edges leave one vertex";
        ++L;
    }
    if (L == 0)
        return "no edge";
    int v = next.begin()->first, s = v;
    size_t len = 0;
    do
    {
        auto it = next.find(v);
        if (it == next.end())
            return "the edges do not close";
        v = it->second;
        ++len;
    } while (v != s && len <= L);
    return v == s && len == L ? "" : "the edges are not one cycle";
}

// all simple cycles (edge id lists) of a small graph
void cycles_from(const Plain& p, int start, int v, std::vector<char>& on,
    std::vector<size_t>& path, std::vector<std::vector<size_t>>& out, size_t cap)
{
    for (size_t k = 0; k != p.m() && out.size() < cap; ++k)
    {
        if (p.e[k].first != v)
            continue;
        int t = p.e[k].second;
        if (t < start)
            continue;
        path.push_back(k);
        if (t == start)
            out.push_back(path);
        else if (!on[size_t(t)])
        {
            on[size_t(t)] = 1;
            cycles_from(p, start, t, on, path, out, cap);
            on[size_t(t)] = 0;
        }
        path.pop_back();
    }
}
std::vector<std::vector<size_t>> all_cycles(const Plain& p, size_t cap = 20000)
{
    std::vector<std::vector<size_t>> out;
    for (int s = 0; s != p.n; ++s)
    {
        std::vector<char> on(size_t(p.n), 0);
        std::vector<size_t> path;
        on[size_t(s)] = 1;
        cycles_from(p, s, s, on, path, out, cap);
    }
    return out;
}

// ------------------------------------------------------------ generators
// other units: powers of two, so that nothing but magnitudes changes
double unit(Rng& r, int lim = 60)
{
    if (!r.chance(0.3))
        return 1.;
    return std::ldexp(1., int(r.chance(0.5) ? r.i(-20, 20) : r.i(-lim, lim)));
}
Plain gen_graph(Rng& r, int nmax, bool loops, double density = 2.5)
{
    Plain p;
    p.n = int(r.i(1, nmax));
    const long m = r.i(0, long(density * p.n) + 1);
    const int kind = int(r.i(0, 4));
    for (long k = 0; k < m; ++k)
    {
        int u = int(r.i(0, p.n - 1)), v = int(r.i(0, p.n - 1));
        if (kind == 1) // two components
        {
            int half = (p.n + 1) / 2;
            v = u < half ? int(r.i(0, half - 1)) : int(r.i(std::min(half, p.n - 1), p.n - 1));
        }
        else if (kind == 2 && k < p.n) // a ring first
        {
            u = int(k);
            v = int((k + 1) % p.n);
        }
        else if (kind == 3 && !p.e.empty() && r.chance(0.4)) // parallel edges
            std::tie(u, v) = p.e[size_t(r.i(0, long(p.e.size()) - 1))];
        else if (kind == 4 && k < p.n) // reversed ring: bad relaxation order
        {
            u = int(p.n - k) % p.n;
            v = p.n - 1 - int(k);
        }
        if (u == v && !loops)
            continue;
        p.e.push_back({u, v});
    }
    return p;
}

std::vector<I64> gen_weights(Rng& r, const Plain& p, I64 big)
{
    std::vector<I64> pot(size_t(p.n)), w(p.m());
    for (auto& x : pot)
        x = r.i(-big, big);
    const int kind = int(r.i(0, 5));
    for (size_t k = 0; k != p.m(); ++k)
    {
        const I64 base = pot[size_t(p.e[k].second)] - pot[size_t(p.e[k].first)];
        const I64 slack = r.chance(0.5) ? 0 : r.i(0, r.chance(0.5) ? 3 : big);
        if (kind == 0)
            w[k] = r.i(-big, big);
        else if (kind == 1)
            w[k] = r.i(-1, 4);
        else if (kind == 2)
            w[k] = 0;
        else
            w[k] = base + slack;
    }
    if (kind >= 4 && p.m() != 0) // one nudge decides
        for (long t = r.i(1, 2); t > 0; --t)
            w[size_t(r.i(0, long(p.m()) - 1))] -= r.i(1, 3);
    return w;
}

// ------------------------------------------------------------ C17
template <typename D>
D to_num(I64 x, double u)
{
    return std::is_floating_point<D>::value ? D(double(x) * u) : D(x);
}
template <>
fun::Fraction<long> to_num<fun::Fraction<long>>(I64 x, double)
{
    return fun::Fraction<long>(long(x), long(6)); // sixths, normalized
}

// the recorded weight calls of one search
struct Budget
{
    long used = 0, limit = 0;
    void tick()
    {
        if (++used > limit)
            throw Overrun("find_neg_cycle evaluates more weights than (n+2) "
                          "sweeps over the edges could need");
    }
};

template <typename Box, typename D>
void c17_case(Ctx& ctx, Rng& r, const char* tag)
{
    const I64 big = std::is_same<D, fun::Fraction<long>>::value ? 50
        : std::is_same<D, int>::value ? (r.chance(0.5) ? 10 : 1000000)
                                      : (r.chance(0.6) ? 10 : 1000000000LL);
    const double wu = unit(r);
    auto num = [wu](I64 x) { return to_num<D>(x, wu); };
    const Plain p = gen_graph(r, r.chance(0.01) ? (r.chance(0.1) ? 250 : 50) : r.chance(0.2) ? 14 : 7, true);
    const Box box(p);
    negCycleFinder<typename Box::G> S(box.g);
    std::vector<D> d0(size_t(p.n), num(0));
    auto dist = Box::dist(d0);
    uint64_t h = hashs(tag);
    for (auto& e : p.e)
        h = mix(h, uint64_t(e.first * 100 + e.second));
    const long rounds = r.i(1, 4);
    std::vector<I64> w = gen_weights(r, p, big);
    bool fresh_dist = true;
    for (long q = 0; q < rounds; ++q)
    {
        if (q != 0 && p.m() != 0)
        {
            if (r.chance(0.5))
                w = gen_weights(r, p, big);
            else
                w[size_t(r.i(0, long(p.m()) - 1))] += r.i(-5, 5);
        }
        if (q == 0 ? r.chance(0.7) : (r.chance(0.4) || !fresh_dist))
        {
            const I64 span = r.chance(0.3) ? 0 : r.chance(0.5) ? 4 * big : 3;
            for (auto& x : d0)
                x = num(r.i(-span, span));
            dist = Box::dist(d0);
        }
        ctx.scenario(cat(tag, " ", p.str(), " w=", vec(w), " round ", q, " start=", vec(d0), " unit ", wu));
        Budget b;
        b.limit = 4L * (p.n + 2) * long(p.m() + 1) + 8L * p.n + 64;
        auto wt = [&](const auto& e)
        {
            b.tick();
            return num(w[box.id(e)]);
        };
        auto C = S.find_neg_cycle(dist, wt);
        ctx.event("searches");
        ctx.event("weights evaluated", b.used);
        std::vector<size_t> ids;
        for (auto&& e : C)
            ids.push_back(box.id(e));
        const bool neg = has_negative(p, w);
        h = mix(h, uint64_t(neg) + 2 * ids.size());
        if (ids.empty())
        {
            ctx.event("no cycle reported");
            if (neg)
                ctx.fail("missed-cycle", "nothing returned although the graph has a negative cycle");
            else
                for (size_t k = 0; k != p.m(); ++k)
                    if (Box::at(dist, p.e[k].second) >
                        Box::at(dist, p.e[k].first) + num(w[k]))
                    {
                        ctx.fail("bad-potential", cat("edge ", k, " is violated by the potentials"));
                        break;
                    }
            fresh_dist = true;
        }
        else
        {
            ctx.event("cycles reported");
            const auto why = not_a_cycle(p, ids);
            ctx.expect(why.empty(), "not-a-cycle", why + " " + vec(ids));
            I64 tot = 0;
            for (auto k : ids)
                tot += w[k];
            ctx.expect(tot < 0, "not-negative", cat("returned cycle ", vec(ids), " has weight ", tot));
            ctx.expect(neg, "phantom-cycle", "cycle returned although there is no negative one");
            if (ids.size() == 1)
                ctx.event("self-loops reported");
            // potentials of an interrupted search are any finite numbers
            fresh_dist = r.chance(0.8) && big < 1000000000LL && q < 2;
        }
    }
    if (p.m() != 0)
        ctx.nontrivial(h);
    ctx.sample(ctx.desc);
}
} // namespace

VH_PROPERTY(C17)
{
    ctx.group("vec-long", 6000, [&](Rng& r) { c17_case<BoostVec, long>(ctx, r, "boost-vec/long"); });
    ctx.group("vec-int", 3000, [&](Rng& r) { c17_case<BoostVec, int>(ctx, r, "boost-vec/int"); });
    ctx.group("list-double", 3000, [&](Rng& r) { c17_case<BoostList, double>(ctx, r, "boost-list/double"); });
    ctx.group("vec-fraction", 3000, [&](Rng& r) { c17_case<BoostVec, fun::Fraction<long>>(ctx, r, "boost-vec/fraction"); });
    ctx.group("dict-long", 3000, [&](Rng& r) { c17_case<NamedBox, long>(ctx, r, "named-dict/long"); });
    // dense graphs with the worst relaxation order for the sweep
    ctx.group("sweep", 300, [&](Rng& r) {
        Plain p;
        const bool large = r.chance(0.06);
        p.n = large ? int(r.i(100, 600)) : int(r.i(2, 40));
        if (large)
            ctx.event("large graphs");
        // a path numbered against the sweep, optionally closed
        for (int v = p.n - 1; v > 0; --v)
            p.e.push_back({v, v - 1});
        const bool closed = r.chance(0.6);
        if (closed)
            p.e.push_back({0, p.n - 1});
        for (long k = r.i(0, p.n); k > 0; --k)
            p.e.push_back({int(r.i(0, p.n - 1)), int(r.i(0, p.n - 1))});
        std::vector<I64> w(p.m(), 0);
        const I64 step = r.i(-3, 3);
        for (int k = 0; k + 1 < p.n; ++k)
            w[size_t(k)] = step;
        if (closed)
            w[size_t(p.n - 1)] = -step * (p.n - 1) + r.i(-1, 1);
        for (size_t k = size_t(p.n - 1) + (closed ? 1 : 0); k < p.m(); ++k)
            w[k] = r.i(0, 5 * p.n);
        const BoostVec box(p);
        negCycleFinder<BoostVec::G> S(box.g);
        std::vector<long> dist(size_t(p.n), 0);
        for (auto& x : dist)
            x = r.chance(0.5) ? 0 : r.i(-100, 100);
        ctx.scenario(cat(p.str(), " w=", vec(w), " start=", vec(dist)));
        Budget b;
        b.limit = 4L * (p.n + 2) * long(p.m() + 1) + 8L * p.n + 64;
        auto C = S.find_neg_cycle(dist, [&](const auto& e) { b.tick(); return long(w[box.id(e)]); });
        std::vector<size_t> ids;
        for (auto&& e : C)
            ids.push_back(box.id(e));
        const bool neg = has_negative(p, w);
        ctx.event(neg ? "long negative cycles" : "long acyclic policies");
        ctx.expect(neg == !ids.empty(), "wrong-verdict", cat("negative cycle: ", neg, ", returned ", vec(ids)));
        if (!ids.empty())
        {
            const auto why = not_a_cycle(p, ids);
            ctx.expect(why.empty(), "not-a-cycle", why + " " + vec(ids));
            I64 tot = 0;
            for (auto k : ids)
                tot += w[k];
            ctx.expect(tot < 0, "not-negative", cat("weight ", tot));
        }
        else if (!neg)
            for (size_t k = 0; k != p.m(); ++k)
                ctx.expect(dist[size_t(p.e[k].second)] <= dist[size_t(p.e[k].first)] + w[k],
                    "bad-potential", cat("edge ", k));
        ctx.nontrivial(mix(uint64_t(p.m()), uint64_t(p.n * 16 + step)));
    });
}

// ------------------------------------------------------------ C18
namespace
{
struct RatioProblem
{
    Plain p;
    std::vector<I64> cost, time;
    bool has_cycle = false;
    I64 num = 0, den = 1; // the exact minimum ratio
};

// graph in which every cycle has positive time
// (dyadic: every cycle's time is a power of two, so that all the arithmetic
// is exact in binary floating point too)
RatioProblem gen_ratio(Rng& r, int nmax, I64 cmax, I64 tmax, bool dyadic = false)
{
    RatioProblem q;
    q.p = gen_graph(r, nmax, true, 2.2);
    if (dyadic)
    {
        std::vector<I64> level;
        for (int v = 0; v != q.p.n; ++v)
            level.push_back(r.i(0, 3));
        for (auto& e : q.p.e)
        {
            q.cost.push_back(r.i(-cmax, cmax));
            I64 d = ((level[size_t(e.second)] - level[size_t(e.first)]) % 4 + 4) % 4;
            q.time.push_back(d != 0 || (e.first < e.second && r.chance(0.5)) ? d : 4);
        }
        const auto cyc = all_cycles(q.p);
        for (auto& c : cyc)
        {
            I64 a = 0, b = 0;
            for (auto k : c)
            {
                a += q.cost[k];
                b += q.time[k];
            }
            if ((b & (b - 1)) != 0)
                throw Skip();
            if (!q.has_cycle || a * q.den < q.num * b)
            {
                q.num = a;
                q.den = b;
            }
            q.has_cycle = true;
        }
        while (q.num % 2 == 0 && q.den % 2 == 0)
        {
            q.num /= 2;
            q.den /= 2;
        }
        return q;
    }
    for (auto& e : q.p.e)
    {
        q.cost.push_back(r.i(-cmax, cmax));
        // zero times only on edges that go up, so no cycle has time zero
        q.time.push_back(e.first < e.second && r.chance(0.3) ? 0 : r.i(1, tmax));
    }
    const int flat = int(r.i(0, 5));
    if (flat == 0)
        for (auto& c : q.cost)
            c = cmax;
    if (flat == 1)
        for (auto& c : q.cost)
            c = -std::abs(c);
    if (flat == 2)
        for (auto& t : q.time)
            t = 1;
    auto cyc = all_cycles(q.p);
    for (auto& c : cyc)
    {
        I64 a = 0, b = 0;
        for (auto k : c)
        {
            a += q.cost[k];
            b += q.time[k];
        }
        if (!q.has_cycle || I128(a) * q.den < I128(q.num) * b)
        {
            q.num = a;
            q.den = b;
        }
        q.has_cycle = true;
    }
    I64 a = std::abs(q.num), b = q.den;
    while (a != 0)
        std::swap(a, b %= a);
    q.num /= b;
    q.den /= b;
    return q;
}
std::string show(const RatioProblem& q)
{
    return cat(q.p.str(), " cost=", vec(q.cost), " time=", vec(q.time));
}

template <typename T>
struct Num;
template <>
struct Num<fun::Fraction<long>>
{
    using T = fun::Fraction<long>;
    static T make(I64 a, I64 b) { return T(long(a), long(b)); }
    static bool equals(const T& x, I64 a, I64 b)
    {
        return I128(x.numerator()) * b == I128(a) * x.denominator();
    }
    using cost_t = long;
};
template <>
struct Num<double>
{
    static double make(I64 a, I64 b) { return double(a) / double(b); }
    static bool equals(double x, I64 a, I64 b)
    {
        return x == double(a) / double(b);
    }
    using cost_t = double;
};

// a / b as a weight of type T
template <typename T>
struct Weight // integers
{
    static T make(I64 a, I64 b) { return T(a / b); }
    static I64 unit(Rng&) { return 1; }
};
template <>
struct Weight<double>
{
    static double make(I64 a, I64 b) { return double(a) / double(b); }
    static I64 unit(Rng& r) { return I64(1) << (r.chance(0.2) ? r.i(20, 28) : r.i(0, 8)); } // exact
};
template <>
struct Weight<float>
{
    static float make(I64 a, I64 b) { return float(a) / float(b); }
    static I64 unit(Rng& r) { return I64(1) << r.i(0, 4); }
};
template <>
struct Weight<fun::Fraction<long>>
{
    static fun::Fraction<long> make(I64 a, I64 b) { return fun::Fraction<long>(long(a), long(b)); }
    static I64 unit(Rng& r) { return r.i(1, 7); }
};

// Cost and Time are the types of the edge data, which are the integers of the
// problem divided by a common unit each
template <typename Box, typename T, typename Cost = typename Num<T>::cost_t, typename Time = Cost>
void c18_case(Ctx& ctx, Rng& r, const char* tag, bool general)
{
    using N = Num<T>;
    RatioProblem q = gen_ratio(r, 6, r.chance(0.5) ? 10 : 60, r.chance(0.5) ? 3 : 2,
        std::is_same<T, double>::value);
    const Box box(q.p);
    const bool frac = r.chance(0.6);
    const I64 cu = frac ? Weight<Cost>::unit(r) : 1, tu = frac ? Weight<Time>::unit(r) : 1;
    q.num *= tu;
    q.den *= cu;
    for (I64 d = std::__gcd(std::abs(q.num), q.den); d > 1; d = 1)
    {
        q.num /= d;
        q.den /= d;
    }
    ctx.event("fractional data", cu * tu != 1);
    // the start value: above, far above, just at, or below the optimum
    I64 sa, sb = r.i(1, 2);
    const int where = int(r.i(0, 9));
    if (!q.has_cycle || where <= 3)
        sa = 200 * sb;
    else if (where <= 5)
    {
        sa = q.num + r.i(0, 3);
        sb = q.den;
    }
    else if (where <= 7)
    {
        sa = q.num;
        sb = q.den;
    }
    else
    {
        sa = q.num - r.i(1, 4);
        sb = q.den;
    }
    const bool improvable = q.has_cycle && I128(q.num) * sb < I128(sa) * q.den;
    const bool at = q.has_cycle && I128(q.num) * sb == I128(sa) * q.den;
    std::vector<T> d0;
    const I64 span = r.chance(0.4) ? 0 : r.chance(0.5) ? 5 : 100;
    for (int v = 0; v != q.p.n; ++v)
        d0.push_back(N::make(r.i(-span, span), 1));
    auto dist = Box::dist(d0);
    T rr = N::make(sa, sb);
    const T r0 = rr;
    ctx.scenario(cat(tag, general ? " parametric " : " ratio ", show(q), " start r=", sa, "/", sb, " dist=", vec(d0), " optimum ",
        q.has_cycle ? cat(q.num, "/", q.den) : std::string("none"), " costs in 1/", cu, " times in 1/", tu));
    long calls = 0;
    const long limit = 400L * 4L * (q.p.n + 2) * long(q.p.m() + 2);
    auto tick = [&]() {
        if (++calls > limit)
            throw Overrun("does not converge");
    };
    std::vector<size_t> ids;
    auto collect = [&](auto&& C) {
        for (auto&& e : C)
            ids.push_back(box.id(e));
    };
    if (!general)
    {
        auto cost = [&](const auto& e) { tick(); return Weight<Cost>::make(q.cost[box.id(e)], cu); };
        auto time = [&](const auto& e) { return Weight<Time>::make(q.time[box.id(e)], tu); };
        collect(min_cycle_ratio(box.g, rr, cost, time, dist));
    }
    else
    { // the same optimum through the general interface
        auto d = [&](const T& x, const auto& e) -> T {
            tick();
            return N::make(q.cost[box.id(e)], cu) - x * N::make(q.time[box.id(e)], tu);
        };
        auto zero = [&](const auto& C) -> T {
            I64 a = 0, b = 0;
            for (auto&& e : C)
            {
                a += q.cost[box.id(e)];
                b += q.time[box.id(e)];
            }
            return N::make(a * tu, b * cu);
        };
        collect(max_parametric(box.g, rr, d, zero, dist));
    }
    ctx.event("optimizations");
    ctx.event("weights evaluated", calls);
    if (improvable)
    {
        ctx.event("optimum below start");
        ctx.expect(N::equals(rr, q.num, q.den), "wrong-optimum", cat("r = ", rr, ", the minimum ratio is ", q.num, "/", q.den));
        if (ctx.expect(!ids.empty(), "no-cycle", "the critical cycle is missing"))
        {
            const auto why = not_a_cycle(q.p, ids);
            ctx.expect(why.empty(), "not-a-cycle", why + " " + vec(ids));
            I64 a = 0, b = 0;
            for (auto k : ids)
            {
                a += q.cost[k];
                b += q.time[k];
            }
            ctx.expect(N::equals(rr, a * tu, b * cu), "cycle-ratio", cat("the returned cycle has ratio ", a * tu, "/", b * cu, ", r = ", rr));
        }
    }
    else
    {
        ctx.event(at ? "start at optimum" : q.has_cycle ? "start below optimum" : "no cycle");
        ctx.expect(ids.empty() && rr == r0, "moved", cat("nothing lies below the start, but r = ", rr, " and cycle ", vec(ids)));
    }
    // no negative cycle remains at the reported value (exact certificate)
    if (!(q.has_cycle && !improvable && !at))
    {
        std::vector<I128> w;
        I64 a = improvable ? q.num : sa, b = improvable ? q.den : sb;
        for (size_t k = 0; k != q.p.m(); ++k)
            w.push_back(I128(q.cost[k]) * tu * b - I128(a) * q.time[k] * cu);
        if (has_negative(q.p, w))
        {
            std::fprintf(stderr, "reference optimum is not optimal\n");
            std::exit(3);
        }
    }
    if (q.has_cycle)
    {
        uint64_t h = hashs(tag);
        for (size_t k = 0; k != q.p.m(); ++k)
            h = mix(h, uint64_t(q.p.e[k].first * 9 + q.p.e[k].second) + uint64_t(q.cost[k] * 1000 + q.time[k]));
        ctx.nontrivial(h);
    }
    ctx.sample(ctx.desc);
}

// one run of min_cycle_ratio in doubles with rounding, in a child process
// because a failing assertion ends it
struct FloatRun
{
    int state = 0; // 0 ended, 1 assertion of the finder, 2 anything else
    double r = 0.;
    std::vector<size_t> ids;
};
template <typename F>
FloatRun in_child(F&& f)
{
    FloatRun out;
    int fd[2], er[2];
    if (pipe(fd) != 0 || pipe(er) != 0)
        throw Skip();
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0)
        throw Skip();
    if (pid == 0)
    {
        dup2(er[1], 2);
        std::signal(SIGABRT, [](int) { _exit(70); });
        itimerval t {};
        t.it_value.tv_sec = 20;
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
        double r = 0.;
        std::vector<size_t> ids;
        try
        {
            f(r, ids);
        }
        catch (...)
        {
            _exit(71);
        }
        double buf[64];
        size_t n = 0;
        buf[n++] = r;
        for (auto k : ids)
            if (n < 64)
                buf[n++] = double(k);
        if (write(fd[1], buf, n * sizeof(double)) < 0)
            _exit(72);
        _exit(0);
    }
    close(fd[1]);
    close(er[1]);
    double buf[64];
    const ssize_t got = read(fd[0], buf, sizeof buf);
    std::string err;
    char c[512];
    for (ssize_t k; (k = read(er[0], c, sizeof c)) > 0;)
        err.append(c, size_t(k));
    close(fd[0]);
    close(er[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && got >= ssize_t(sizeof(double)))
    {
        out.r = buf[0];
        for (size_t k = 1; k < size_t(got) / sizeof(double); ++k)
            out.ids.push_back(size_t(buf[k]));
    }
    else
        out.state = WIFEXITED(st) && WEXITSTATUS(st) == 70 && err.find("_is_negative") != std::string::npos ? 1 : 2;
    return out;
}

void c18_float(Ctx& ctx, const RatioProblem& q, double start)
{
    const BoostVec box(q.p);
    ctx.scenario(cat("double ", show(q), " start r=", start, " optimum ", q.num, "/", q.den));
    auto res = in_child([&](double& rr, std::vector<size_t>& ids) {
        std::vector<double> dist(size_t(q.p.n), 0.);
        rr = start;
        long calls = 0;
        auto cost = [&](const auto& e) {
            if (++calls > 1000000)
                throw Overrun("does not converge");
            return double(q.cost[box.id(e)]);
        };
        auto time = [&](const auto& e) { return double(q.time[box.id(e)]); };
        auto C = min_cycle_ratio(box.g, rr, cost, time, dist);
        for (auto&& e : C)
            ids.push_back(box.id(e));
    });
    ctx.event("rounded optimizations");
    const double star = double(q.num) / double(q.den);
    auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * (1. + std::fabs(y)); };
    if (res.state == 1)
    { // a cycle of weight zero, negative by rounding, fails the self-check
        ctx.event("ended by its assertion");
        ctx.fail("float-rounding-stop", "assertion _is_negative failed on rounded weights");
        return;
    }
    if (!ctx.expect(res.state == 0, "float-crash", "the run did not end normally"))
        return;
    if (!q.has_cycle || start < star)
    {
        ctx.expect(res.ids.empty() && res.r == start, "moved", cat("nothing below the start, but r = ", res.r));
        return;
    }
    if (near(start, star))
        return; // a tie within rounding
    if (!ctx.expect(!res.ids.empty(), "no-cycle", "the critical cycle is missing"))
        return;
    const auto why = not_a_cycle(q.p, res.ids);
    if (!ctx.expect(why.empty(), "not-a-cycle", why + " " + vec(res.ids)))
        return;
    I64 a = 0, b = 0;
    for (auto k : res.ids)
    {
        a += q.cost[k];
        b += q.time[k];
    }
    ctx.expect(near(res.r, double(a) / double(b)), "cycle-ratio", cat("the returned cycle has ratio ", a, "/", b, ", r = ", res.r));
    if (near(res.r, star))
        ctx.event("rounded optimum found");
    else if (res.r > star && res.r < start)
    { // stopped at a cycle whose weight at its own ratio rounds below zero
        ctx.event("stopped early");
        ctx.fail("float-rounding-stop", cat("r = ", res.r, " but the minimum ratio is ", star));
    }
    else
        ctx.fail("wrong-optimum", cat("r = ", res.r, ", the minimum ratio is ", star));
}
} // namespace

VH_PROPERTY(C18)
{
    using F = fun::Fraction<long>;
    ctx.group("ratio-fraction", 4000, [&](Rng& r) { c18_case<BoostVec, F>(ctx, r, "boost-vec/fraction", false); });
    ctx.group("ratio-double", 3000, [&](Rng& r) { c18_case<BoostVec, double>(ctx, r, "boost-vec/double", false); });
    ctx.group("ratio-dict", 2000, [&](Rng& r) { c18_case<NamedBox, double>(ctx, r, "named-dict/double", false); });
#ifndef VH_REDUCED
    ctx.group("ratio-fraction-data", 2000, [&](Rng& r) { c18_case<BoostVec, F, F, F>(ctx, r, "boost-vec/fraction(fraction)", false); });
    ctx.group("ratio-fraction-costs", 1500, [&](Rng& r) { c18_case<BoostList, F, F, long>(ctx, r, "boost-list/fraction(fraction,long)", false); });
#endif
    ctx.group("ratio-double-int", 1500, [&](Rng& r) { c18_case<BoostVec, double, double, int>(ctx, r, "boost-vec/double(double,int)", false); });
    ctx.group("ratio-int-double", 1500, [&](Rng& r) { c18_case<BoostVec, double, int, double>(ctx, r, "boost-vec/double(int,double)", false); });
    ctx.group("ratio-int", 1000, [&](Rng& r) { c18_case<BoostList, double, int, short>(ctx, r, "boost-list/double(int,short)", false); });
    ctx.group("ratio-float", 1000, [&](Rng& r) { c18_case<BoostVec, double, float, float>(ctx, r, "boost-vec/double(float)", false); });
    ctx.group("ratio-list", 1000, [&](Rng& r) { c18_case<BoostList, double>(ctx, r, "boost-list/double", false); });
    ctx.group("parametric-fraction", 3000, [&](Rng& r) { c18_case<BoostVec, F>(ctx, r, "boost-vec/fraction", true); });
    ctx.group("parametric-double", 1500, [&](Rng& r) { c18_case<BoostVec, double>(ctx, r, "boost-vec/double", true); });
    // rounded arithmetic: the recorded instance, then random ones
    ctx.group("rounded-known", 1, [&](Rng&) {
        RatioProblem q;
        q.p.n = 5;
        q.p.e = {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}, {2, 4}, {3, 3}, {0, 0}, {2, 2}, {0, 1}, {0, 1}, {4, 1}};
        q.cost = {-3, 9, 10, 0, 0, 7, 10, -2, 5, -3, -1, 6};
        q.time = std::vector<I64>(12, 1);
        q.has_cycle = true;
        q.num = -2;
        c18_float(ctx, q, 200.);
    });
    ctx.group("rounded", 1000, [&](Rng& r) {
        const RatioProblem q = gen_ratio(r, 6, r.chance(0.5) ? 10 : 60, 3);
        c18_float(ctx, q, double(r.i(70, 200)));
    });
    // large graphs with many cycles of slowly decreasing ratio; all numbers are dyadic, so
    // that doubles are exact too. Optimal: the ratio of the returned cycle, and no negative
    // cycle left at it
    auto ladder = [&ctx](Rng& r, auto zero, const char* tag) {
        using T = decltype(zero);
        Plain p;
        p.n = int(r.chance(0.2) ? r.i(150, 400) : r.i(8, 120));
        std::vector<I64> cost, time;
        auto add = [&](int u, int v, I64 c, I64 t) {
            p.e.push_back({u, v});
            cost.push_back(c);
            time.push_back(t);
        };
        const I64 step = r.i(1, 5);
        const int kind = int(r.i(0, 2));
        for (int v = 0; v != p.n; ++v)
        {
            const I64 rank = kind == 0 ? v : kind == 1 ? p.n - v : r.i(0, p.n);
            const I64 t = r.chance(0.5) ? 1 : I64(1) << r.i(0, 2);
            if (r.chance(0.8))
                add(v, v, (-rank * step - r.i(0, 1)) * t, t);
            if (v + 1 < p.n && r.chance(0.6))
            { // there and back: the times add up to a power of two
                const I64 a = r.i(0, 4), b = 4 - a, c = r.i(-50, 50);
                add(v, v + 1, c, a);
                add(v + 1, v, -rank * step * 4 - r.i(0, 3) - c, b);
                ++v;
            }
            if (v + 3 < p.n && r.chance(0.5)) // upwards only, from pair to pair
                add(v, int(r.i(v + 2, std::min(p.n - 1, v + 9))), r.i(-100, 100), r.i(0, 3));
        }
        if (r.chance(0.5))
            for (size_t k = p.m(); k > 1; --k)
            {
                const size_t j = size_t(r.i(0, int64_t(k) - 1));
                std::swap(p.e[k - 1], p.e[j]);
                std::swap(cost[k - 1], cost[j]);
                std::swap(time[k - 1], time[j]);
            }
        const BoostVec box(p);
        const I64 start = r.i(2000, 4000);
        auto dist = std::vector<T>(size_t(p.n), zero);
        T rr = Num<T>::make(start, 1);
        ctx.scenario(cat(tag, " ", p.str(), " cost=", vec(cost), " time=", vec(time), " start r=", start));
        long asked = 0;
        using W = typename Num<T>::cost_t;
        auto C = min_cycle_ratio(box.g, rr, [&](const auto& e) {
            if (++asked > 200000000)
                throw Overrun("does not converge");
            return W(cost[box.id(e)]); }, [&](const auto& e) { return W(time[box.id(e)]); }, dist);
        std::vector<size_t> ids;
        I64 a = 0, b = 0;
        for (auto&& e : C)
        {
            ids.push_back(box.id(e));
            a += cost[ids.back()];
            b += time[ids.back()];
        }
        ctx.event("large optimizations");
        if (ids.empty())
        {
            ctx.expect(Num<T>::equals(rr, start, 1), "moved", "the value moved without a cycle");
            a = start;
            b = 1;
        }
        else
        {
            const auto why = not_a_cycle(p, ids);
            if (!ctx.expect(why.empty(), "not-a-cycle", why + vec(ids)))
                return;
            ctx.expect(Num<T>::equals(rr, a, b), "cycle-ratio", cat("cycle ratio ", a, "/", b, " but r = ", rr));
        }
        std::vector<I128> w;
        for (size_t k = 0; k != p.m(); ++k)
            w.push_back(I128(cost[k]) * b - I128(a) * time[k]);
        ctx.expect(!has_negative(p, w), "wrong-optimum", cat("r = ", rr, ", but some cycle has a smaller ratio"));
        ctx.nontrivial(mix(uint64_t(p.m()) * 7919 + uint64_t(p.n), uint64_t(a + 100000)));
    };
    ctx.group("ladder-double", 60, [&](Rng& r) { ladder(r, 0., "ladder/double"); });
    ctx.group("ladder-fraction", 30, [&](Rng& r) { ladder(r, F(0L), "ladder/fraction"); });
    // larger graphs of any shape, in rationals of any size: certified by the returned
    // cycle and by the absence of a negative cycle at its ratio
    auto large = [&ctx](Rng& r, bool general) {
        using Z = boost::multiprecision::number<boost::multiprecision::cpp_rational_backend, boost::multiprecision::et_off>;
        const Plain p = gen_graph(r, r.chance(0.1) ? 60 : 25, true, r.chance(0.5) ? 2.2 : 4.);
        const I64 cmax = r.chance(0.3) ? 3 : r.chance(0.5) ? 100 : 1000000007, tmax = r.chance(0.3) ? 1 : r.chance(0.5) ? 4 : 1000000009;
        std::vector<I64> cost, time;
        for (auto& e : p.e)
        {
            cost.push_back(r.i(-cmax, cmax));
            time.push_back(e.first < e.second && r.chance(0.3) ? 0 : r.i(1, tmax));
        }
        if (r.chance(0.2)) // nearly proportional: close ratios
            for (size_t k = 0; k != p.m(); ++k)
                cost[k] = -3 * time[k] + r.i(-1, 1);
        const BoostVec box(p);
        const I64 cu = r.i(1, 9), tu = r.i(1, 9); // units of the data
        std::vector<Z> dist;
        const I64 span = r.chance(0.4) ? 0 : r.chance(0.5) ? 10 : 1000000;
        for (int v = 0; v != p.n; ++v)
            dist.push_back(Z(r.i(-span, span)) / Z(r.i(1, 5)));
        I64 sa = 2000000011LL * 9 * 10, sb = 1;
        if (r.chance(0.4))
        {
            sa = r.i(-2 * cmax, 2 * cmax);
            sb = r.i(1, 5);
        }
        const Z start = Z(sa) / Z(sb);
        Z rr = start;
        ctx.scenario(cat(general ? "parametric " : "ratio ", "rational ", p.str(), " cost=", vec(cost), " in 1/", cu, " time=", vec(time),
            " in 1/", tu, " dist=", vec(dist), " start ", sa, "/", sb));
        long asked = 0;
        auto tick = [&]() {
            if (++asked > 2000000)
                throw Overrun("does not converge");
        };
        auto c = [&](const auto& e) { tick(); return Z(cost[box.id(e)]) / Z(cu); };
        auto t = [&](const auto& e) { return Z(time[box.id(e)]) / Z(tu); };
        std::vector<size_t> ids;
        auto collect = [&](auto&& C) {
            for (auto&& e : C)
                ids.push_back(box.id(e));
        };
        if (!general)
            collect(min_cycle_ratio(box.g, rr, c, t, dist));
        else
            collect(max_parametric(box.g, rr, [&](const Z& x, const auto& e) -> Z { return c(e) - x * t(e); },
                [&](const auto& C) -> Z {
                    Z a = 0, b = 0;
                    for (auto&& e : C)
                    {
                        a += c(e);
                        b += t(e);
                    }
                    return a / b;
                },
                dist));
        ctx.event("rational optimizations");
        ctx.event("weights evaluated", asked);
        // at value a / b: weights cost tu b - a time cu
        Z a = start;
        if (!ids.empty())
        {
            const auto why = not_a_cycle(p, ids);
            if (!ctx.expect(why.empty(), "not-a-cycle", why + vec(ids)))
                return;
            Z x = 0, y = 0;
            for (auto k : ids)
            {
                x += Z(cost[k]) / Z(cu);
                y += Z(time[k]) / Z(tu);
            }
            a = x / y;
            ctx.expect(a < start, "cycle-above-start", "the returned cycle is no better than the start");
        }
        if (!ctx.expect(rr == a, "cycle-ratio", cat("r = ", rr, ", ratio of the cycle (or start) ", a)))
            return;
        std::vector<Z> w;
        for (size_t k = 0; k != p.m(); ++k)
            w.push_back(Z(cost[k]) / Z(cu) - a * (Z(time[k]) / Z(tu)));
        const bool neg = has_negative(p, w);
        if (ids.empty())
        { // nothing returned: nothing may lie below the start
            ctx.event("nothing below start", !neg);
            ctx.expect(!neg, "no-cycle", "a cycle below the start value is missing");
        }
        else
            ctx.expect(!neg, "wrong-optimum", cat("r = ", rr, ", but some cycle has a smaller ratio"));
        ctx.nontrivial(mix(uint64_t(p.m()) * 7919 + uint64_t(p.n), uint64_t(asked)));
    };
    ctx.group("ratio-rational", 600, [&](Rng& r) { large(r, false); });
    ctx.group("parametric-rational", 300, [&](Rng& r) { large(r, true); });
    // a limit of one iteration: the first cycle's ratio, no more
    ctx.group("limited", 600, [&](Rng& r) {
        const RatioProblem q = gen_ratio(r, 6, 20, 3);
        const BoostVec box(q.p);
        std::vector<F> dist(size_t(q.p.n), F(0L));
        F rr(500L);
        const size_t lim = size_t(r.i(0, 2));
        ctx.scenario(cat(show(q), " limit ", lim));
        auto C = min_cycle_ratio(box.g, rr, [&](const auto& e) { return long(q.cost[box.id(e)]); },
            [&](const auto& e) { return long(q.time[box.id(e)]); }, dist, lim);
        if (lim == 0 || !q.has_cycle)
            ctx.expect(C.empty() && rr == F(500L), "moved", "the value moved without an iteration");
        else
        {
            I64 a = 0, b = 0;
            std::vector<size_t> ids;
            for (auto&& e : C)
            {
                ids.push_back(box.id(e));
                a += q.cost[ids.back()];
                b += q.time[ids.back()];
            }
            const auto why = not_a_cycle(q.p, ids);
            if (ctx.expect(why.empty(), "not-a-cycle", why + vec(ids)))
                ctx.expect(Num<F>::equals(rr, a, b), "cycle-ratio", cat("cycle ratio ", a, "/", b, " but r = ", rr));
            ctx.nontrivial(mix(uint64_t(a + 10000), uint64_t(b)));
        }
        ctx.event("limited runs");
    });
}

// ------------------------------------------------------------ C19
namespace
{
// h(e,x) = a_e + b_e' x[0..p) - c_e t + x[p+e]
struct LinState
{
    int p = 0;
    std::vector<double> a, c;
    std::vector<std::vector<double>> b;
    double t = 0., wu = 1.; // target, unit of the weights
    long evals = 0, grads = 0, updates = 0, limit = 0;
};
template <typename Box>
struct LinH
{
    std::shared_ptr<LinState> s;
    const Box* box;
    double eval(const typename Box::G::edge_t& e, const Arr& x) const
    {
        if (++s->evals > s->limit)
            throw Overrun("the oracle evaluates more weights than it needs");
        const size_t k = box->id(e);
        double v = s->a[k] - s->c[k] * s->t + x(size_t(s->p) + k);
        for (int i = 0; i != s->p; ++i)
            v += s->b[k][size_t(i)] * x(size_t(i));
        return v * s->wu;
    }
    Arr grad(const typename Box::G::edge_t& e, const Arr& x) const
    {
        ++s->grads;
        const size_t k = box->id(e);
        Arr g = xt::zeros<double>(x.shape());
        for (int i = 0; i != s->p; ++i)
            g(size_t(i)) = s->b[k][size_t(i)] * s->wu;
        g(size_t(s->p) + k) = s->wu;
        return g;
    }
    template <typename T>
    void update(const T& t)
    {
        s->t = double(t);
        ++s->updates;
    }
};

template <typename Box>
void c19_network(Ctx& ctx, Rng& r, const char* tag)
{
    const Plain p = gen_graph(r, r.chance(0.02) ? (r.chance(0.1) ? 120 : 25) : 6, true);
    const Box box(p);
    auto s = std::make_shared<LinState>();
    s->p = int(r.i(1, 3));
    const double wu = s->wu = unit(r);
    const size_t m = p.m();
    for (size_t k = 0; k != m; ++k)
    {
        s->a.push_back(double(r.i(-4, 12)));
        s->c.push_back(double(r.i(0, 2)));
        s->b.emplace_back();
        for (int i = 0; i != s->p; ++i)
            s->b.back().push_back(double(r.i(-3, 3)));
    }
    std::vector<double> d0(size_t(p.n), 0.);
    if (r.chance(0.6))
        for (auto& x : d0)
            x = double(r.i(-20, 20)) * wu;
    auto u = Box::dist(d0);
    using U = decltype(u);
    network_oracle<typename Box::G, U, LinH<Box>> first(box.g, u, LinH<Box> {s, &box});
    network_oracle<typename Box::G, U, LinH<Box>> second(first); // shares u by contract
    const long queries = r.i(2, 7);
    uint64_t h = hashs(tag);
    for (long q = 0; q < queries; ++q)
    {
        auto& omega = r.chance(0.8) ? first : second;
        if (r.chance(0.4))
        {
            const double t = double(r.i(-3, 6));
            const long before = s->updates;
            if (r.chance(0.5))
                omega.update(t);
            else
                omega.update(int(t));
            ctx.expect(s->t == t && s->updates == before + 1, "update-lost", "the target did not reach the weights");
        }
        Arr x = xt::zeros<double>({size_t(s->p) + m});
        for (size_t i = 0; i != x.size(); ++i)
            x(i) = i < size_t(s->p) || r.chance(0.1) ? double(r.i(-3, 3)) : 0.;
        std::vector<I64> w;
        for (size_t k = 0; k != m; ++k)
        {
            double v = s->a[k] - s->c[k] * s->t + x(size_t(s->p) + k);
            for (int i = 0; i != s->p; ++i)
                v += s->b[k][size_t(i)] * x(size_t(i));
            w.push_back(I64(v));
        }
        ctx.scenario(cat(tag, " ", p.str(), " w=", vec(w), " query ", q, " of ", queries, " unit ", wu));
        s->evals = 0;
        s->limit = 5L * (p.n + 2) * long(m + 1) + 16L * p.n + 64;
        const Arr x_before = x;
        const auto cut = omega(x);
        ctx.event("network queries");
        ctx.expect(x == x_before, "x-changed", "the queried point was changed");
        const bool neg = has_negative(p, w);
        h = mix(h, neg ? 3 : 5);
        if (!cut)
        {
            ctx.event("accepted");
            ctx.expect(!neg, "accepted-infeasible", "accepted although there is a negative cycle");
            if (!neg)
                for (size_t k = 0; k != m; ++k)
                    ctx.expect(Box::at(u, p.e[k].second) <= Box::at(u, p.e[k].first) + double(w[k]) * wu,
                        "bad-potential", cat("potentials of an accepted point violate edge ", k));
            continue;
        }
        ctx.event("cut");
        ctx.expect(neg, "rejected-feasible", "cut although there is no negative cycle");
        auto [g, f] = *cut;
        g /= wu;
        f /= wu;
        if (!ctx.expect(g.dimension() == 1 && g.size() == x.size(), "gradient-shape", "wrong gradient shape"))
            continue;
        std::vector<long> cnt(m);
        bool integral = true;
        for (size_t k = 0; k != m; ++k)
        {
            const double c = -g(size_t(s->p) + k);
            cnt[k] = long(c);
            integral = integral && double(cnt[k]) == c && c >= 0.;
        }
        const auto why = integral ? not_a_cycle_set(p, cnt) : std::string("edge multiplicities are not counts");
        if (!ctx.expect(why.empty(), "not-a-cycle", why + " " + vec(cnt)))
            continue;
        I64 tot = 0;
        std::vector<double> gg(size_t(s->p), 0.);
        for (size_t k = 0; k != m; ++k)
            if (cnt[k])
            {
                tot += w[k];
                for (int i = 0; i != s->p; ++i)
                    gg[size_t(i)] -= s->b[k][size_t(i)];
            }
        ctx.expect(tot < 0, "not-negative", cat("the cycle ", vec(cnt), " has weight ", tot));
        ctx.expect(f == double(-tot), "wrong-value", cat("value ", f, " but the cycle has weight ", tot));
        for (int i = 0; i != s->p; ++i)
            ctx.expect(g(size_t(i)) == gg[size_t(i)], "wrong-gradient", cat("component ", i, " is ", g(size_t(i)), " expected ", gg[size_t(i)]));
    }
    for (auto v : s->a)
        h = hashd(h, v);
    for (auto& e : p.e)
        h = mix(h, uint64_t(e.first * 10 + e.second));
    if (m)
        ctx.nontrivial(h);
    ctx.sample(ctx.desc);
}

// optimal scaling ----------------------------------------------------------
struct Scaling
{
    Plain p;
    std::vector<double> cost;
    // a x0 - b x1 >= C for every cycle
    std::vector<std::array<double, 3>> con;
    double opt = 0.;
    double u = 1.; // unit of the costs
    void rescale(double k)
    {
        u *= k;
        opt *= k;
        for (auto& c : cost)
            c *= k;
        for (auto& c : con)
            c[2] *= k;
    }
};
Scaling gen_scaling(Rng& r, bool integer)
{
    Scaling s;
    s.p.n = int(r.i(2, 5));
    // at least one two-cycle makes the problem bounded
    auto add = [&](int u, int v) {
        s.p.e.push_back({u, v});
        s.cost.push_back(integer ? double(r.i(-6, 6)) : r.u(-3., 3.));
    };
    int a = int(r.i(0, s.p.n - 2)), b = int(r.i(a + 1, s.p.n - 1));
    add(a, b);
    add(b, a);
    for (long k = r.i(0, 2 * s.p.n); k > 0; --k)
    {
        int u = int(r.i(0, s.p.n - 1)), v = int(r.i(0, s.p.n - 1));
        if (u != v)
            add(u, v);
    }
    for (auto& c : all_cycles(s.p, 3000))
    {
        std::array<double, 3> q {0., 0., 0.};
        for (auto k : c)
            if (s.p.e[k].first < s.p.e[k].second)
            {
                q[0] += 1.;
                q[2] += s.cost[k];
            }
            else
            {
                q[1] += 1.;
                q[2] -= s.cost[k];
            }
        s.con.push_back(q);
    }
    // min x0 - x1: the best multiplier pair of the dual
    s.opt = -1e300;
    for (auto& p : s.con)
    {
        if (p[0] == p[1])
            s.opt = std::max(s.opt, p[2] / p[0]);
        for (auto& q : s.con)
        { // l p + k q = (1,1) with l,k >= 0
            const double det = p[0] * q[1] - q[0] * p[1];
            if (det == 0.)
                continue;
            const double l = (q[1] - q[0]) / det, k = (p[0] - p[1]) / det;
            if (l >= 0. && k >= 0.)
                s.opt = std::max(s.opt, l * p[2] + k * q[2]);
        }
    }
    return s;
}
double worst(const Scaling& s, double x0, double x1) // > 0: infeasible
{
    double w = -1e300;
    for (auto& c : s.con)
        w = std::max(w, c[2] - c[0] * x0 + c[1] * x1);
    return w;
}
std::string show(const Scaling& s)
{
    return cat(s.p.str(), " cost=", vec(s.cost), " optimum ", s.opt);
}

template <typename Box>
void c19_scaling(Ctx& ctx, Rng& r, const char* tag)
{
    const bool integer = r.chance(0.6);
    Scaling s = gen_scaling(r, integer);
    const double wu = unit(r);
    s.rescale(wu);
    const Box box(s.p);
    auto u = Box::dist(std::vector<double>(size_t(s.p.n), r.chance(0.5) ? 0. : double(r.i(-9, 9)) * wu));
    auto cost = [&](const typename Box::G::edge_t& e) -> double { return s.cost[box.id(e)]; };
    optscaling_oracle<typename Box::G, decltype(u), decltype(cost)> omega(box.g, u, cost);
    double t = r.chance(0.3) ? 1e10 * wu : s.opt + double(r.i(-2, 20)) * wu;
    const long queries = r.i(3, 10);
    uint64_t h = hashs(tag);
    for (long q = 0; q < queries; ++q)
    {
        Arr x {0., 0.};
        x(0) = double(r.i(-8, 12));
        x(1) = double(r.i(-12, 8));
        if (!integer)
        {
            x(0) += r.u(-0.5, 0.5);
            x(1) += r.u(-0.5, 0.5);
        }
        x *= wu;
        const double viol = worst(s, x(0), x(1));
        ctx.scenario(cat(tag, " ", show(s), " x=", vec(x), " t=", t));
        const double t0 = t;
        const auto [cut, improved] = omega(x, t);
        const auto& [g, beta] = cut;
        ctx.event("scaling queries");
        const double eps = integer ? 0. : 1e-9 * wu;
        const double obj = x(0) - x(1);
        if (!ctx.expect(g.size() == 2, "gradient-shape", "wrong gradient shape"))
            break;
        // soundness: no feasible point better than the target is cut off
        const double tt = t; // new target
        for (int k = 0; k < 12; ++k)
        {
            double y0 = r.u(-15., 20.) * wu, y1 = r.u(-20., 15.) * wu;
            if (k < 6)
            { // close to the optimal edge of the feasible set
                y0 = x(0) + r.normal() * 2. * wu;
                y1 = y0 - s.opt - std::fabs(r.normal()) * wu;
            }
            if (worst(s, y0, y1) > -1e-9 * wu || y0 - y1 > tt - 1e-9 * wu)
                continue;
            ctx.event("better feasible points tested");
            const double val = g(0) * (y0 - x(0)) + g(1) * (y1 - x(1)) + beta;
            ctx.expect(val <= 1e-7 * wu, "cuts-feasible", cat("point (", y0, ",", y1, ") is feasible and better, cut value ", val));
        }
        if (viol > eps)
        { // infeasible: a cycle's cut, target untouched
            ctx.event("scaling infeasible");
            ctx.expect(!improved && t == t0, "improved-infeasible", cat("target moved to ", t, " at an infeasible point"));
            bool match = false;
            for (auto& c : s.con)
                match = match || (std::fabs(g(0) + c[0]) < 1e-12 && std::fabs(g(1) - c[1]) < 1e-12 &&
                    std::fabs(beta - (c[2] - c[0] * x(0) + c[1] * x(1))) < 1e-9 * wu);
            ctx.expect(match && beta > 0., "not-a-cycle-cut", cat("cut ", vec(g), ", ", beta, " is no violated cycle's"));
        }
        else if (viol < -eps || integer)
        {
            ctx.event("scaling feasible");
            const bool better = obj < t0;
            ctx.expect(improved == better, "wrong-improvement", cat("objective ", obj, " target ", t0, " improved ", improved));
            ctx.expect(t == (better ? obj : t0), "wrong-target", cat("target ", t0, " became ", t, " at objective ", obj));
            ctx.expect(g(0) > 0. && std::fabs(g(0) + g(1)) < 1e-12 * g(0) &&
                    std::fabs(beta - g(0) * (better ? 0. : obj - t0)) <= 1e-9 * (wu + std::fabs(beta)),
                "wrong-objective-cut", cat("cut ", vec(g), ", ", beta, " objective ", obj, " target ", t0));
        }
        h = hashd(h, viol);
    }
    ctx.nontrivial(h);
    ctx.sample(ctx.desc);
}

} // namespace

VH_PROPERTY(C19)
{
    ctx.group("network-vec", 3000, [&](Rng& r) { c19_network<BoostVec>(ctx, r, "boost-vec"); });
    ctx.group("network-dict", 1500, [&](Rng& r) { c19_network<NamedBox>(ctx, r, "named-dict"); });
    ctx.group("scaling", 2500, [&](Rng& r) { c19_scaling<BoostVec>(ctx, r, "boost-vec"); });
    ctx.group("scaling-list", 1000, [&](Rng& r) { c19_scaling<BoostList>(ctx, r, "boost-list"); });
    // driven by the cutting-plane method to the optimum
    ctx.group("scaling-solve", 250, [&](Rng& r) {
        const Scaling s = gen_scaling(r, r.chance(0.5));
        const BoostVec box(s.p);
        std::vector<double> u(size_t(s.p.n), 0.);
        auto cost = [&](const BoostVec::G::edge_t& e) -> double { return s.cost[box.id(e)]; };
        optscaling_oracle<BoostVec::G, std::vector<double>, decltype(cost)> omega(box.g, u, cost);
        ell E(200., Arr {0., 0.});
        double t = 1e100;
        ctx.scenario(cat("solve ", show(s)));
        // an optimal point (y, y - opt) close to the start, if there is one
        double lo = -1e300, hi = 1e300;
        for (auto& c : s.con)
        {
            const double k = c[0] - c[1], rhs = c[2] - c[1] * s.opt;
            if (k > 0.)
                lo = std::max(lo, rhs / k);
            else if (k < 0.)
                hi = std::min(hi, rhs / k);
        }
        const double ys = std::min(std::max(s.opt / 2., lo), hi);
        const bool reachable = ys * ys + (ys - s.opt) * (ys - s.opt) < 150.;
        // the objective cut bounds the gap; rounding is bounded by the sizes
        bool last_objective = false;
        double size = 1.;
        auto wrapped = [&](const Arr& x, double& tt) {
            auto res = omega(x, tt);
            const auto& g = std::get<0>(std::get<0>(res));
            last_objective = worst(s, x(0), x(1)) <= 0.;
            (void)g;
            size = std::max({size, std::fabs(x(0)), std::fabs(x(1))});
            for (auto& y : u)
                size = std::max(size, std::fabs(y));
            return res;
        };
        const double tol = 1e-10;
        const auto [x, info] = cutting_plane_dc(wrapped, E, t, Options {2000, tol});
        ctx.event("scaling problems solved");
        if (size > 1e4)
        { // the unbounded direction made the numbers large: rounding decides
            ctx.event("not judged: large numbers");
            return;
        }
        const double eps = 1e-12 * size;
        if (info.feasible)
        {
            ctx.expect(std::fabs(t - (x(0) - x(1))) <= 1e-12 * size, "value-of-best", cat("t=", t, " x=", vec(x)));
            ctx.expect(worst(s, x(0), x(1)) <= 10. * eps, "best-infeasible", cat("x=", vec(x), " violates a cycle by ", worst(s, x(0), x(1))));
            ctx.expect(t >= s.opt - 10. * eps, "below-optimum", cat("t=", t));
        }
        if (reachable)
        {
            ctx.expect(info.status != CUTStatus::nosoln || info.feasible, "lost-optimum", "no solution reported though the optimum is inside");
            if (last_objective && info.status == CUTStatus::smallenough)
            {
                ctx.event("gap judged");
                ctx.expect(info.feasible && t <= s.opt + 1.01 * std::sqrt(tol) + 1e-7, "gap", cat("t=", t, " optimum ", s.opt, " after ", info.num_iters));
            }
        }
        uint64_t h = 7;
        for (auto c : s.cost)
            h = hashd(h, c);
        ctx.nontrivial(h);
        ctx.sample(cat(ctx.desc, " -> ", t, " in ", info.num_iters));
    });
    // cycle ratio oracle: queries and solved with the interval space
    ctx.group("ratio-oracle", 2500, [&](Rng& r) {
        const RatioProblem q = gen_ratio(r, 6, 12, 3);
        const BoostVec box(q.p);
        const double cu = unit(r), tu = unit(r), ru = cu / tu; // units of costs, times, ratios
        std::vector<double> u(size_t(q.p.n), double(r.i(-5, 5)) * cu);
        auto cost = [&](const BoostVec::G::edge_t& e) -> double { return double(q.cost[box.id(e)]) * cu; };
        auto time = [&](const BoostVec::G::edge_t& e) -> double { return double(q.time[box.id(e)]) * tu; };
        cycle_ratio_oracle<BoostVec::G, std::vector<double>, decltype(cost), decltype(time)> omega(box.g, u, cost, time);
        double t = r.chance(0.5) ? -1e6 : double(r.i(-15, 10));
        for (long k = r.i(2, 8); k > 0; --k)
        {
            const double x = double(r.i(-60, 60)) / 4.; // dyadic: exact arithmetic
            const double t0 = t;
            ctx.scenario(cat(show(q), " x=", x, " t=", t0, " optimum ", q.num, "/", q.den, " units ", cu, " ", tu));
            double tr = t * ru;
            const auto [cut, improved] = omega(x * ru, tr);
            t = tr / ru;
            const double g = std::get<0>(cut) / tu, beta = std::get<1>(cut) / cu;
            std::vector<I64> w;
            for (size_t e = 0; e != q.p.m(); ++e)
                w.push_back(4 * q.cost[e] - I64(4. * x) * q.time[e]);
            const bool neg = has_negative(q.p, w);
            ctx.event("ratio queries");
            const bool better = x > t0 && !neg;
            ctx.expect(improved == better, "wrong-improvement", cat("improved=", improved, " expected ", better));
            ctx.expect(t == (better ? x : t0), "wrong-target", cat("target ", t0, " became ", t));
            // a valid cut: keeps every feasible better value, touches or excludes x
            ctx.expect(beta >= 0., "cut-misses-x", cat("beta=", beta));
            const double star = q.has_cycle ? double(q.num) / double(q.den) : 1e6;
            for (double y : {star, star - 1e-3, star - 1., star - 7.})
                if (y > t)
                {
                    ctx.event("better feasible points tested");
                    ctx.expect(g * (y - x) + beta <= 1e-7, "cuts-feasible", cat("value ", y, " is feasible and better; cut ", g, ", ", beta));
                }
            // the cut is the objective's or one violated cycle's
            if (x <= t0)
                ctx.expect(g < 0. && std::fabs(beta + g * (t0 - x)) <= 1e-12 * (1. + std::fabs(beta)), "wrong-objective-cut", cat("g=", g, " beta=", beta));
            else if (better)
                ctx.expect(g < 0. && beta == 0., "wrong-objective-cut", cat("g=", g, " beta=", beta));
            else if (neg)
            {
                ctx.event("ratio infeasible");
                bool match = false;
                for (auto& c : all_cycles(q.p, 500))
                {
                    I64 a = 0, b = 0;
                    for (auto e : c)
                    {
                        a += q.cost[e];
                        b += q.time[e];
                    }
                    match = match || (g == double(b) && std::fabs(beta - (double(b) * x - double(a))) < 1e-9);
                }
                ctx.expect(match && beta > 0., "not-a-cycle-cut", cat("cut ", g, ", ", beta, " is no violated cycle's"));
            }
        }
        if (q.has_cycle)
            ctx.nontrivial(mix(uint64_t(q.num + 100000), mix(uint64_t(q.den), q.p.m())));
        ctx.sample(ctx.desc);
    });
    // larger graphs, integer data (so that everything is exact): feasibility by relaxation,
    // feasible points on the boundary by bisection over it
    ctx.group("scaling-large", 120, [&](Rng& r) {
        const Plain p = [&] {
            Plain q = gen_graph(r, r.chance(0.1) ? 60 : 24, false, r.chance(0.5) ? 2.2 : 4.);
            if (q.n < 2)
                throw Skip();
            const int a = int(r.i(0, q.n - 2)), b = int(r.i(a + 1, q.n - 1));
            q.e.push_back({a, b});
            q.e.push_back({b, a});
            return q;
        }();
        const I64 big = r.chance(0.5) ? 12 : 500;
        const double wu = unit(r);
        std::vector<I64> c;
        for (size_t k = 0; k != p.m(); ++k)
            c.push_back(r.i(-big, big));
        auto weights = [&](I64 x0, I64 x1) {
            std::vector<I64> w;
            for (size_t k = 0; k != p.m(); ++k)
                w.push_back(p.e[k].first < p.e[k].second ? x0 - c[k] : c[k] - x1);
            return w;
        };
        auto feasible = [&](I64 x0, I64 x1) { return !has_negative(p, weights(x0, x1)); };
        auto least = [&](I64 x1) { // the least x0 that goes with x1, if any
            I64 lo = -(big + std::abs(x1) + 1) * p.n, hi = -lo;
            if (!feasible(hi, x1))
                return hi + 1;
            while (hi - lo > 1)
            {
                const I64 mid = (lo + hi) >> 1;
                (feasible(mid, x1) ? hi : lo) = mid;
            }
            return hi;
        };
        const BoostVec box(p);
        std::vector<double> u(size_t(p.n), 0.);
        if (r.chance(0.5))
            for (auto& y : u)
                y = double(r.i(-3 * big, 3 * big)) * wu;
        auto cost = [&](const BoostVec::G::edge_t& e) -> double { return double(c[box.id(e)]) * wu; };
        optscaling_oracle<BoostVec::G, std::vector<double>, decltype(cost)> omega(box.g, u, cost);
        std::vector<std::pair<I64, I64>> good;
        for (int k = 0; k < 5; ++k)
        {
            const I64 x1 = r.i(-2 * big, 2 * big), x0 = least(x1);
            if (feasible(x0, x1))
                good.push_back({x0, x1});
        }
        double t = 1e6 * double(big);
        for (int q = 0; q < 8; ++q)
        {
            I64 a = r.i(-2 * big, 2 * big), b = r.i(-2 * big, 2 * big);
            if (!good.empty() && r.chance(0.6))
            { // at or next to the boundary
                std::tie(a, b) = good[size_t(r.i(0, I64(good.size()) - 1))];
                a += r.i(-1, 1);
            }
            const bool ok = feasible(a, b);
            const double t0 = t;
            double tt = t0 * wu;
            ctx.scenario(cat("large scaling ", p.str(), " cost=", vec(c), " unit ", wu, " x=(", a, ",", b, ") t=", t0));
            const auto [cut, improved] = omega(Arr {double(a) * wu, double(b) * wu}, tt);
            t = tt / wu;
            const double g0 = std::get<0>(cut)(0), g1 = std::get<0>(cut)(1), beta = std::get<1>(cut) / wu;
            ctx.event(ok ? "large scaling feasible" : "large scaling infeasible");
            const bool better = ok && double(a - b) < t0;
            ctx.expect(improved == better && t == (better ? double(a - b) : t0), "wrong-improvement",
                cat("feasible ", ok, ", improved ", improved, ", target ", t0, " became ", t));
            if (!ok)
                ctx.expect(beta > 0. && g0 <= 0. && g1 >= 0. && g0 == std::floor(g0) && g1 == std::floor(g1) && g1 - g0 <= double(p.n),
                    "not-a-cycle-cut", cat("cut ", g0, " ", g1, ", ", beta));
            for (auto& [x0, x1] : good)
                if (double(x0 - x1) <= t)
                {
                    ctx.event("better feasible points tested");
                    const double val = g0 * double(x0 - a) + g1 * double(x1 - b) + beta;
                    ctx.expect(val <= 0., "cuts-feasible", cat("(", x0, ",", x1, ") is feasible and no worse, cut value ", val));
                }
        }
        ctx.nontrivial(mix(uint64_t(p.m()) * 64 + uint64_t(p.n), uint64_t(c[0] + 5000)));
    });
    ctx.group("ratio-large", 150, [&](Rng& r) {
        const Plain p = gen_graph(r, r.chance(0.1) ? 80 : 30, true, r.chance(0.5) ? 2.2 : 4.);
        const I64 big = r.chance(0.5) ? 12 : 500;
        const double cu = unit(r), tu = unit(r), ru = cu / tu;
        std::vector<I64> c, d;
        for (auto& e : p.e)
        {
            c.push_back(r.i(-big, big));
            d.push_back(e.first < e.second && r.chance(0.3) ? 0 : r.i(1, 9));
        }
        auto neg64 = [&](I64 x) { // a negative cycle at ratio x / 64 ?
            std::vector<I64> w;
            for (size_t k = 0; k != p.m(); ++k)
                w.push_back(64 * c[k] - x * d[k]);
            return has_negative(p, w);
        };
        I64 lo = -64 * (big + 1) * (p.n + 1), hi = -lo; // the largest feasible ratio, in 1/64
        if (neg64(lo))
            throw Skip();
        if (neg64(hi))
            while (hi - lo > 1)
            {
                const I64 mid = (lo + hi) >> 1;
                (neg64(mid) ? hi : lo) = mid;
            }
        else
            lo = hi;
        const BoostVec box(p);
        std::vector<double> u(size_t(p.n), 0.);
        if (r.chance(0.5))
            for (auto& y : u)
                y = double(r.i(-3 * big, 3 * big)) * cu;
        auto cost = [&](const BoostVec::G::edge_t& e) -> double { return double(c[box.id(e)]) * cu; };
        auto time = [&](const BoostVec::G::edge_t& e) -> double { return double(d[box.id(e)]) * tu; };
        cycle_ratio_oracle<BoostVec::G, std::vector<double>, decltype(cost), decltype(time)> omega(box.g, u, cost, time);
        double t = r.chance(0.5) ? -1e6 : double(lo + r.i(-6400, 64)) / 64;
        for (int q = 0; q < 8; ++q)
        {
            const I64 x64 = r.chance(0.6) ? lo + r.i(-3, 3) : r.i(-128 * big, 128 * big);
            const double x = double(x64) / 64, t0 = t;
            double tr = t0 * ru;
            ctx.scenario(cat("large ratio ", p.str(), " cost=", vec(c), " time=", vec(d), " units ", cu, " ", tu, " x=", x, " t=", t0));
            const auto [cut, improved] = omega(x * ru, tr);
            t = tr / ru;
            const double g = std::get<0>(cut) / tu, beta = std::get<1>(cut) / cu;
            const bool ok = !neg64(x64);
            ctx.event(ok ? "large ratio feasible" : "large ratio infeasible");
            const bool better = ok && x > t0;
            ctx.expect(improved == better && t == (better ? x : t0), "wrong-improvement",
                cat("feasible ", ok, ", improved ", improved, ", target ", t0, " became ", t));
            ctx.expect(ok || x <= t0 || (g > 0. && beta > 0. && g == std::floor(g) && beta * 64 == std::floor(beta * 64)), "not-a-cycle-cut", cat("cut ", g, ", ", beta));
            for (I64 y : {lo, lo - 1, lo - 64, lo - 6400}) // feasible all
                if (double(y) / 64 > t)
                {
                    ctx.event("better feasible points tested");
                    // (the objective's gradient is -1 whatever the units)
                    const double val = (g > 0. ? g : g * tu) * (double(y) / 64 - x) + (g > 0. ? beta : beta * cu / ru);
                    ctx.expect(val <= 1e-9, "cuts-feasible", cat("ratio ", double(y) / 64, " is feasible and better; cut ", g, ", ", beta));
                }
        }
        ctx.nontrivial(mix(uint64_t(p.m()) * 64 + uint64_t(p.n), uint64_t(lo + 50000)));
    });
    ctx.group("ratio-solve", 400, [&](Rng& r) {
        const RatioProblem q = gen_ratio(r, 6, 12, 3);
        if (!q.has_cycle)
            throw Skip();
        const BoostVec box(q.p);
        std::vector<double> u(size_t(q.p.n), 0.);
        auto cost = [&](const BoostVec::G::edge_t& e) -> double { return double(q.cost[box.id(e)]); };
        auto time = [&](const BoostVec::G::edge_t& e) -> double { return double(q.time[box.id(e)]); };
        cycle_ratio_oracle<BoostVec::G, std::vector<double>, decltype(cost), decltype(time)> omega(box.g, u, cost, time);
        const double star = double(q.num) / double(q.den);
        ell1d E(-80. - r.u(), 80. + r.u()); // (a ratio is within 6 * 12)
        double t = -1e6;
        ctx.scenario(cat("solve ", show(q), " optimum ", star));
        const auto [x, info] = cutting_plane_dc(omega, E, t, Options {2000, 1e-16});
        ctx.event("ratio problems solved");
        if (ctx.expect(info.feasible, "not-solved", "no feasible point found"))
        {
            ctx.expect(x == t, "value-of-best", cat("t=", t, " x=", x));
            ctx.expect(std::fabs(t - star) <= 1e-6, "gap", cat("t=", t, " optimum ", star, " after ", info.num_iters));
            ctx.expect(t <= star + 1e-9, "above-optimum", cat("t=", t, " optimum ", star));
        }
        ctx.nontrivial(mix(uint64_t(q.num + 100000), mix(uint64_t(q.den), q.p.m())));
        ctx.sample(cat(ctx.desc, " -> ", t, " in ", info.num_iters));
    });
}
