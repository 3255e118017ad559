// C26: the native graph classes against a map of edges.
#include "vh.hpp"
#include <algorithm>
#include <cassert>
#include <memory>
#include <netoptim/neg_cycle.hpp>
#include <xnetwork/classes/digraphs.hpp>

using namespace vh;

namespace
{
using Pair = std::pair<int, int>;
using Data = std::map<Pair, int>; // edge -> data

std::string show(const Data& d)
{
    std::string o = "{";
    for (auto& [e, v] : d)
        o += cat(e.first, ">", e.second, "=", v, " ");
    return o + "}";
}
template <typename A>
std::vector<int> keys(const A& a)
{
    std::vector<int> k;
    for (auto&& v : a)
        k.push_back(int(v));
    std::sort(k.begin(), k.end());
    return k;
}
std::vector<int> nbrs(const Data& d, int u)
{
    std::vector<int> k;
    for (auto& kv : d)
        if (kv.first.first == u)
            k.push_back(kv.first.second);
    return k;
}

// what holds for every class: nodes
template <typename G>
void check_nodes(Ctx& ctx, G& g, int n)
{
    std::vector<int> all, got, cgot;
    for (int v = 0; v < n; ++v)
        all.push_back(v);
    for (auto v : g)
        got.push_back(v);
    const G& c = g;
    for (auto v : c)
        cgot.push_back(v);
    ctx.expect(got == all && cgot == all, "nodes", cat("nodes ", vec(got)));
    ctx.expect(int(g.number_of_nodes()) == n && int(g.order()) == n, "node-count", cat(g.number_of_nodes(), " nodes"));
    for (int v = -2; v < n + 3; ++v)
        ctx.expect(g.contains(v) == (v >= 0 && v < n) && g.has_node(v) == (v >= 0 && v < n), "has_node", cat("membership of ", v));
    const int null = g.null_vertex();
    ctx.expect(null < 0 || null >= n, "null-vertex", cat("the null vertex ", null, " is a node"));
    ctx.expect(!g.is_multigraph(), "multigraph", "is a multigraph");
    const Pair e(1, 2);
    ctx.expect(G::end_points(e) == e, "end_points", "end points of an edge");
}

// one edge set, seen through every accessor; d is symmetric when undirected
template <bool WithData, typename G>
void check_edges(Ctx& ctx, G& g, int n, const Data& d, size_t count)
{
    const G& c = g;
    ctx.expect(g.number_of_edges() == count, "edge-count", cat(g.number_of_edges(), " edges, not ", count));
    for (int u = 0; u < n; ++u)
    {
        const auto want = nbrs(d, u);
        ctx.expect(keys(c.adj()[u]) == want, "adj", cat("adj()[", u, "] is ", vec(keys(c.adj()[u]))));
        ctx.expect(keys(g.adj()[u]) == want, "adj", cat("adj()[", u, "] is ", vec(keys(g.adj()[u]))));
        ctx.expect(keys(g[u]) == want, "index", cat("[", u, "] is ", vec(keys(g[u]))));
        ctx.expect(keys(c[u]) == want, "index", cat("const [", u, "] is ", vec(keys(c[u]))));
        ctx.expect(c.degree(u) == want.size(), "degree", cat("degree of ", u, " is ", c.degree(u)));
        for (int v = 0; v < n; ++v)
        {
            const auto it = d.find({u, v});
            ctx.expect(g.has_edge(u, v) == (it != d.end()), "has_edge", cat("has_edge ", u, " ", v));
            if constexpr (WithData)
                if (it != d.end())
                    ctx.expect(c.adj()[u][v] == it->second && g[u][v] == it->second && g.adj()[u][v] == it->second, "data",
                        cat("data of ", u, ">", v, " is ", c.adj()[u][v], " not ", it->second));
        }
    }
    ctx.expect(c.adj().size() == size_t(n), "adj-size", cat("adjacency of ", c.adj().size(), " nodes"));
    int u = 0;
    for (auto&& row : c.adj())
    {
        if (u >= n)
            break;
        ctx.expect(keys(row) == nbrs(d, u), "adj-iteration", cat("row ", u));
        ++u;
    }
    ctx.expect(u == n, "adj-iteration", cat(u, " rows"));
    u = 0;
    for (auto&& rslt : c._nodes_nbrs())
    {
        if (u >= n)
            break;
        ctx.expect(int(std::get<0>(rslt)) == u && keys(std::get<1>(rslt)) == nbrs(d, u), "nodes-nbrs", cat("row ", u));
        ++u;
    }
    ctx.expect(u == n, "nodes-nbrs", cat(u, " rows"));
    ctx.event("graphs compared");
}

template <bool WithData, typename G>
void check_directed(Ctx& ctx, G& g, int n, const Data& d)
{
    check_edges<WithData>(ctx, g, n, d, d.size());
    const G& c = g;
    ctx.expect(g.is_directed(), "directed", "says it is undirected");
    for (int u = 0; u < n; ++u)
    {
        const auto want = nbrs(d, u);
        ctx.expect(keys(g.successors(u)) == want && keys(c.successors(u)) == want && keys(c.succ()[u]) == want, "successors", cat("successors of ", u));
        for (int v = 0; v < n; ++v)
            ctx.expect(g.has_successor(u, v) == (d.count({u, v}) != 0), "has_successor", cat("has_successor ", u, " ", v));
    }
    ctx.expect(!g.has_successor(n + 1, 0), "has_successor", "of no node");
    std::vector<Pair> want;
    for (auto& kv : d)
        want.push_back(kv.first);
    for (int pass = 0; pass < 2; ++pass)
    {
        std::vector<Pair> got;
        for (auto&& e : c.edges())
        {
            got.push_back(e);
            if (got.size() > 2 * d.size() + 5)
                break;
        }
        std::sort(got.begin(), got.end());
        ctx.expect(got == want, "edges", cat("enumeration ", pass, " has ", got.size(), " edges, not ", want.size()));
    }
    if (want.size() > 1)
    { // an abandoned enumeration leaves nothing behind
        auto part = c.edges();
        auto it = begin(part);
        const Pair e = *it;
        ctx.expect(d.count(e) != 0, "edges", "a listed edge was never added");
    }
    ctx.event("edge enumerations", 2);
}

// now and then the graph is moved to a new place and the old object ends
template <typename G>
void move_graph(Ctx& ctx, Rng& r, std::unique_ptr<G>& gp, std::string& how)
{
    if (!r.chance(0.15))
        return;
    gp = std::make_unique<G>(std::move(*gp));
    how += " move";
    ctx.scenario(how);
    ctx.event("graphs moved");
}

template <typename G>
void build_directed(Ctx& ctx, Rng& r, const char* name, bool data)
{
    const int n = int(r.chance(0.006) ? r.i(10, 300) : r.i(1, 9));
    auto gp = r.chance(0.5) ? std::make_unique<G>(n) : std::make_unique<G>(py::range<int>(n));
    Data d;
    std::string how = cat(name, " n=", n);
    uint64_t h = mix(hashs(name), uint64_t(n));
    ctx.scenario(how);
    check_nodes(ctx, *gp, n);
    for (int64_t k = r.i(0, 6); k >= 0; --k)
    {
        move_graph(ctx, r, gp, how);
        G& g = *gp;
        for (int64_t j = r.i(0, 5); j >= 0; --j)
        {
            const int u = int(r.i(0, n - 1)), v = int(r.i(0, n - 1)), w = int(r.i(-9, 9));
            h = mix(h, uint64_t(u * 1000 + v));
            if constexpr (!std::is_same<typename G::key_type, typename G::value_type>::value)
            {
                switch (r.i(0, 3))
                {
                    case 0:
                        g.add_edge(u, v); // keeps the data of an old edge
                        d.insert({{u, v}, 0});
                        how += cat(" ", u, ">", v);
                        break;
                    case 1:
                        g.add_edge(u, v, w);
                        d[{u, v}] = w;
                        how += cat(" ", u, ">", v, "=", w);
                        break;
                    default:
                    {
                        std::vector<Pair> es;
                        std::vector<int> ws;
                        for (int64_t q = r.i(0, 4); q > 0; --q)
                        {
                            es.push_back({int(r.i(0, n - 1)), int(r.i(0, n - 1))});
                            ws.push_back(int(r.i(-9, 9)));
                            d[es.back()] = ws.back();
                            how += cat(" ", es.back().first, ">", es.back().second, "=", ws.back(), "(list)");
                        }
                        g.add_edges_from(es, ws);
                    }
                }
            }
            else
            {
                g.add_edge(u, v);
                d.insert({{u, v}, 0});
                how += cat(" ", u, ">", v);
            }
        }
        ctx.scenario(how);
        if constexpr (std::is_same<typename G::key_type, typename G::value_type>::value)
            check_directed<false>(ctx, g, n, d);
        else
            check_directed<true>(ctx, g, n, d);
        if (r.chance(0.08))
        {
            g.clear();
            d.clear();
            how += " clear";
            ctx.scenario(how);
            check_nodes(ctx, g, n);
            check_edges<false>(ctx, g, n, d, 0);
        }
    }
    (void)data;
    check_nodes(ctx, *gp, n);
    ctx.nontrivial(h);
    ctx.sample(how);
}

template <typename G>
void build_undirected(Ctx& ctx, Rng& r, const char* name)
{
    constexpr bool with_data = !std::is_same<typename G::key_type, typename G::value_type>::value;
    const int n = int(r.chance(0.006) ? r.i(10, 300) : r.i(1, 9));
    auto gp = r.chance(0.5) ? std::make_unique<G>(n) : std::make_unique<G>(py::range<int>(n));
    Data d; // both directions
    std::set<Pair> und;
    std::string how = cat(name, " n=", n);
    uint64_t h = mix(hashs(name), uint64_t(n));
    for (int64_t k = r.i(0, 6); k >= 0; --k)
    {
        move_graph(ctx, r, gp, how);
        G& g = *gp;
        for (int64_t j = r.i(0, 5); j >= 0; --j)
        {
            const int u = int(r.i(0, n - 1)), v = int(r.i(0, n - 1)), w = int(r.i(-9, 9));
            h = mix(h, uint64_t(u * 1000 + v));
            auto put = [&](int a, int b, int x, bool keep) {
                if (!(keep && d.count({a, b})))
                    d[{a, b}] = d[{b, a}] = x;
                und.insert({std::min(a, b), std::max(a, b)});
                how += cat(" ", a, "-", b, "=", x);
            };
            if constexpr (with_data)
            {
                switch (r.i(0, 2))
                {
                    case 0:
                        g.add_edge(u, v);
                        put(u, v, 0, true);
                        break;
                    case 1:
                        g.add_edge(u, v, w);
                        put(u, v, w, false);
                        break;
                    default:
                    {
                        std::vector<Pair> es;
                        std::vector<int> ws;
                        for (int64_t q = r.i(0, 4); q > 0; --q)
                        {
                            es.push_back({int(r.i(0, n - 1)), int(r.i(0, n - 1))});
                            ws.push_back(int(r.i(-9, 9)));
                            put(es.back().first, es.back().second, ws.back(), false);
                        }
                        g.add_edges_from(es, ws);
                    }
                }
            }
            else
            {
                g.add_edge(u, v);
                put(u, v, 0, true);
            }
        }
        ctx.scenario(how);
        check_nodes(ctx, g, n);
        check_edges<with_data>(ctx, g, n, d, und.size());
        ctx.expect(!g.is_directed(), "directed", "says it is directed");
        if (r.chance(0.08))
        {
            g.clear();
            d.clear();
            und.clear();
            how += " clear";
            ctx.scenario(how);
            check_nodes(ctx, g, n);
            check_edges<false>(ctx, g, n, d, 0);
        }
    }
    ctx.nontrivial(h);
    ctx.sample(how);
}

// exact Bellman-Ford from a virtual source
bool negative(int n, const Data& d)
{
    std::vector<long> dist(static_cast<size_t>(n), 0);
    for (int it = 0; it <= n; ++it)
    {
        bool ch = false;
        for (auto& [e, w] : d)
            if (dist[size_t(e.second)] > dist[size_t(e.first)] + w)
            {
                dist[size_t(e.second)] = dist[size_t(e.first)] + w;
                ch = true;
            }
        if (!ch)
            return false;
    }
    return true;
}
void network(Ctx& ctx, Rng& r)
{
    using G = xn::SimpleDiGraphS;
    const int n = int(r.chance(0.01) ? r.i(10, 200) : r.i(1, 9));
    G g(n);
    Data d;
    const int shift = int(r.i(-2, 4));
    for (int64_t k = r.i(0, 3 * n); k > 0; --k)
    {
        const int u = int(r.i(0, n - 1)), v = int(r.i(0, n - 1)), w = int(r.i(-3, 5)) + shift;
        g.add_edge(u, v, w);
        d[{u, v}] = w;
    }
    ctx.scenario(cat("network n=", n, " ", show(d)));
    std::vector<long> dist(static_cast<size_t>(n), 0);
    negCycleFinder<G> finder(g);
    const bool neg = negative(n, d);
    for (int pass = 0; pass < 2; ++pass)
    {
        if (pass)
            std::fill(dist.begin(), dist.end(), 0L);
        const auto cyc = finder.find_neg_cycle(dist, [&](const Pair& e) { return long(g.adj()[e.first][e.second]); });
        ctx.expect(cyc.empty() == !neg, "neg-cycle", neg ? "a negative cycle was not found" : "a cycle was reported, but none is negative");
        long sum = 0;
        for (size_t k = 0; k < cyc.size(); ++k)
        {
            const auto it = d.find(cyc[k]);
            if (!ctx.expect(it != d.end(), "neg-cycle-edge", "a reported edge was never added"))
                return;
            sum += it->second;
            // listed against the direction of travel
            ctx.expect(cyc[k].first == cyc[(k + 1) % cyc.size()].second, "neg-cycle-chain", "the edges do not form a cycle");
        }
        ctx.expect(cyc.empty() || sum < 0, "neg-cycle-weight", cat("the cycle has weight ", sum));
        if (!neg)
            for (auto& [e, w] : d)
                ctx.expect(dist[size_t(e.second)] <= dist[size_t(e.first)] + w, "potential", "the potentials are not feasible");
    }
    ctx.event(neg ? "networks with negative cycle" : "networks without");
    ctx.nontrivial(hashs(ctx.desc));
}
} // namespace

VH_PROPERTY(C26)
{
    using Range = decltype(py::range<int>(1));
    ctx.group("digraph-dict", 4000, [&](Rng& r) { build_directed<xn::SimpleDiGraphS>(ctx, r, "digraph/dict", true); });
    ctx.group("digraph-set", 3000, [&](Rng& r) { build_directed<xn::DiGraphS<Range, py::set<int>>>(ctx, r, "digraph/set", false); });
    ctx.group("graph-set", 3000, [&](Rng& r) { build_undirected<xn::SimpleGraph>(ctx, r, "graph/set"); });
    ctx.group("graph-dict", 3000, [&](Rng& r) { build_undirected<xn::Graph<Range, py::dict<int, int>>>(ctx, r, "graph/dict"); });
    ctx.group("network", 6000, [&](Rng& r) { network(ctx, r); });
}
