// C25: range, enumerate, set, dict and the graph adaptor against std models.
#include "vh.hpp"
#include <algorithm>
#include <list>
#include <boost/graph/adjacency_list.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <py2cpp/py2cpp.hpp>
#include <string>

using namespace vh;

namespace
{
template <typename T>
void range_case(Ctx& ctx, Rng& r, const char* name)
{
    const int64_t off = std::is_signed<T>::value ? r.i(-40, 40) : r.i(0, 60);
    int64_t len = r.i(-6, 50);
    int64_t a = off, b = off + len;
    if (!std::is_signed<T>::value)
        b = std::max<int64_t>(b, 0);
    const bool one = r.chance(0.3); // range(stop)
    if (one)
        a = 0;
    ctx.scenario(cat("range<", name, ">(", a, ",", b, ")", one ? " one argument" : ""));
    const auto R = one ? py::range<T>(T(b)) : py::range<T>(T(a), T(b));
    std::vector<int64_t> want;
    for (int64_t k = a; k < b; ++k)
        want.push_back(k);
    for (int pass = 0; pass < 2; ++pass)
    {
        std::vector<int64_t> got;
        for (auto v : R)
        {
            got.push_back(int64_t(v));
            if (got.size() > 200)
                break;
        }
        ctx.expect(got == want, "range:iteration", cat("yields ", vec(got)));
    }
    ctx.expect(R.size() == want.size(), "range:size", cat("size ", R.size()));
    ctx.expect(R.empty() == want.empty(), "range:empty", cat("empty ", R.empty()));
    ctx.expect((R.begin() == R.end()) == want.empty() && (R.begin() != R.end()) == !want.empty(), "range:iterators", "begin and end");
    for (size_t k = 0; k < want.size(); ++k)
        ctx.expect(int64_t(R[k]) == want[k], "range:index", cat("[", k, "] is ", R[k]));
    for (int64_t k = a - 3; k < std::max(a, b) + 3; ++k)
        if (std::is_signed<T>::value || k >= 0)
            ctx.expect(R.contains(T(k)) == (k >= a && k < b), "range:contains", cat("contains ", k));
    ctx.event("ranges");
    ctx.nontrivial(mix(uint64_t(a), uint64_t(b)));
}

// ranges of any length, near the ends of the type, looked at in places
template <typename T>
void long_range_case(Ctx& ctx, Rng& r, const char* name)
{
    using I = __int128;
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    auto any = [&]() -> T {
        const double u = r.u();
        if (u < 0.25)
            return T(lo + T(r.i(0, 20)));
        if (u < 0.5)
            return T(hi - T(r.i(0, 20)));
        if (u < 0.75)
            return T(r.i(-20, 20));
        return T(r.next());
    };
    const bool one = r.chance(0.2);
    const T a = one ? T(0) : any(), b = any();
    ctx.scenario(cat("range<", name, ">(", +a, ",", +b, ")", one ? " one argument" : ""));
    const auto R = one ? py::range<T>(b) : py::range<T>(a, b);
    const I len = b > a ? I(b) - I(a) : 0;
    ctx.expect(I(R.size()) == len, "range:size", cat("size ", R.size()));
    ctx.expect(R.empty() == (len == 0), "range:empty", cat("empty ", R.empty()));
    for (int k = 0; k < 12; ++k)
    {
        const T x = k == 0 ? a : k == 1 ? b : any();
        ctx.expect(R.contains(x) == (x >= a && x < b), "range:contains", cat("contains ", +x));
        if (len > 0)
        {
            const I at = k == 0 ? I(0) : k == 1 ? len - 1 : I(r.next()) % len;
            ctx.expect(I(R[size_t(at)]) == I(a) + at, "range:index", cat("[", size_t(at), "] is ", +R[size_t(at)]));
        }
    }
    I want = a;
    int seen = 0;
    for (auto v : R)
    {
        ctx.expect(I(v) == want, "range:iteration", cat("item ", seen, " is ", +v));
        ++want;
        if (++seen == 25)
            break;
    }
    ctx.expect(seen == 25 || I(seen) == len, "range:iteration", cat(seen, " items"));
    ctx.event("long ranges");
    ctx.nontrivial(mix(uint64_t(a), uint64_t(b)));
}

template <typename C>
void enumerate_case(Ctx& ctx, C c, const char* name)
{
    ctx.scenario(cat("enumerate ", name, " ", vec(c)));
    std::vector<int> plain(c.begin(), c.end());
    size_t n = 0;
    for (auto&& iv : py::enumerate(c))
    {
        auto&& [i, v] = iv;
        ctx.expect(i == n && n < plain.size() && v == plain[n], "enumerate:item", cat("item ", n, " is (", i, ",", v, ")"));
        v += 1000; // a reference into the container
        if (++n > plain.size())
            break;
    }
    ctx.expect(n == plain.size(), "enumerate:length", cat(n, " items"));
    n = 0;
    for (auto v : c)
        ctx.expect(v == plain[n++] + 1000, "enumerate:reference", "an item is not the element itself");
    const C& cc = c;
    n = 0;
    for (auto&& iv : py::enumerate(cc))
    {
        ctx.expect(std::get<0>(iv) == n && std::get<1>(iv) == plain[n] + 1000, "enumerate:const", cat("item ", n));
        if (++n > plain.size())
            break;
    }
    ctx.expect(n == plain.size(), "enumerate:const-length", cat(n, " items"));
    auto tmp = [&] { return C(c); };
    n = 0;
    for (auto&& iv : py::enumerate(tmp())) // keeps a temporary alive
    {
        ctx.expect(std::get<0>(iv) == n && std::get<1>(iv) == plain[n] + 1000, "enumerate:temporary", cat("item ", n));
        if (++n > plain.size())
            break;
    }
    ctx.expect(n == plain.size(), "enumerate:temporary-length", cat(n, " items"));
    ctx.event("enumerations");
    ctx.nontrivial(mix(hashs(name), hashs(vec(plain))));
}

template <typename K>
K key(Rng& r);
template <>
int key<int>(Rng& r)
{
    return int(r.i(-6, 12));
}
template <>
std::string key<std::string>(Rng& r)
{
    static const char* w[] = {"", "a", "b", "ab", "a0", "x", "a rather long key that is not stored inside the string", "y"};
    return w[r.i(0, 7)];
}

template <typename K>
K far_key(Rng& r);
template <>
int far_key<int>(Rng& r)
{
    return r.chance(0.1) ? int(r.i(-2147483647LL - 1, 2147483647LL)) : int(r.i(-3000, 3000));
}
template <>
std::string far_key<std::string>(Rng& r)
{
    return cat("key", r.i(0, 5000));
}

template <typename K>
void same_set(Ctx& ctx, const py::set<K>& s, const std::set<K>& m, const char* when)
{
    ctx.expect(s.size() == m.size() && py::len(s) == m.size() && s.empty() == m.empty(), "set:size", cat(when, ": size ", s.size(), " not ", m.size()));
    std::vector<K> it(s.begin(), s.end());
    std::sort(it.begin(), it.end());
    ctx.expect(it == std::vector<K>(m.begin(), m.end()), "set:iteration", cat(when, ": iterates ", vec(it)));
    for (auto& k : m)
        ctx.expect(s.contains(k) && (k < s), "set:contains", cat(when, ": misses ", k));
}
template <typename K>
void set_case(Ctx& ctx, Rng& r)
{
    std::vector<K> init;
    for (int64_t k = r.i(0, 8); k > 0; --k)
        init.push_back(key<K>(r));
    const bool large = r.chance(0.004);
    if (large) // many elements
        for (int64_t k = r.i(20, 1500); k > 0; --k)
            init.push_back(far_key<K>(r));
    std::string how = cat("set ", vec(init));
    ctx.scenario(how);
    const bool range = large || r.chance(0.5) || init.size() < 3;
    if (!range)
        init.resize(3);
    py::set<K> s = range ? py::set<K>(init.begin(), init.end()) : py::set<K> {init[0], init[1], init[2]};
    std::set<K> m(init.begin(), init.end());
    if (r.chance(0.1))
    {
        s = py::set<K> {};
        m.clear();
    }
    for (int64_t k = r.i(1, 20); k > 0; --k)
    {
        same_set(ctx, s, m, "step");
        const K q = key<K>(r);
        const py::set<K>& cs = s;
        const bool in = m.count(q) != 0;
        ctx.expect(cs.contains(q) == in && (q < cs) == in, "set:membership", cat("membership of ", q));
        switch (r.i(0, 5))
        {
            case 0:
            case 1:
                ctx.expect(s.insert(q).second == !in, "set:insert", "inserted although present, or not");
                m.insert(q);
                break;
            case 2:
                s.erase(q);
                m.erase(q);
                break;
            case 3:
            { // copies are independent
                py::set<K> c = s.copy();
                same_set(ctx, c, m, "copy");
                c.insert(q);
                c.erase(m.empty() ? q : *m.begin());
                same_set(ctx, s, m, "original of a changed copy");
                py::set<K> d(s);
                s.clear();
                same_set(ctx, d, m, "copy of a cleared one");
                s = std::move(d);
                same_set(ctx, s, m, "moved back");
                break;
            }
            case 4:
            {
                py::set<K> d(std::move(s));
                s = py::set<K> {};
                same_set(ctx, d, m, "move target");
                s = std::move(d);
                break;
            }
            default:
                break;
        }
        how += cat(" ", q);
        ctx.scenario(how);
        ctx.event("set operations");
    }
    ctx.nontrivial(hashs(how));
}

template <typename K, typename V>
void same_dict(Ctx& ctx, py::dict<K, V>& d, const std::map<K, V>& m, const char* when)
{
    const py::dict<K, V>& c = d;
    auto size = [&] { ctx.expect(c.size() == m.size() && py::len(c) == m.size() && c.empty() == m.empty(), "dict:size", cat(when, ": size ", c.size(), " not ", m.size())); };
    size();
    std::vector<K> keys, want;
    for (auto&& k : c)
        keys.push_back(k);
    for (auto& kv : m)
        want.push_back(kv.first);
    std::sort(keys.begin(), keys.end());
    ctx.expect(keys == want, "dict:keys", cat(when, ": keys ", vec(keys)));
    keys.clear();
    for (auto&& k : d)
        keys.push_back(k);
    std::sort(keys.begin(), keys.end());
    ctx.expect(keys == want, "dict:keys", cat(when, ": keys ", vec(keys)));
    std::map<K, V> items;
    for (auto&& [k, v] : c.items())
        items.emplace(k, v);
    ctx.expect(items == m, "dict:items", cat(when, ": items differ"));
    items.clear();
    for (auto&& [k, v] : d.items())
        items.emplace(k, v);
    ctx.expect(items == m, "dict:items", cat(when, ": items differ"));
    for (auto& [k, v] : m)
        ctx.expect(c.contains(k) && (k < c) && c[k] == v && d[k] == v && d.get(k, V(-77)) == v, "dict:lookup", cat(when, ": lookup of ", k));
    size(); // nothing of this inserts
}
template <typename K, typename V>
void dict_case(Ctx& ctx, Rng& r)
{
    py::dict<K, V> d;
    std::map<K, V> m;
    std::string how = "dict";
    if (r.chance(0.3))
    {
        const K a = key<K>(r), b = key<K>(r);
        const V x = V(r.i(-5, 5)), y = V(r.i(-5, 5));
        d = py::dict<K, V> {{a, x}, {b, y}};
        m = {{a, x}, {b, y}};
        how += cat("{", a, ":", x, ",", b, ":", y, "}");
    }
    if (r.chance(0.004)) // many entries
    {
        for (int64_t k = r.i(20, 1500); k > 0; --k)
        {
            const K q = far_key<K>(r);
            const V x = V(r.i(-9, 9));
            d[q] = x;
            m[q] = x;
        }
        how += cat(" and ", m.size(), " entries");
    }
    for (int64_t k = r.i(1, 20); k > 0; --k)
    {
        ctx.scenario(how);
        same_dict(ctx, d, m, "step");
        const K q = key<K>(r);
        const V x = V(r.i(-9, 9));
        const py::dict<K, V>& c = d;
        const bool in = m.count(q) != 0;
        ctx.expect(c.contains(q) == in && (q < c) == in, "dict:membership", cat("membership of ", q));
        const int op = int(r.i(0, 8));
        how += cat(" ", op, ":", q, "=", x);
        switch (op)
        {
            case 0:
            case 1:
                d[q] = x;
                m[q] = x;
                break;
            case 2:
                ctx.expect(d[q] == m[q], "dict:default", "a new entry is not the default value");
                break;
            case 3:
                d.erase(q);
                m.erase(q);
                break;
            case 4:
                ctx.expect(d.get(q, x) == (in ? m.at(q) : x), "dict:get", cat("get(", q, ",", x, ")"));
                ctx.expect(d.contains(q) == in && d.size() == m.size(), "dict:get-inserts", "get changed the dictionary");
                break;
            case 5:
            { // const access of a missing key throws, and does not insert
                bool thrown = false;
                try
                {
                    const V& v = c[q];
                    ctx.expect(in && v == m.at(q), "dict:const-index", "value");
                }
                catch (const std::out_of_range&)
                {
                    thrown = true;
                }
                ctx.expect(thrown != in, "dict:const-index", cat("const [", q, "] of ", in ? "a present" : "a missing", " key"));
                ctx.expect(d.contains(q) == in && d.size() == m.size(), "dict:const-inserts", "const access changed the dictionary");
                break;
            }
            case 6:
            {
                py::dict<K, V> e = d.copy();
                same_dict(ctx, e, m, "copy");
                e[q] = V(1234);
                if (!m.empty())
                    e.erase(m.begin()->first);
                same_dict(ctx, d, m, "original of a changed copy");
                py::dict<K, V> f(d);
                d.clear();
                same_dict(ctx, f, m, "copy of a cleared one");
                d = std::move(f);
                break;
            }
            case 7:
            {
                py::dict<K, V> e(std::move(d));
                same_dict(ctx, e, m, "move target");
                d = std::move(e);
                break;
            }
            default:
                for (auto& kv : d.items())
                    kv.second += V(1);
                for (auto& kv : m)
                    kv.second += V(1);
        }
        ctx.event("dictionary operations");
    }
    ctx.scenario(how);
    same_dict(ctx, d, m, "end");
    ctx.nontrivial(hashs(how));
}

template <typename G>
void adaptor_case(Ctx& ctx, Rng& r, const char* name, bool directed)
{
    const bool large = r.chance(0.01);
    const int n = int(large ? r.i(10, 150) : r.i(1, 9));
    G g0(static_cast<size_t>(n));
    std::vector<std::pair<size_t, size_t>> e;
    const int m = int(large ? r.i(0, 400) : r.i(0, 18)), first = int(r.i(0, m));
    std::string how = cat(name, " n=", n);
    for (int k = 0; k < m; ++k)
    {
        e.push_back({size_t(r.i(0, n - 1)), size_t(r.i(0, n - 1))});
        how += cat(" ", e.back().first, "-", e.back().second);
    }
    ctx.scenario(how);
    for (int k = 0; k < first; ++k)
        boost::add_edge(e[size_t(k)].first, e[size_t(k)].second, g0);
    xn::grAdaptor<G> g(std::move(g0));
    for (int k = first; k < m; ++k)
    { // the rest through the adaptor
        auto res = g.add_edge(e[size_t(k)].first, e[size_t(k)].second);
        ctx.expect(res.second && g.source(res.first) == e[size_t(k)].first && g.target(res.first) == e[size_t(k)].second, "adaptor:add_edge", cat("edge ", k));
    }
    ctx.expect(g.number_of_nodes() == size_t(n), "adaptor:nodes", cat(g.number_of_nodes(), " nodes"));
    ctx.expect(g.number_of_edges() == size_t(m), "adaptor:edges", cat(g.number_of_edges(), " edges"));
    std::vector<size_t> vs;
    for (auto v : g)
        vs.push_back(v);
    std::vector<size_t> cvs;
    for (auto it = g.cbegin(); it != g.cend(); ++it)
        cvs.push_back(*it);
    std::vector<size_t> all;
    for (int v = 0; v < n; ++v)
        all.push_back(size_t(v));
    ctx.expect(vs == all && cvs == all, "adaptor:vertices", cat("lists ", vec(vs)));
    const auto null = g.null_vertex();
    ctx.expect(std::find(vs.begin(), vs.end(), null) == vs.end(), "adaptor:null", "the null vertex is a vertex");
    auto norm = [&](std::pair<size_t, size_t> p) {
        if (!directed && p.first > p.second)
            std::swap(p.first, p.second);
        return p;
    };
    std::multiset<std::pair<size_t, size_t>> want, got, cgot;
    for (auto& p : e)
        want.insert(norm(p));
    const auto ev = g.edges();
    for (auto&& ed : ev)
    {
        const auto p = g.end_points(ed);
        ctx.expect(p.first == g.source(ed) && p.second == g.target(ed), "adaptor:end_points", "end points are not source and target");
        got.insert(norm({p.first, p.second}));
    }
    for (auto it = ev.cbegin(); it != ev.cend(); ++it)
        cgot.insert(norm(g.end_points(*it)));
    ctx.expect(got == want && cgot == want, "adaptor:edge-list", "the edges listed are not those added");
    for (int v = 0; v < n; ++v)
    {
        std::multiset<size_t> out, gout, gout2;
        for (auto& p : e)
        {
            if (p.first == size_t(v))
                out.insert(p.second);
            if (!directed && p.second == size_t(v))
                out.insert(p.first);
        }
        const auto nb = g.neighbors(size_t(v));
        for (auto&& ed : nb)
        {
            ctx.expect(g.source(ed) == size_t(v), "adaptor:neighbor-source", cat("an edge of ", v, " starts elsewhere"));
            gout.insert(g.target(ed));
        }
        for (auto it = nb.cbegin(); it != nb.cend(); ++it)
            gout2.insert(g.target(*it));
        ctx.expect(gout == out && gout2 == out, "adaptor:neighbors", cat("the neighbours of ", v));
    }
    ctx.event("adaptors");
    ctx.nontrivial(hashs(how));
}
} // namespace

VH_PROPERTY(C25)
{
    ctx.group("range", 8000, [&](Rng& r) {
        range_case<int>(ctx, r, "int");
        range_case<unsigned>(ctx, r, "unsigned");
        range_case<long>(ctx, r, "long");
        range_case<size_t>(ctx, r, "size_t");
        range_case<short>(ctx, r, "short");
    });
    ctx.group("long-range", 8000, [&](Rng& r) {
        long_range_case<int>(ctx, r, "int");
        long_range_case<unsigned>(ctx, r, "unsigned");
        long_range_case<long>(ctx, r, "long");
        long_range_case<size_t>(ctx, r, "size_t");
        long_range_case<short>(ctx, r, "short");
        long_range_case<signed char>(ctx, r, "signed char");
    });
    ctx.group("enumerate", 5000, [&](Rng& r) {
        std::vector<int> v;
        for (int64_t k = r.i(0, 12); k > 0; --k)
            v.push_back(int(r.i(-9, 9)));
        enumerate_case(ctx, v, "vector");
        enumerate_case(ctx, std::list<int>(v.begin(), v.end()), "list");
    });
    ctx.group("set-int", 8000, [&](Rng& r) { set_case<int>(ctx, r); });
    ctx.group("set-string", 5000, [&](Rng& r) { set_case<std::string>(ctx, r); });
    ctx.group("dict-int", 8000, [&](Rng& r) { dict_case<int, int>(ctx, r); });
    ctx.group("dict-string", 5000, [&](Rng& r) { dict_case<std::string, double>(ctx, r); });
    using namespace boost;
    ctx.group("adaptor", 5000, [&](Rng& r) {
        adaptor_case<adjacency_list<vecS, vecS, directedS>>(ctx, r, "vec/directed", true);
        adaptor_case<adjacency_list<listS, vecS, directedS>>(ctx, r, "list/directed", true);
        adaptor_case<adjacency_list<vecS, vecS, bidirectionalS>>(ctx, r, "vec/bidirectional", true);
        adaptor_case<adjacency_list<vecS, vecS, undirectedS>>(ctx, r, "vec/undirected", false);
    });
}
