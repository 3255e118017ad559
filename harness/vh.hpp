// Common runtime of the monitors: seeded cases, event counters, violations.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh
{
using LD = long double;

// ------------------------------------------------------------------ random
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s {seed}
    {
        next();
        next();
    }
    uint64_t next()
    { // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // inclusive bounds
    int64_t i(int64_t lo, int64_t hi)
    {
        return lo + int64_t(next() % uint64_t(hi - lo + 1));
    }
    double u()
    {
        return double(next() >> 11) * 0x1.0p-53;
    }
    double u(double lo, double hi)
    {
        return lo + (hi - lo) * u();
    }
    bool chance(double p)
    {
        return u() < p;
    }
    double normal()
    {
        double a = u();
        if (a < 1e-300)
            a = 1e-300;
        return std::sqrt(-2. * std::log(a)) * std::cos(6.283185307179586 * u());
    }
    double logu(double lo, double hi)
    {
        return std::exp(u(std::log(lo), std::log(hi)));
    }
    template <typename V>
    auto& pick(V& v)
    {
        return v[size_t(next() % v.size())];
    }
};

inline uint64_t mix(uint64_t h, uint64_t x)
{
    h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 33);
}
inline uint64_t hashd(uint64_t h, double d)
{
    uint64_t b;
    std::memcpy(&b, &d, 8);
    return mix(h, b);
}
inline uint64_t hashs(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ULL;
    return h;
}

// thrown by oracles/spaces that see more calls than the contract allows
struct Overrun : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Skip
{
};

// ------------------------------------------------------------------ context
class Ctx
{
  public:
    std::string prop;
    uint64_t seed = 1;
    double scale = 1.;
    bool thorough = false;
    bool valgrind = false;
    std::string only_group;
    long only_i = -1;
    std::string variant;

    // run `count*scale` cases of a group; every case is a pure function of
    // (seed, property, group, index)
    void group(const std::string& name, double count,
        const std::function<void(Rng&)>& body);

    // report a violation of the property in the current case
    void fail(const std::string& key, const std::string& msg);
    bool expect(bool ok, const std::string& key, const std::string& msg)
    {
        if (!ok)
            fail(key, msg);
        return ok;
    }
    // events the monitors observed
    void event(const std::string& name, long k = 1)
    {
        events[name] += k;
    }
    // the current case is distinct and non-trivial with this fingerprint
    void nontrivial(uint64_t h)
    {
        distinct.insert(mix(h, 77));
    }
    void sample(const std::string& s);
    void scenario(const std::string& s)
    {
        desc = s;
    }

    // bookkeeping
    std::map<std::string, long> events;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, long> fails;
    long evaluations = 0;
    FILE* out = nullptr;
    std::string cur_group;
    long cur_i = 0;
    std::string desc;
    std::map<std::string, int> sample_groups;
};

struct Property
{
    const char* id;
    void (*fn)(Ctx&);
};
std::vector<Property>& registry();
struct Reg
{
    Reg(const char* id, void (*fn)(Ctx&))
    {
        registry().push_back({id, fn});
    }
};
#define VH_PROPERTY(id)                                                        \
    static void run_##id(vh::Ctx&);                                            \
    static vh::Reg reg_##id {#id, run_##id};                                   \
    static void run_##id([[maybe_unused]] vh::Ctx& ctx)

// ------------------------------------------------------------------ strings
template <typename... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}
template <typename V>
std::string vec(const V& v)
{
    std::ostringstream o;
    o.precision(17);
    o << "[";
    bool first = true;
    for (auto&& x : v)
    {
        if (!first)
            o << ",";
        first = false;
        o << x;
    }
    o << "]";
    return o.str();
}
} // namespace vh
