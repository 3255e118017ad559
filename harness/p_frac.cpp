// C20: Fraction and the integer functions against exact wide rationals.
#include "vh.hpp"
#include <limits>
#include <py2cpp/fractions.hpp>

using namespace vh;
using I128 = __int128;
using I64 = int64_t;

namespace
{
std::string s128(I128 v)
{
    if (v == 0)
        return "0";
    std::string s;
    const bool neg = v < 0;
    while (v != 0)
    {
        const int d = int(v % 10);
        s.insert(s.begin(), char('0' + (d < 0 ? -d : d)));
        v /= 10;
    }
    return neg ? "-" + s : s;
}
I128 iabs(I128 a)
{
    return a < 0 ? -a : a;
}
I128 igcd(I128 a, I128 b)
{
    a = iabs(a);
    b = iabs(b);
    while (b != 0)
    {
        const I128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
// a rational in lowest terms, positive denominator
struct Q
{
    I128 n, d;
    Q(I128 num = 0, I128 den = 1)
    {
        const I128 g = igcd(num, den);
        n = num / g;
        d = den / g;
        if (d < 0)
        {
            n = -n;
            d = -d;
        }
    }
    std::string str() const
    {
        return s128(n) + "/" + s128(d);
    }
};
int sign(I128 v)
{
    return v < 0 ? -1 : v > 0 ? 1 : 0;
}
int compare(const Q& a, const Q& b)
{ // operands below 2^63, so the products fit
    return sign(a.n * b.d - b.n * a.d);
}

template <typename Z>
bool fits(I128 v)
{
    return iabs(v) <= I128(std::numeric_limits<Z>::max());
}
template <typename Z>
const char* zname()
{
    return std::is_same<Z, int>::value ? "int" : std::is_same<Z, long>::value ? "long" : "long long";
}

template <typename Z>
Z rnd(Rng& r)
{
    static const I64 top = I64(std::numeric_limits<Z>::max());
    static const I64 root = sizeof(Z) == 4 ? 46340 : 3037000499LL;
    switch (r.i(0, 7))
    {
        case 0:
            return Z(r.i(-3, 3));
        case 1:
            return Z(r.i(-12, 12));
        case 2:
            return Z(r.i(-100, 100));
        case 3:
            return Z(r.i(-root / 2, root / 2));
        case 4:
            return Z(r.i(0, 1) ? 1LL << r.i(0, sizeof(Z) * 8 - 3) : -(1LL << r.i(0, sizeof(Z) * 8 - 3)));
        case 5:
            return Z(2 * 2 * 3 * 5 * r.i(-60, 60));
        case 6:
            return Z(r.i(-(top >> 16), top >> 16));
        default:
            return Z(r.chance(0.3) ? top - r.i(0, 3) : r.i(-root, root));
    }
}
template <typename Z>
Z rnd_nz(Rng& r)
{
    Z v = rnd<Z>(r);
    return v == 0 ? Z(1) : v;
}

template <typename Z>
bool same(const fun::Fraction<Z>& f, const Q& q)
{
    return I128(f.numerator()) == q.n && I128(f.denominator()) == q.d;
}
template <typename Z>
std::string show(const fun::Fraction<Z>& f)
{
    return s128(f.numerator()) + "/" + s128(f.denominator());
}

template <typename Z>
void check(Ctx& ctx, const fun::Fraction<Z>& f, const Q& q, const char* key)
{
    ctx.expect(same(f, q), cat("op:", key), cat(zname<Z>(), " ", key, " gives ", show(f), ", exactly ", q.str()));
    ctx.event("results compared");
}

template <typename Z>
void compare_all(Ctx& ctx, const fun::Fraction<Z>& a, const Q& qa, const fun::Fraction<Z>& b, const Q& qb, Z z)
{
    if (!fits<Z>(qa.n * qb.d) || !fits<Z>(qb.n * qa.d) || !fits<Z>(qa.n * qb.d - qb.n * qa.d) || !fits<Z>(qa.d * I128(z)))
    {
        ctx.event("comparison would overflow");
        return;
    }
    const auto chk = [&](bool got, bool want, const char* op) {
        ctx.expect(got == want, cat("cmp:", op), cat(zname<Z>(), " ", qa.str(), " ", op, " ", qb.str(), " (int ", s128(z), ")"));
    };
    const int c = compare(qa, qb);
    chk(a == b, c == 0, "==");
    chk(a != b, c != 0, "!=");
    chk(a < b, c < 0, "<");
    chk(a > b, c > 0, ">");
    chk(a <= b, c <= 0, "<=");
    chk(a >= b, c >= 0, ">=");
    chk(sign(I128(a.cmp(b))) == c, true, "cmp");
    const int k = compare(qa, Q(z));
    chk(a == z, k == 0, "== int");
    chk(a != z, k != 0, "!= int");
    chk(a < z, k < 0, "< int");
    chk(a > z, k > 0, "> int");
    chk(a <= z, k <= 0, "<= int");
    chk(a >= z, k >= 0, ">= int");
    chk(z == a, k == 0, "int ==");
    chk(z != a, k != 0, "int !=");
    chk(z < a, k > 0, "int <");
    chk(z > a, k < 0, "int >");
    chk(z <= a, k >= 0, "int <=");
    chk(z >= a, k <= 0, "int >=");
    ctx.event("comparisons", 19);
    // against a floating-point number: fractional, near and far thresholds
    const LD va = LD(qa.n) / LD(qa.d);
    for (const double t : {double(z) + 0.5, double(z) / 7., double(va) * (1 + 1e-6), double(va) * (1 - 1e-6), -0.25, 1e-3})
    {
        if (std::fabs(va - LD(t)) <= 1e-12L * (std::fabs(va) + std::fabs(LD(t))))
            continue; // a tie up to rounding
        chk(a < t, va < LD(t), cat("< double ", t).c_str());
        ctx.event("comparisons with a double");
    }
}

template <typename Z>
void chain(Ctx& ctx, Rng& r)
{
    using F = fun::Fraction<Z>;
    const Z n0 = rnd<Z>(r);
    const Z d0 = rnd_nz<Z>(r);
    F x(n0, d0);
    Q q(n0, d0);
    std::string trace = cat(zname<Z>(), " F(", n0, ",", d0, ")");
    check(ctx, x, q, "construct");
    uint64_t h = mix(uint64_t(n0), uint64_t(d0));
    const int steps = int(r.i(3, 25));
    for (int k = 0; k < steps; ++k)
    {
        const Z n = rnd<Z>(r);
        const Z d = r.chance(0.3) ? Z(q.d) : rnd_nz<Z>(r);
        const Z z = r.chance(0.3) ? Z(q.d % 1000000) * Z(r.i(-3, 3)) : rnd<Z>(r);
        const Q p(n, d);
        const F y(n, d);
        const F x0(x);
        const F y0(y);
        const int op = int(r.i(0, 23));
        ctx.scenario(trace + cat(" op", op, " ", n, "/", d, " z", z));
        trace += cat(" ", op, ":", n, "/", d, ",", z);
        if (trace.size() > 900)
            trace = cat("...", q.str());
        h = mix(mix(mix(h, uint64_t(op)), uint64_t(n)), mix(uint64_t(d), uint64_t(z)));
        // what a direct evaluation computes has to fit
        const bool addok = fits<Z>(q.n * p.d) && fits<Z>(p.n * q.d) && fits<Z>(q.d * p.d) && fits<Z>(iabs(q.n * p.d) + iabs(p.n * q.d)) && fits<Z>(iabs(q.n) + iabs(p.n));
        const bool mulok = fits<Z>(q.n * p.n) && fits<Z>(q.d * p.d);
        const bool divok = fits<Z>(q.n * p.d) && fits<Z>(q.d * p.n) && p.n != 0;
        const bool addz = fits<Z>(q.d * I128(z)) && fits<Z>(iabs(q.n) + iabs(q.d * I128(z)));
        const bool mulz = fits<Z>(q.n * I128(z));
        const bool divz = z != 0 && fits<Z>(q.d * I128(z));
        F res(x);
        Q want = q;
        const char* name = "none";
        switch (op)
        {
            case 0:
                if (!addok) continue;
                name = "+", res = x + y, want = Q(q.n * p.d + p.n * q.d, q.d * p.d);
                break;
            case 1:
                if (!addok) continue;
                name = "-", res = x - y, want = Q(q.n * p.d - p.n * q.d, q.d * p.d);
                break;
            case 2:
                if (!mulok) continue;
                name = "*", res = x * y, want = Q(q.n * p.n, q.d * p.d);
                break;
            case 3:
                if (!divok) continue;
                name = "/", res = x / y, want = Q(q.n * p.d, q.d * p.n);
                break;
            case 4:
                if (!addok) continue;
                name = "+=", res += y, want = Q(q.n * p.d + p.n * q.d, q.d * p.d);
                break;
            case 5:
                if (!addok) continue;
                name = "-=", res -= y, want = Q(q.n * p.d - p.n * q.d, q.d * p.d);
                break;
            case 6:
                if (!mulok) continue;
                name = "*=", res *= y, want = Q(q.n * p.n, q.d * p.d);
                break;
            case 7:
                if (!divok) continue;
                name = "/=", res /= y, want = Q(q.n * p.d, q.d * p.n);
                break;
            case 8:
                if (!addz) continue;
                name = "+ int", res = x + z, want = Q(q.n + q.d * I128(z), q.d);
                break;
            case 9:
                if (!addz) continue;
                name = "- int", res = x - z, want = Q(q.n - q.d * I128(z), q.d);
                break;
            case 10:
                if (!mulz) continue;
                name = "* int", res = x * z, want = Q(q.n * I128(z), q.d);
                break;
            case 11:
                if (!divz) continue;
                name = "/ int", res = x / z, want = Q(q.n, q.d * I128(z));
                break;
            case 12:
                if (!addz) continue;
                name = "+= int", res += z, want = Q(q.n + q.d * I128(z), q.d);
                break;
            case 13:
                if (!addz) continue;
                name = "-= int", res -= z, want = Q(q.n - q.d * I128(z), q.d);
                break;
            case 14:
                if (!mulz) continue;
                name = "*= int", res *= z, want = Q(q.n * I128(z), q.d);
                break;
            case 15:
                if (!divz) continue;
                name = "/= int", res /= z, want = Q(q.n, q.d * I128(z));
                break;
            case 16:
                if (!addz) continue;
                name = "int +", res = z + x, want = Q(q.n + q.d * I128(z), q.d);
                break;
            case 17:
                if (!addz) continue;
                name = "int -", res = z - x, want = Q(q.d * I128(z) - q.n, q.d);
                break;
            case 18:
                if (!mulz) continue;
                name = "int *", res = z * x, want = Q(q.n * I128(z), q.d);
                break;
            case 19:
                name = "negate", res = -x, want = Q(-q.n, q.d);
                break;
            case 20:
                name = "abs", res = x.abs(), want = Q(iabs(q.n), q.d);
                break;
            case 21:
                if (q.n == 0) continue;
                name = "reciprocal", res.reciprocal(), want = Q(q.d, q.n);
                break;
            case 22: // the operand is the object itself
                if (fits<Z>(q.n * q.n) && fits<Z>(q.d * q.d) && fits<Z>(2 * iabs(q.n * q.d)))
                {
                    const int w = int(r.i(0, q.n == 0 ? 2 : 3));
                    name = "aliased";
                    if (w == 0) res += res, want = Q(2 * q.n, q.d);
                    else if (w == 1) res -= res, want = Q(0);
                    else if (w == 2) res *= res, want = Q(q.n * q.n, q.d * q.d);
                    else res /= res, want = Q(1);
                }
                break;
            default:
                name = "construct";
                {
                    const Z c = Z(r.i(-40, 40) == 0 ? 1 : r.i(-40, 40));
                    const Z cc = c == 0 ? Z(-1) : c;
                    if (!fits<Z>(q.n * cc) || !fits<Z>(q.d * cc)) continue;
                    Z a = Z(q.n * cc);
                    Z b = Z(q.d * cc);
                    if (r.chance(0.5))
                        res = F(std::move(a), std::move(b));
                    else
                        res = F(a, b);
                    ctx.expect(F(a) == a && F(a).denominator() == 1, "construct-int", "F(z) is not z/1");
                }
        }
        check(ctx, res, want, name);
        if (!same(x, q) || !same(y, p))
            ctx.fail("operand-changed", cat(name, " changed an operand"));
        (void)x0;
        (void)y0;
        compare_all<Z>(ctx, res, want, y, p, z);
        compare_all<Z>(ctx, res, want, x, q, Z(want.n / want.d));
        if (!same(res, want))
            return;
        x = res;
        q = want;
    }
    ctx.nontrivial(h);
    ctx.sample(trace);
}

template <typename Z>
void literals(Ctx& ctx, Rng& r)
{ // an int on the left, whatever the integer type
    using F = fun::Fraction<Z>;
    const Z n = Z(r.i(-20000, 20000));
    const Z d = Z(r.chance(0.3) ? r.i(1, 9) : r.i(1, 20000));
    const int k = int(r.i(-20000, 20000));
    const F x(n, d);
    const Q q(n, d);
    ctx.scenario(cat(zname<Z>(), " ", n, "/", d, " int ", k));
    check(ctx, int(k) + x, Q(q.n + I128(k) * q.d, q.d), "int literal +");
    check(ctx, int(k) - x, Q(I128(k) * q.d - q.n, q.d), "int literal -");
    if (!std::is_same<Z, int>::value)
        check(ctx, Z(k) * x, Q(I128(k) * q.n, q.d), "int literal *");
    check(ctx, 0 + x, q, "0 +");
    check(ctx, 1 - x, Q(q.d - q.n, q.d), "1 -");
    std::ostringstream o;
    o << x;
    ctx.expect(o.str() == q.str(), "print", cat("prints ", o.str(), " for ", q.str()));
    ctx.nontrivial(mix(mix(uint64_t(n), uint64_t(d)), uint64_t(k)));
}

// neighbours in a Farey sequence and other almost equal pairs
template <typename Z>
void close_pairs(Ctx& ctx, Rng& r)
{
    using F = fun::Fraction<Z>;
    Z a = 0, b = 1, c = 1, d = 0; // Stern-Brocot walk
    const I128 lim = sizeof(Z) == 4 ? 40000 : I128(2000000000);
    while (true)
    {
        const I128 m = I128(a) + c;
        const I128 n = I128(b) + d;
        if (m > lim || n > lim || r.chance(0.01))
            break;
        if (r.chance(0.5))
        {
            a = Z(m);
            b = Z(n);
        }
        else
        {
            c = Z(m);
            d = Z(n);
        }
    }
    const int s = r.chance(0.5) ? 1 : -1;
    if (d == 0)
        d = 1;
    const F x(Z(s * a), b);
    const F y(Z(s * c), d);
    ctx.scenario(cat(zname<Z>(), " ", s * a, "/", b, " and ", s * c, "/", d));
    compare_all<Z>(ctx, x, Q(I128(s) * a, b), y, Q(I128(s) * c, d), Z(r.i(-2, 2)));
    compare_all<Z>(ctx, y, Q(I128(s) * c, d), x, Q(I128(s) * a, b), Z(s * (a / b)));
    ctx.nontrivial(mix(uint64_t(s * a), mix(uint64_t(b), uint64_t(d))));
}

template <typename Z>
void integers(Ctx& ctx, Rng& r, const char* name)
{
    using L = std::numeric_limits<Z>;
    auto one = [&]() -> Z {
        const I128 top = I128(L::max());
        I128 v = 0;
        switch (r.i(0, 5))
        {
            case 0: v = r.i(0, 12); break;
            case 1: v = r.i(0, 5000); break;
            case 2: v = top - r.i(0, 100); break;
            case 3: v = I128(1) << r.i(0, L::digits - 1); break;
            case 4: v = I128(r.next() >> 1) % (top + 1); break;
            default: v = I128(2 * 3 * 5 * 7 * 4) * r.i(0, 1000);
        }
        if (L::is_signed && r.chance(0.4))
            v = -v;
        return Z(v);
    };
    const Z a = one();
    const Z b = r.chance(0.3) ? Z(a / Z(r.i(1, 9))) : one();
    ctx.scenario(cat(name, " ", s128(a), " ", s128(b)));
    const I128 g = igcd(a, b);
    ctx.expect(I128(fun::gcd(a, b)) == g, "gcd", cat("gcd gives ", s128(fun::gcd(a, b)), ", is ", s128(g)));
    I128 l = 0; // beyond 128 bits for two large unsigned long
    const bool wide = a != 0 && b != 0 && __builtin_mul_overflow(iabs(a) / g, iabs(b), &l);
    if (!wide && l <= I128(L::max()))
    {
        ctx.expect(I128(fun::lcm(a, b)) == l, "lcm", cat("lcm gives ", s128(fun::lcm(a, b)), ", is ", s128(l)));
        ctx.event("lcm compared");
    }
    ctx.event("gcd compared");
    ctx.nontrivial(mix(uint64_t(a), uint64_t(b)));
}
} // namespace

VH_PROPERTY(C20)
{
    ctx.group("chain-int", 15000, [&](Rng& r) { chain<int>(ctx, r); });
    ctx.group("chain-long", 15000, [&](Rng& r) { chain<long>(ctx, r); });
    ctx.group("chain-llong", 5000, [&](Rng& r) { chain<long long>(ctx, r); });
    ctx.group("literals", 20000, [&](Rng& r) {
        literals<int>(ctx, r);
        literals<long>(ctx, r);
        literals<long long>(ctx, r);
    });
    ctx.group("close", 30000, [&](Rng& r) {
        close_pairs<int>(ctx, r);
        close_pairs<long>(ctx, r);
    });
    ctx.group("integers", 30000, [&](Rng& r) {
        integers<int>(ctx, r, "int");
        integers<long>(ctx, r, "long");
        integers<long long>(ctx, r, "long long");
        integers<unsigned>(ctx, r, "unsigned");
        integers<unsigned long>(ctx, r, "unsigned long");
    });
}
