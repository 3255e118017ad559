// C21: CSD strings against exact integer arithmetic.
#include "vh.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <string_view>

extern auto to_csd(double num, int places) noexcept -> std::string;
extern auto to_csdfixed(double num, unsigned int nnz) noexcept -> std::string;
extern auto to_decimal(std::string_view csd_str) noexcept -> double;

using namespace vh;
using Big = boost::multiprecision::cpp_int;

namespace
{
const int FRAC = 1100; // every value is an integer multiple of 2^-FRAC

Big exact(double x)
{
    int e = 0;
    const double m = std::frexp(x, &e);
    const int64_t k = int64_t(std::ldexp(m, 53));
    Big v = k < 0 ? Big(-k) : Big(k);
    v <<= (e - 53 + FRAC); // |x| >= 2^-1000
    return k < 0 ? Big(-v) : v;
}
// value of a digit string, in units of 2^-FRAC
Big value(const std::string& s, int* places = nullptr)
{
    Big v = 0;
    int frac = -1;
    for (char c : s)
    {
        if (c == '.')
        {
            frac = 0;
            continue;
        }
        v *= 2;
        if (c == '+')
            v += 1;
        else if (c == '-')
            v -= 1;
        if (frac >= 0)
            ++frac;
    }
    if (places != nullptr)
        *places = frac < 0 ? 0 : frac;
    return v << (FRAC - (frac < 0 ? 0 : frac));
}
Big absb(const Big& v)
{
    return v < 0 ? Big(-v) : v;
}
// the canonical digits of v (units 2^-FRAC): weights from the highest down
std::vector<std::pair<int, int>> naf(Big v)
{
    const int sgn = v < 0 ? -1 : 1;
    v = absb(v);
    std::vector<std::pair<int, int>> d;
    if (v == 0)
        return d;
    int w = -FRAC;
    while (v != 0)
    {
        const unsigned tz = unsigned(boost::multiprecision::lsb(v));
        v >>= tz;
        w += int(tz);
        if ((v & 3) == 3)
        {
            d.insert(d.begin(), {w, -sgn});
            v += 1;
        }
        else
        {
            d.insert(d.begin(), {w, sgn});
            v -= 1;
        }
    }
    return d;
}
std::string well_formed(const std::string& s)
{
    if (s.empty())
        return "is empty";
    size_t dots = 0;
    char last = '0';
    for (char c : s)
    {
        if (c == '.')
        {
            if (++dots > 1)
                return "has two radix points";
            continue;
        }
        if (c != '0' && c != '+' && c != '-')
            return "has another character";
        if (c != '0' && last != '0')
            return "has adjacent nonzero digits";
        last = c;
    }
    if (s[0] == '.')
        return "has no digit before the point";
    return "";
}

double number(Rng& r)
{
    double x = 0.;
    switch (r.i(0, 9))
    {
        case 0:
            x = double(r.i(-1000, 1000));
            break;
        case 1:
            x = std::ldexp(double(r.i(-(1 << 20), 1 << 20)), -int(r.i(0, 24)));
            break;
        case 2:
            x = r.u(-1., 1.);
            break;
        case 3:
            x = r.normal() * r.logu(1e-6, 1e6);
            break;
        case 4:
            x = r.normal() * r.logu(1e-250, 1e250);
            break;
        case 5: // two thirds and one third of a power of two
            x = std::ldexp(1. / 3., int(r.i(-40, 40)));
            break;
        case 6:
            x = std::ldexp(2. / 3., int(r.i(-12, 12)));
            for (int64_t k = r.i(-3, 3); k != 0; k += k < 0 ? 1 : -1)
                x = std::nextafter(x, k < 0 ? -1e300 : 1e300);
            break;
        case 7: // powers of two and their neighbours
            x = std::ldexp(1., int(r.i(-60, 60)));
            if (r.chance(0.7))
                x = std::nextafter(x, r.chance(0.5) ? -1e300 : 1e300);
            break;
        case 8: // sparse digit sums
            for (int64_t k = r.i(1, 5); k > 0; --k)
                x += (r.chance(0.5) ? 1. : -1.) * std::ldexp(1., int(r.i(-16, 16)));
            break;
        default:
            x = double(r.i(-(1LL << 53), 1LL << 53)) * std::ldexp(1., -int(r.i(0, 60)));
    }
    if (r.chance(0.5))
        x = -x;
    return x;
}

void check_csd(Ctx& ctx, double x, int places)
{
    ctx.scenario(cat("to_csd(", x, ", ", places, ")"));
    const std::string s = to_csd(x, places);
    const std::string why = well_formed(s);
    if (!ctx.expect(why.empty(), "malformed", s + " " + why))
        return;
    if (x == 0.)
    {
        ctx.expect(value(s) == 0, "zero", "zero gives " + s);
        return;
    }
    int got = 0;
    const Big v = value(s, &got);
    ctx.expect(got == places, "places", cat(s, " has ", got, " places"));
    const Big X = exact(x);
    const Big err = absb(X - v);
    ctx.expect(err * 3 <= (Big(2) << (FRAC - places)), "error", s + " is too far from the number");
    if ((X & ((Big(1) << (FRAC - places)) - 1)) == 0)
    {
        ctx.expect(err == 0, "not-exact", s + " is not the representable number");
        ctx.event("representable numbers");
    }
    // no superfluous leading digit
    if (s[0] == '0')
        ctx.expect(s.size() == 1 || s[1] == '.', "leading-zero", s);
    // and the decoder agrees where doubles are exact
    size_t digits = 0;
    for (char c : s)
        digits += c != '.';
    const size_t lead = s.find_first_of("+-");
    if (lead == std::string::npos || digits - lead <= 52)
    {
        const double back = to_decimal(s);
        ctx.expect(back == 0. ? v == 0 : std::fabs(back) > 1e-270 && exact(back) == v, "decode", cat(s, " decodes to ", back));
        ctx.event("round trips");
    }
    ctx.event("conversions");
    ctx.nontrivial(mix(hashd(3, x), uint64_t(places)));
    ctx.sample(ctx.desc + " = " + (s.size() > 80 ? s.substr(0, 80) + "..." : s));
}

void check_fixed(Ctx& ctx, double x, unsigned nnz)
{
    ctx.scenario(cat("to_csdfixed(", x, ", ", nnz, ")"));
    const std::string s = to_csdfixed(x, nnz);
    const std::string why = well_formed(s);
    if (!ctx.expect(why.empty(), "fixed-malformed", s + " " + why))
        return;
    unsigned count = 0;
    for (char c : s)
        count += c == '+' || c == '-';
    ctx.expect(count <= nnz, "fixed-too-many", cat(s, " has ", count, " nonzero digits"));
    auto d = x == 0. ? std::vector<std::pair<int, int>> {} : naf(exact(x));
    const size_t full = d.size();
    if (d.size() > nnz)
        d.resize(nnz);
    Big want = 0;
    for (auto [w, c] : d)
        want += c * (Big(1) << (w + FRAC));
    const Big v = value(s);
    if (full <= nnz)
        ctx.expect(v == exact(x == 0. ? 1. : x) || (x == 0. && v == 0), "fixed-not-exact", s + " is not the number, which needs no more digits");
    else
        ctx.expect(v == want, "fixed-digits", s + " does not have the leading canonical digits");
    ctx.event(full <= nnz ? "fixed exact" : "fixed truncated");
    ctx.nontrivial(mix(hashd(5, x), nnz));
    ctx.sample(ctx.desc + " = " + (s.size() > 80 ? s.substr(0, 80) + "..." : s));
}

void check_decimal(Ctx& ctx, Rng& r)
{
    std::string s;
    const int left = r.chance(0.2) ? 0 : int(r.i(0, 45));
    const int right = r.chance(0.3) ? 0 : int(r.i(0, 50 - left));
    auto digits = [&](int k) {
        const double p = r.u(0.2, 1.);
        while (k-- > 0)
            s += r.chance(p) ? (r.chance(0.5) ? '+' : '-') : '0';
    };
    if (r.chance(0.2))
        s += std::string(size_t(r.i(1, 300)), '0');
    digits(left);
    if (right > 0 || r.chance(0.1))
        s += '.';
    if (right > 0 && left == 0 && r.chance(0.4))
        s += std::string(size_t(r.i(1, 300)), '0');
    digits(right);
    const bool tail = r.chance(0.2);
    if (tail)
        s += std::string(size_t(r.i(1, 200)), '0');
    ctx.scenario("to_decimal(" + s + ")");
    const Big v = value(s);
    const double got = to_decimal(s);
    ctx.expect(std::isfinite(got) && (got == 0. ? v == 0 : exact(got) == v), "decimal", cat("gives ", got));
    // a view into a longer buffer
    const std::string buf = "+-" + s + "++";
    const double got2 = to_decimal(std::string_view(buf).substr(2, s.size()));
    ctx.expect(got2 == got, "decimal-view", "reads beyond the view");
    ctx.event("strings decoded");
    ctx.nontrivial(hashs(s));
}
} // namespace

VH_PROPERTY(C21)
{
    ctx.group("csd", 40000, [&](Rng& r) {
        const double x = number(r);
        check_csd(ctx, x, r.chance(0.1) ? int(r.i(30, 200)) : int(r.i(0, 24)));
    });
    ctx.group("csd-exhaustive", 1, [&](Rng& r) {
        const int p = int(r.i(0, 6));
        for (int k = -6000; k <= 6000; ++k)
            check_csd(ctx, std::ldexp(k, -int(r.i(0, 12))), p);
    });
    ctx.group("fixed", 40000, [&](Rng& r) {
        const double x = number(r);
        check_fixed(ctx, x, r.chance(0.1) ? unsigned(r.i(8, 60)) : unsigned(r.i(0, 8)));
    });
    ctx.group("fixed-exhaustive", 1, [&](Rng& r) {
        for (int k = -4000; k <= 4000; ++k)
            check_fixed(ctx, std::ldexp(k, -int(r.i(0, 12))), unsigned(r.i(0, 6)));
    });
    ctx.group("decimal", 40000, [&](Rng& r) { check_decimal(ctx, r); });
}
