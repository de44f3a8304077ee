#include "vxlib.h"
#include "digits.h"
#include "Caitlyn/__Numeric/Types/BigFloat.h"
using namespace Caitlyn;
#ifndef DI
#define DI 2
#endif
#ifndef DF
#define DF 2
#endif
#ifndef BI
#define BI DI       // of the second operand; units stay 10^-DF
#endif
#ifndef BF
#define BF DF
#endif
static const int64_t kPow[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000};
// a decimal of up to DI integer and DF fraction digits: its text, and its value in units of 10^-DF
struct N { int64_t v; std::string text; bool neg; uint64_t m; };
static N number(const char* nm, unsigned di = DI, unsigned df = DF, bool lonePoint = true)
{
    N r{0, "", false, 0};
    bool neg = vx::flip("minus");
    if (neg) r.text += '-';
    unsigned ni = vx::pick("integer digits", di + 1), nf = vx::pick("fraction digits", df + 1);
    if (ni == 0 && nf == 0) sym_end();
    for (unsigned i = 0; i < ni; ++i) { uint8_t d = (uint8_t)sym_below(nm, 10); r.text += (char)('0' + d); r.v = r.v * 10 + d; }
    if (nf || (lonePoint && vx::flip("point"))) r.text += '.';
    for (unsigned i = 0; i < nf; ++i) { uint8_t d = (uint8_t)sym_below(nm, 10); r.text += (char)('0' + d); r.v = r.v * 10 + d; }
    r.v *= kPow[DF - nf];
    r.neg = neg;
    r.m = (uint64_t)r.v;
    if (neg) r.v = -r.v;
    return r;
}
// s is a plain decimal text (sign only when not zero, no useless leading zero, digits after a point) of the value
// (+-a +-b) / 10^scale; only sums of non-negative terms are compared
static bool isSum(const std::string& s, bool na, uint64_t a, bool nb, uint64_t b, unsigned scale)
{
    size_t i = 0, point = s.size();
    bool neg = !s.empty() && s[0] == '-';
    if (neg) i = 1;
    const size_t first = i;
    for (size_t k = i; k < s.size(); ++k) if (sym_decide(s[k] == '.')) { point = k; break; }
    if (point == first || point + 1 == s.size()) return false;
    unsigned frac = point == s.size() ? 0 : (unsigned)(s.size() - point - 1);
    if (frac > scale) return false;
    bool ok = !(s[first] == '0' && point > first + 1);
    uint64_t m = 0;
    for (; i < s.size(); ++i)
    {
        if (i == point) continue;
        uint8_t d = (uint8_t)(s[i] - '0');
        ok = ok & (d < 10);
        m = m * 10 + d;
    }
    ok = ok & !(neg & (m == 0));
    m *= kPow[scale - frac];
    uint64_t l = 0, r = 0;
    (neg ? r : l) += m;
    (na ? l : r) += a;
    (nb ? l : r) += b;
    return ok & (l == r);
}
static bool isValue(const std::string& s, bool neg, uint64_t m, unsigned scale) { return isSum(s, neg, m, false, 0, scale); }
static std::string str(const BigFloat& b) { return b.ToString().str(); }
static bool plain(const std::string& s, unsigned scale, bool& neg, D& m);
static bool same(const D& a, const D& b);
VX_HARNESS(bf_text)
{
    N a = number("digit");
    BigFloat b(a.text.c_str()), c{String(a.text)};
    sym_check(isValue(str(b), a.neg, a.m, DF), "prints back with the same value");
    sym_check(str(b) == str(c) && b == c, "from a string as from C text");
    BigFloat d(b), e, f;
    sym_check(str(e) == "0", "the default is zero");
    e = b;
    f = std::move(d);
    BigFloat g(std::move(c));
    sym_check(isValue(str(e), a.neg, a.m, DF) && isValue(str(f), a.neg, a.m, DF) && isValue(str(g), a.neg, a.m, DF), "copies and moves keep the value");
    sym_check(isValue(str(b.Abs()), false, a.m, DF), "absolute value");
    sym_cover("printed");
    vx::out(str(b));
}
VX_HARNESS(bf_add)
{
    N a = number("a"), b = number("b", BI, BF, false);
    BigFloat x(a.text.c_str()), y(b.text.c_str());
    if (vx::flip("subtract")) sym_check(isSum(str(x - y), a.neg, a.m, !b.neg, b.m, DF), "the exact difference");
    else sym_check(isSum(str(x + y), a.neg, a.m, b.neg, b.m, DF), "the exact sum");
    sym_cover("added");
}
VX_HARNESS(bf_compare)
{
    N a = number("a"), b = number("b", BI, BF, false);
    BigFloat x(a.text.c_str()), y(b.text.c_str());
    bool lt = a.neg ? (b.neg ? a.m > b.m : (a.m | b.m) != 0) : (b.neg ? false : a.m < b.m);
    bool eq = a.neg == b.neg ? a.m == b.m : (a.m | b.m) == 0;
    switch (vx::pick("operator", 6))
    {
        case 0: sym_check((x < y) == lt, "<"); break;
        case 1: sym_check((x <= y) == (lt | eq), "<="); break;
        case 2: sym_check((x > y) == !(lt | eq), ">"); break;
        case 3: sym_check((x >= y) == !lt, ">="); break;
        case 4: sym_check((x == y) == eq, "=="); break;
        default: sym_check((x != y) == !eq, "!="); break;
    }
    sym_cover("compared");
}
VX_HARNESS(bf_multiply)
{
    N a = number("a"), b = number("b", BI, BF, false);
    BigFloat x(a.text.c_str()), y(b.text.c_str());
    sym_check(isValue(str(x * y), a.neg != b.neg, a.m * b.m, 2 * DF), "the exact product");
    sym_cover("multiplied");
}
VX_HARNESS(bf_divide)
{
    N a = number("a"), b = number("b", BI, BF, false);
    BigFloat x(a.text.c_str()), y(b.text.c_str());
    bool threw = false;
    BigFloat q;
    try { q = x / y; } catch (const std::invalid_argument&) { threw = true; }
    sym_check(threw == (b.m == 0), "dividing by zero throws, nothing else does");
    if (threw) { sym_cover("by zero"); return; }
    const BigFloat r = x - q * y;          // exact
    sym_check(r.Abs() < y.Abs(), "the quotient is off by less than one");
    sym_check((q * y).Abs() <= x.Abs(), "and not too large");
    if (sym_decide((a.m % b.m) == 0)) sym_check(r == BigFloat("0"), "a whole quotient is exact");
    sym_cover("divided");
}
VX_HARNESS(bf_pow)
{
    N a = number("a");
    BigFloat x(a.text.c_str());
    unsigned e = vx::pick("exponent", 4);
    uint64_t v = 1;
    for (unsigned i = 0; i < e; ++i) v *= a.m;
    bool neg = a.neg && e % 2;
    sym_check(isValue(str(x.Pow((int)e)), neg, v, e * DF), "power");
    if (e == 2) sym_check(isValue(str(x.Sqr()), neg, v, 2 * DF), "square");
    int below = -1 - (int)(sym_u32("negative") & 0x7fffffff);
    bool threw = false;
    try { x.Pow(below); } catch (const std::exception&) { threw = true; }
    sym_check(threw, "a negative exponent throws");
    sym_cover("raised");
}
#ifndef SIZES
#define SIZES 40
#endif
VX_HARNESS(bf_pow_far)     // every exponent up to a bound; of a base with one arbitrary digit only the lower ones
{
    static const char* const forms[] = {"0.#", "-1.#", "1.5", "-0.2", "10", "-1.0", ".000001", "0"};
    std::string t = forms[vx::pick("form", 8)];
    const unsigned e = vx::pick("exponent", SIZES);
    D m;
    unsigned scale = 0;
    if (t.find('#') != std::string::npos && e > 9) sym_end();
    char c = (char)('0' + sym_below("digit", 10));
    if (t.find('#') != std::string::npos) c = (char)sym_concretize(c);
    for (size_t i = t.size(); i-- > 0; ) { if (t[i] == '#') t[i] = c; if (t[i] == '.') scale = (unsigned)m.size(); else if (t[i] != '-') m.push_back((uint8_t)(t[i] - '0')); }
    if (m.size() * e > 100) sym_end();
    D v(1, 1);
    for (unsigned i = 0; i < e; ++i) v = times(v, m);
    bool n; D got;
    sym_check(plain(str(BigFloat(t.c_str()).Pow((int)e)), e * scale, n, got) && (same(got, v) & (zero(v) | (n == (t[0] == '-' && e % 2 == 1)))), "a higher power");
    sym_cover("raised");
}
VX_HARNESS(bf_sqrt)
{
    N a = number("a", DI, DF, false);
    BigFloat x(a.text.c_str()), r;
    unsigned frac = 0;
    if (a.text.find('.') != std::string::npos) frac = (unsigned)(a.text.size() - a.text.find('.') - 1);
    std::string unit = "1";
    if (frac) unit = "0." + std::string(frac - 1, '0') + "1";
    bool threw = false;
    try { r = x.Sqrt(); } catch (const std::invalid_argument&) { threw = true; }
    sym_check(threw == (a.neg && a.m != 0), "the root of a negative number throws, of another one does not");
    if (threw) { sym_cover("negative"); return; }
    const std::string s = str(r);
    bool n; D m;
    sym_check(plain(s, frac, n, m) && !n, "the root is a plain non-negative decimal with no more fraction digits than the number");
    sym_check(r * r <= x, "the root is not too large");
    const BigFloat up = r + BigFloat(unit.c_str());
    sym_check(x < up * up, "the root is off by less than one unit of the last digit");
    sym_cover("rooted");
}
VX_HARNESS(bf_reject)      // what is no decimal number is refused
{
    std::string t = vx::over("c", "0123456789+-. x", 15, 0, 3);
    size_t i = 0, digits = 0, points = 0;
    bool good = true;
    for (char c : t)
    {
        if (sym_decide(c == '.')) ++points;
        else if (sym_decide((uint8_t)(c - '0') < 10)) ++digits;
        else if (!(i == 0 && sym_decide((c == '+') | (c == '-')))) good = false;
        ++i;
    }
    if (good && digits == 0 && points == 1) sym_end();       // a lone point: nothing is promised
    good = good && points <= 1 && digits > 0;
    bool threw = false, other = false;
    try { BigFloat b{String(t)}; } catch (const std::exception&) { threw = true; } catch (...) { other = true; }
    sym_check(!other && threw == !good, "accepted exactly when it is an optional sign and digits with at most one point");
    if (threw) sym_cover("rejected"); else sym_cover("accepted");
}

// ---------------------------------------------------------------- decimals of up to forty digits: fixed runs around arbitrary digits
#ifdef DEEP
static const unsigned NRUN = 3;
static const bool FIRST = true;
#else
static const unsigned NRUN = 2;
static const bool FIRST = false;
#endif
static const unsigned runs[] = {0, 19, 8};
struct L { D d; unsigned scale; bool neg; std::string text; BigFloat b() const { return BigFloat(text.c_str()); } };
// sign, digit or 1, run, point, run, digit (or no fraction)
static L longNumber(const char* nm, bool first, unsigned nfill = 2)
{
    L r;
    unsigned a = runs[vx::pick("integer run", NRUN)], f = vx::pick("fraction", NRUN + 1), b = f ? runs[f - 1] : 0;
    uint8_t fill = (a || b) ? "\x09\x00\x05"[vx::pick("fill", nfill)] : 0;
    r.neg = vx::flip("minus");
    if (r.neg) r.text += '-';
    auto put = [&](uint8_t x) { r.text += (char)('0' + x); r.d.insert(r.d.begin(), x); };
    put(first ? (uint8_t)sym_below(nm, 10) : 1);
    for (unsigned i = 0; i < a; ++i) put(fill);
    r.scale = 0;
    if (f)
    {
        r.text += '.';
        for (unsigned i = 0; i < b; ++i) put(fill);
        put((uint8_t)sym_below(nm, 10));
        r.scale = b + 1;
    }
    return r;
}
static D units(const L& l, unsigned scale) { D d(l.d); d.insert(d.begin(), scale - l.scale, 0); return d; }
// s is a plain decimal text of a number of units of 10^-scale; its sign and units
static bool plain(const std::string& s, unsigned scale, bool& neg, D& m)
{
    size_t point = s.size(), i = 0;
    neg = !s.empty() && s[0] == '-';
    if (neg) i = 1;
    const size_t first = i;
    for (size_t k = i; k < s.size(); ++k) if (sym_decide(s[k] == '.')) { point = k; break; }
    if (point == first || point + 1 == s.size()) return false;
    unsigned frac = point == s.size() ? 0 : (unsigned)(s.size() - point - 1);
    if (frac > scale) return false;
    bool ok = !(s[first] == '0' && point > first + 1);
    m.clear();
    for (; i < s.size(); ++i) { if (i == point) continue; uint8_t d = (uint8_t)(s[i] - '0'); ok = ok & (d < 10); m.insert(m.begin(), d); }
    m.insert(m.begin(), scale - frac, 0);
    return ok & !(neg & zero(m));
}
static bool same(const D& a, const D& b) { bool r = true; for (size_t i = 0; i < a.size() || i < b.size(); ++i) r = r & ((i < a.size() ? a[i] : 0) == (i < b.size() ? b[i] : 0)); return r; }
static bool isUnits(const std::string& s, unsigned scale, bool neg, const D& want) { bool n; D m; return plain(s, scale, n, m) && (same(m, want) & (zero(want) | (n == neg))); }
VX_HARNESS(bf_sum_long)
{
    L a = longNumber("a", true, 2), b = longNumber("b", FIRST, FIRST ? 2 : 1);
    unsigned sc = std::max(a.scale, b.scale);
    bool sub = vx::flip("subtract"), nb = b.neg != sub, n;
    std::string s = str(sub ? a.b() - b.b() : a.b() + b.b());
    D m;
    sym_check(plain(s, sc, n, m), "a plain decimal text");
    D l, r;                                // sums of non-negative terms on both sides
    (n ? r : l) = m;
    D &ta = a.neg ? l : r, &tb = nb ? l : r;
    ta = plus(ta, units(a, sc));
    tb = plus(tb, units(b, sc));
    sym_check(same(l, r), "the exact sum or difference of long decimals");
    sym_cover("summed");
}
VX_HARNESS(bf_compare_long)
{
    L a = longNumber("a", true, 2), b = longNumber("b", FIRST, FIRST ? 2 : 1);
    unsigned sc = std::max(a.scale, b.scale);
    D x = units(a, sc), y = units(b, sc);
    bool na = a.neg & !zero(x), nb = b.neg & !zero(y), l = less(x, y), g = less(y, x);
    bool lt = (na & !nb) | (!na & !nb & l) | (na & nb & g), gt = (nb & !na) | (!na & !nb & g) | (na & nb & l);
    BigFloat p = a.b(), q = b.b();
    sym_check((p < q) == lt && (p > q) == gt && (p <= q) == !gt && (p >= q) == !lt && (p == q) == (!lt & !gt) && (p != q) == (lt | gt), "comparison of long decimals");
    sym_cover("compared");
}
VX_HARNESS(bf_mul_long)
{
    L a = longNumber("a", false), b;
    if (FIRST && vx::flip("long")) b = longNumber("b", false);
    else
    {
        static const char* const by[] = {"3", "-0.7", "99.99", "-5000000000000.5", "0.00000000000000002"};
        b.text = by[vx::pick("by", 5)]; b.neg = b.text[0] == '-'; b.scale = 0;
        for (size_t i = b.text.size(); i-- > b.neg; ) { if (b.text[i] == '.') b.scale = (unsigned)b.d.size(); else b.d.push_back((uint8_t)(b.text[i] - '0')); }
    }
    sym_check(isUnits(str(a.b() * b.b()), a.scale + b.scale, a.neg != b.neg, times(a.d, b.d)), "the exact product of long decimals");
    sym_cover("multiplied");
}
VX_HARNESS(bf_text_long)
{
    L a = longNumber("a", true, 3);
    sym_check(isUnits(str(a.b()), a.scale, a.neg, a.d) && isUnits(str(BigFloat{String(a.text)}), a.scale, a.neg, a.d), "a long decimal prints back with the same value");
    sym_check(isUnits(str(a.b().Abs()), a.scale, false, a.d), "absolute value of a long decimal");
    sym_check(isUnits(str(operator""_bigfloat(a.text.c_str(), a.text.size())), a.scale, a.neg, a.d), "a literal");
    BigFloat b = a.b();
    if (a.text.size() < 14) sym_check(isUnits(str(b.Pow(5)), 5 * a.scale, a.neg, times(times(times(times(a.d, a.d), a.d), a.d), a.d)), "the fifth power");
    sym_cover("printed");
}
VX_HARNESS(bf_divide_long)
{
    static const char* const by[] = {"7", "-3", "0.7", "125.5", "99999999999", "0.0000000003"};
    L a = longNumber("a", false);
    BigFloat x = a.b(), y(by[vx::pick("by", FIRST ? 6 : 4)]), q = x / y, r = x - q * y;
    sym_check(r.Abs() < y.Abs() && (q * y).Abs() <= x.Abs(), "the quotient of long decimals is off by less than one and not too large");
    BigFloat z = x * y;
    if (a.scale == 0) sym_check(z / y == x, "a whole quotient of long decimals is exact");
    sym_cover("divided");
}
VX_HARNESS(bf_sqrt_long)
{
    if (vx::flip("square"))
    {
        static const char* const roots[] = {"1.5", "12.75", "0.0003", "99999"};
        const BigFloat root(roots[vx::pick("root", 4)]);
        sym_check((root * root).Sqrt() == root, "the root of a square is exact");
        sym_cover("exact");
        return;
    }
    static const char* const texts[] = {"1234.567", "0.000000#", "9999#", "2.00000", "30000000.000", "9999#.9"};
    std::string t = texts[vx::pick("number", FIRST ? 6 : 3)];
    const char c = (char)('0' + sym_below("digit", 10));
    size_t h = t.find('#');
    if (h == std::string::npos) t += c; else t[h] = c;
    const size_t p = t.find('.');
    std::string unit = "1";
    if (p != std::string::npos) unit = "0." + std::string(t.size() - p - 2, '0') + "1";
    const BigFloat x(t.c_str()), r = x.Sqrt(), up = r + BigFloat(unit.c_str());
    sym_check(r * r <= x, "the root of a long decimal is not too large");
    sym_check(x < up * up, "the root of a long decimal is off by less than one unit of the last digit");
    sym_cover("rooted");
}
VX_HARNESS(bf_native)
{
    static const double v[] = {0.0, 1.0, -1.0, 0.5, -0.25, 1234567.125, 1e15, -123456789.015625};
    static const char* const t[] = {"0", "1", "-1", "0.500000", "-0.250000", "1234567.125000", "1000000000000000", "-123456789.015625"};
    unsigned i = vx::pick("value", 8);
    sym_check(BigFloat(v[i]) == BigFloat(t[i]), "a floating value with at most six fraction digits is kept");
    sym_cover("converted");
}

// every number of digits before and after the point up to a bound, with an arbitrary last digit
static BigFloat decimal(const D& d, unsigned scale, bool neg)
{
    std::string t = neg ? "-" : "";
    for (size_t i = d.size(); i-- > 0; ) { t += (char)('0' + d[i]); if (i == scale && scale) t += '.'; }
    return BigFloat(t.c_str());
}
VX_HARNESS(bf_sizes)
{
    const unsigned n = 1 + vx::pick("digits", SIZES), k = vx::pick("point", 3), scale = k == 0 ? 0 : k == 1 ? n / 2 : n - 1;
    if (k && scale == 0) sym_end();
    const uint8_t fill = n % 2 ? 9 : 0;
    const bool neg = n % 3 == 1;
    D a(n, fill), b(n, fill);
    if (n > 1 && !fill) a[n - 1] = b[n - 1] = 1;
    a[0] = (uint8_t)sym_below("a", 10);
    b[0] = 5;
    const BigFloat x = decimal(a, scale, neg), y = decimal(b, scale, neg);
    sym_check(isUnits(str(x), scale, neg, a), "a decimal of any size prints back");
    const bool l = neg ? less(b, a) : less(a, b), g = neg ? less(a, b) : less(b, a);
    sym_check((x < y) == l && (x > y) == g && (x <= y) == !g && (x >= y) == !l && (x == y) == (!l & !g) && (x != y) == (l | g), "comparison at any size");
    sym_check(isUnits(str(x + y), scale, neg, plus(a, b)), "sum of any size");
    sym_check(isUnits(str(x - (y + x)), scale, !neg, b), "difference of any size");
    if (n <= 20) sym_check(isUnits(str(x * BigFloat("-0.25")), scale + 2, !neg, times(a, D{5, 2})), "product of any size");
    sym_check(x.Abs() == (neg ? BigFloat("0") - x : x) && !(x < x) && !(x > x) && x >= x && x <= x, "a decimal equals itself");
    sym_cover("decided");
}
