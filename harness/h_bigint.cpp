#include "vxlib.h"
#include "digits.h"
#include "Caitlyn/__Core/String/String.h"
#include "Caitlyn/__Core/Char/Utility.h"
#include <algorithm>
#include "Caitlyn/__Numeric/Types/BigInteger.h"
using namespace Caitlyn;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef DA
#define DA 3
#endif
#ifndef ANCHORS
#define ANCHORS 14
#endif
#ifndef DB
#define DB 3
#endif

struct N { int64_t v; BigInteger b; bool neg; uint64_t m; std::vector<uint8_t> d; };   // value, and its sign, magnitude and digits
// a number of 1..max digits, leading zeros allowed when lead, any sign
static N number(const char* nm, unsigned max, bool lead = false, bool sign = true)
{
    unsigned n = 1 + vx::pick("digits", max);
    bool neg = sign && vx::flip("minus");
    std::string t;
    if (neg) t += '-';
    uint64_t v = 0;
    std::vector<uint8_t> ds;
    for (unsigned i = 0; i < n; ++i)
    {
        uint8_t d = (uint8_t)sym_below(nm, 10);
        if (i == 0 && n > 1 && !lead) sym_assume(d != 0);
        t += (char)('0' + d);
        ds.insert(ds.begin(), d);
        v = v * 10 + d;
    }
    return N{neg ? -(int64_t)v : (int64_t)v, BigInteger(t.c_str()), neg, v, ds};
}
// canonical decimal text of v
static bool isText(const std::string& s, int64_t v)
{
    size_t i = 0;
    bool neg = !s.empty() && s[0] == '-';
    if (neg) i = 1;
    if (i >= s.size()) return false;
    bool ok = !(s[i] == '0' && (s.size() > i + 1 || neg));
    int64_t m = 0;
    for (; i < s.size(); ++i) { uint8_t d = (uint8_t)(s[i] - '0'); ok = ok & (d < 10); m = m * 10 + d; }
    return ok & ((neg ? -m : m) == v);
}
static bool is(const BigInteger& b, int64_t v) { std::string s = b.ToString().str(); vx::out(s); return isText(s, v); }

VX_HARNESS(big_add)
{
    N a = number("a", DA), b = number("b", DB);
    std::string s = (a.b + b.b).ToString().str();
    vx::out(s);
    sym_check(isSum(s, a.neg, a.d, b.neg, b.d), "sum");
    sym_check(is(a.b, a.v) & is(b.b, b.v), "operands unchanged");
    sym_cover("added");
}
VX_HARNESS(big_sub)
{
    N a = number("a", DA), b = number("b", DB);
    std::string s = (a.b - b.b).ToString().str();
    vx::out(s);
    sym_check(isSum(s, a.neg, a.d, !b.neg, b.d), "difference");
    sym_cover("subtracted");
}
VX_HARNESS(big_compare)
{
    N a = number("a", DA), b = number("b", DB);
    sym_check((a.b < b.b) == (a.v < b.v), "<");
    sym_check((a.b <= b.b) == (a.v <= b.v), "<=");
    sym_check((a.b > b.b) == (a.v > b.v), ">");
    sym_check((a.b >= b.b) == (a.v >= b.v), ">=");
    sym_check((a.b == b.b) == (a.v == b.v), "==");
    sym_check((a.b != b.b) == (a.v != b.v), "!=");
    sym_cover("compared");
    sym_out(a.b < b.b);
}
VX_HARNESS(big_mul)
{
    N a = number("a", DA), b = number("b", DB);
    sym_check(is(a.b * b.b, a.v * b.v), "product");
    sym_cover("multiplied");
}
VX_HARNESS(big_div)
{
    N a = number("a", DA), b = number("b", DB);
    BigInteger q, r;
    bool ia = false;
    try { q = a.b / b.b; r = a.b % b.b; } catch (const std::exception&) { ia = true; }
    if (ia) { sym_check(b.v == 0, "only division by zero throws"); sym_cover("by zero"); return; }
    sym_check(b.v != 0, "division by zero throws");
    std::string qs = q.ToString().str(), rs = r.ToString().str();
    bool qn, rn;
    D qd = parse(qs, qn), rd = parse(rs, rn);
    sym_check(qd.size() <= DA && rd.size() <= DA, "no more digits than the dividend");
    if (qd.size() > DA || rd.size() > DA) return;
    sym_check(isDigits(qs, qn, qd) & isDigits(rs, rn, rd), "canonical texts");
    uint32_t qm = 0, rm = 0, am = 0, bm = 0;         // magnitudes: everything fits
    for (size_t i = qd.size(); i-- > 0; ) qm = qm * 10 + qd[i];
    for (size_t i = rd.size(); i-- > 0; ) rm = rm * 10 + rd[i];
    for (size_t i = a.d.size(); i-- > 0; ) am = am * 10 + a.d[i];
    for (size_t i = b.d.size(); i-- > 0; ) bm = bm * 10 + b.d[i];
    sym_check(((qm * bm + rm == am) & (rm < bm)) & ((qm == 0) | (qn == (a.neg != b.neg))) & ((rm == 0) | (rn == a.neg)), "a = q*b + r with a smaller remainder of the sign of a");
    sym_cover("divided");
    vx::out(qs); vx::out(rs);
}
VX_HARNESS(big_pow)
{
    N a = number("a", DA);
    unsigned e = vx::pick("exponent", 4);
    int64_t v = 1;
    for (unsigned i = 0; i < e; ++i) v *= a.v;
    sym_check(is(a.b.Pow((int)e), v), "power");
    if (e == 2) sym_check(is(a.b.Sqr(), v), "square");
    int neg = -1 - (int)(sym_u32("negative") & 0x7fffffff);
    bool threw = false;
    try { a.b.Pow(neg); } catch (const std::exception&) { threw = true; }
    sym_check(threw, "a negative exponent throws");
    sym_cover("raised");
}
VX_HARNESS(big_sqrt)
{
    N a = number("a", DA);
    bool threw = false;
    BigInteger r;
    try { r = a.b.Sqrt(); } catch (const std::exception&) { threw = true; }
    sym_check(threw == (a.v < 0), "rooting a negative number throws, nothing else does");
    if (threw) { sym_cover("negative"); return; }
    std::string s = r.ToString().str();
    int64_t v = 0;
    for (char c : s) v = v * 10 + (c - '0');
    sym_check(isText(s, v), "canonical text");
    sym_check((v * v <= a.v) & ((v + 1) * (v + 1) > a.v), "the floor of the root");
    sym_cover("rooted");
    vx::out(s);
}
VX_HARNESS(big_text)
{
    vx::Text tx = vx::text("c", 0, NMAX, 3);
    std::string t = tx.bytes;
    size_t st = 0;
    bool neg = !t.empty() && t[0] == '-';
    if (neg || (!t.empty() && t[0] == '+')) st = 1;
    bool good = t.size() > st;
    int64_t v = 0;
    for (size_t i = st; i < t.size() && good; ++i) { uint8_t d = (uint8_t)(t[i] - '0'); good = d < 10; v = v * 10 + d; }
    bool threw = false, other = false;
    BigInteger b;
    try { unsigned how = vx::pick("how", 2); if (how) b = BigInteger(String(t.c_str())); else b = BigInteger(t.c_str()); }
    catch (const std::exception&) { threw = true; }
    catch (...) { other = true; }
    sym_check(!other && threw == !good, "accepted exactly when it is an optional sign and digits");
    if (!threw) { sym_check(is(b, neg ? -v : v), "prints back canonically"); sym_cover("accepted"); }
    else sym_cover("rejected");
}
VX_HARNESS(big_digits)
{
    N a = number("a", DA, true);
    sym_check(is(a.b, a.v), "leading zeros aside the digits come back");
    sym_check(is(a.b.Abs(), a.v < 0 ? -a.v : a.v), "absolute value");
    BigInteger c(a.b), d, e(std::move(a.b));
    d = c;
    sym_check(is(c, a.v) & is(d, a.v) & is(e, a.v), "copies and moves keep the value");
    d = std::move(e);
    sym_check(is(d, a.v), "move assignment keeps the value");
    sym_check(is(BigInteger(), 0), "default is zero");
    sym_cover("printed");
}
// canonical decimal text of a sign and a 64-bit magnitude
static bool isText64(const std::string& s, bool neg, uint64_t mag)
{
    size_t i = neg ? 1 : 0;
    if (neg && (s.empty() || s[0] != '-')) return false;
    if (i >= s.size() || s.size() - i > 20) return false;
    bool ok = !(s[i] == '0' && (s.size() > i + 1 || neg));
    unsigned __int128 m = 0;
    for (; i < s.size(); ++i) { uint8_t d = (uint8_t)(s[i] - '0'); ok = ok & (d < 10); m = m * 10 + d; }
    return ok & (m == mag);
}
VX_HARNESS(big_edges)       // windows of 256 values around values at which representations change
{
    static const uint64_t at[] = {0x80000000, 0x7fffffffffffff00, 0x8000000000000000, 0xffffffffffffff00, 10000000000000000000ull & ~255ull,
                                  0x7f00, 0x8000, 0xff00, 0x10000, 0x7fffff00, 0xffffff00, 0x100000000, 1000000000ull & ~255ull, 10000000000ull & ~255ull, 1000000000000000000ull & ~255ull};
    uint64_t v = at[vx::pick("at", ANCHORS)] | sym_u8("offset");
    if (vx::flip("signed"))
    {
        bool negated = vx::flip("negated");
        if (!negated && v >> 63) sym_end();       // the negated ones include these
        int64_t w = (int64_t)(negated ? 0 - v : v);
        bool neg = sym_decide(w < 0);
        if (negated && !neg) sym_end();           // the others include these
        sym_check(isText64(BigInteger(w).ToString().str(), neg, neg ? 0 - (uint64_t)w : (uint64_t)w), "signed 64-bit value");
    }
    else sym_check(isText64(BigInteger(v).ToString().str(), false, v), "unsigned 64-bit value");
    sym_cover("converted");
}
VX_HARNESS(big_native)
{
    unsigned t = vx::pick("type", 2);
    if (t) { int64_t v = (int16_t)sym_u16("v"); sym_check(is(BigInteger(v), v), "signed"); }
    else { uint64_t v = sym_u16("v"); sym_check(is(BigInteger(v), (int64_t)v), "unsigned"); }
    sym_cover("converted");
}

// ---------------------------------------------------------------- numbers of up to forty digits: fixed runs around arbitrary digits
#ifdef DEEP
static const unsigned runs[] = {0, 18, 8, 9, 38};
static const unsigned NRUN = 5, NR2 = 4, FIRST = 1;
#else
static const unsigned runs[] = {0, 18, 8};
static const unsigned NRUN = 3, NR2 = 2, FIRST = 0;
#endif
struct L { D d; bool neg; BigInteger b; };
// [arbitrary digit][run of one digit][arbitrary digit], leading zeros possible
static L longNumber(const char* nm, bool sign = true, bool first = true, unsigned nrun = NRUN, unsigned nfill = 3)
{
    unsigned r = runs[vx::pick("run", nrun)];
    uint8_t fill = r ? "\x09\x00\x05"[vx::pick("fill", nfill)] : 0;
    bool neg = sign && vx::flip("minus");
    std::string t;
    if (neg) t += '-';
    D d;
    auto put = [&](uint8_t x) { t += (char)('0' + x); d.insert(d.begin(), x); };
    if (first) { uint8_t x = (uint8_t)sym_below(nm, 10); put(x); } else put(1);
    for (unsigned i = 0; i < r; ++i) put(fill);
    put((uint8_t)sym_below(nm, 10));
    return L{d, neg, BigInteger(t.c_str())};
}
VX_HARNESS(big_sum_long)
{
    L a = longNumber("a"), b = longNumber("b");
    if (vx::flip("minus operator")) sym_check(isSum((a.b - b.b).ToString().str(), a.neg, a.d, !b.neg, b.d), "long difference");
    else sym_check(isSum((a.b + b.b).ToString().str(), a.neg, a.d, b.neg, b.d), "long sum");
    sym_cover("summed");
}
VX_HARNESS(big_compare_long)
{
    L a = longNumber("a"), b = longNumber("b");
    bool za = zero(a.d), zb = zero(b.d), na = a.neg & !za, nb = b.neg & !zb;
    bool lt = (na & !nb) | (!na & !nb & less(a.d, b.d)) | (na & nb & less(b.d, a.d)), gt = (nb & !na) | (!na & !nb & less(b.d, a.d)) | (na & nb & less(a.d, b.d));
    sym_check((a.b < b.b) == lt && (a.b > b.b) == gt && (a.b <= b.b) == !gt && (a.b >= b.b) == !lt && (a.b == b.b) == (!lt & !gt) && (a.b != b.b) == (lt | gt), "comparison of long numbers");
    sym_cover("compared");
}
VX_HARNESS(big_mul_long)
{
    L a = longNumber("a", true, FIRST), b = longNumber("b", true, false);
    bool swap = vx::flip("swap");
    std::string s = (swap ? b.b * a.b : a.b * b.b).ToString().str();
    sym_check(isDigits(s, a.neg != b.neg, times(a.d, b.d)), "long product");
    sym_cover("multiplied");
}
VX_HARNESS(big_pow_long)
{
    static const unsigned ex[] = {17, 16, 6, 64, 31, 10, 33};
    uint8_t d = (uint8_t)sym_below("d", 10);
    static const char* const pre[] = {"", "1", "-1", "99", "-"};
    std::string t = pre[vx::pick("before", 5)];
    t += (char)('0' + d);
#ifdef DEEP
    unsigned e = ex[vx::pick("exponent", 7)];
#else
    unsigned e = ex[2 * vx::pick("exponent", 2)];
#endif
    bool neg;
    D m = parse(t, neg), r(1, 1);
    BigInteger b(t.c_str());
    std::string s = b.Pow((int)e).ToString().str();
    sym_concretize(d);                                   // one value per path from here: the reference needs no carries
    m = parse(t, neg);
    for (unsigned i = 0; i < e; ++i) { r = times(r, m); while (r.size() > 1 && r.back() == 0) r.pop_back(); }
    sym_check(isDigits(s, neg && e % 2, r), "long power");
    sym_check(isDigits(b.Sqr().ToString().str(), false, times(m, m)), "square");
    sym_cover("raised");
}
VX_HARNESS(big_div_long)
{
    L a = longNumber("a", true, false, NR2, NRUN > 3 ? 3 : 2), b = vx::flip("short") ? L{D(), false, BigInteger()} : longNumber("b", true, false, NR2, 2);
    if (b.d.empty())
    {
        b.neg = vx::flip("minus");
        uint8_t x = (uint8_t)sym_below("b", 10);
        sym_assume(x != 0);
        b.d.push_back(x);
        std::string t = b.neg ? "-" : "";
        t += (char)('0' + x);
        b.b = BigInteger(t.c_str());
    }
    std::string qs = (a.b / b.b).ToString().str(), rs = (a.b % b.b).ToString().str();
    bool qn, rn;
    D q = parse(qs, qn), r = parse(rs, rn);
    sym_check(isDigits(qs, qn, q) & isDigits(rs, rn, r), "canonical quotient and remainder");
    D p = plus(times(q, b.d), r);
    bool same = true;
    for (size_t i = 0; i < p.size() || i < a.d.size(); ++i) same = same & ((i < p.size() ? p[i] : 0) == (i < a.d.size() ? a.d[i] : 0));
    sym_check(same, "|a| = |q|*|b| + |r|");
    sym_check(less(r, b.d), "remainder smaller than the divisor");
    sym_check((zero(q) | (qn == (a.neg != b.neg))) & (zero(r) | (rn == a.neg)), "signs of quotient and remainder");
    sym_cover("divided");
}
VX_HARNESS(big_sqrt_long)
{
    static const char* const pre[] = {"99", "9999999", "1", "1000000", "15241578750", "99999999999999999"};
    std::string t = pre[vx::pick("before", NRUN > 3 ? 6 : 2)];
    t += (char)('0' + sym_below("d", 10));
    if (vx::flip("two")) t += (char)('0' + sym_below("d", 10));
    std::string s = BigInteger(t.c_str()).Sqrt().ToString().str();
    bool n;
    D r = parse(s, n), m = parse(t, n), one(1, 1), up = plus(r, one);
    sym_check(isDigits(s, false, r), "canonical text");
    sym_check(!less(m, times(r, r)) & less(m, times(up, up)), "the floor of a long root");
    sym_cover("rooted");
}
VX_HARNESS(big_text_long)
{
    static const unsigned sz[] = {9, 40, 18, 100};
    std::string t, want;
    bool neg = vx::flip("minus");
    if (neg) t += '-'; else if (vx::flip("plus")) t += '+';
    t.append(sz[vx::pick("zeros", 2)] * vx::pick("leading zeros", 2), '0');
    unsigned n = sz[vx::pick("digits", 4)], at = vx::pick("at", 3);
    std::string m(n, '7');
    size_t k = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    uint8_t c = sym_u8("c"); sym_assume(c >= 1 && c < 0x80);
    m[k] = (char)c;
    t += m;
    bool good = sym_decide((uint8_t)(c - '0') < 10), threw = false;
    if (!good && at == 0 && t.size() == n) sym_assume(c != '-' && c != '+');
    std::string s;
    try
    {
        switch (vx::pick("how", 3))
        {
            case 0: s = BigInteger(t.c_str()).ToString().str(); break;
            case 1: s = BigInteger(String(t.c_str())).ToString().str(); break;
            default: s = operator""_bigint(t.c_str(), t.size()).ToString().str(); break;
        }
    }
    catch (const std::exception&) { threw = true; }
    sym_check(threw == !good, "a long text is accepted exactly when it is a number");
    if (!threw && good)
    {
        bool x;
        sym_check(isDigits(s, neg, parse(m, x)), "a long number prints back");
        sym_cover("accepted");
    }
    else sym_cover("rejected");
}

// ---------------------------------------------------------------- every number of digits up to a bound
#ifndef SIZES
#define SIZES 48
#endif
static BigInteger big(const D& d, bool neg = false)
{
    std::string t = neg ? "-" : "";
    for (size_t i = d.size(); i-- > 0; ) t += (char)('0' + d[i]);
    return BigInteger(t.c_str());
}
static D sized(unsigned n, uint8_t fill, const char* low)      // n digits, the last one arbitrary
{
    D d(n, fill);
    if (n > 1 && fill == 0) d[n - 1] = 1;
    d[0] = (uint8_t)sym_below(low, 10);
    return d;
}
VX_HARNESS(big_sum_sizes)
{
    const unsigned n = 1 + vx::pick("digits", SIZES);
    const bool nines = vx::flip("nines");
    const D a = sized(n, nines ? 9 : 0, "a"), b = nines ? sized(n, 9, "b") : sized(1, 0, "b");
    const BigInteger x = big(a), y = big(b);
    sym_check(isSum((x + y).ToString().str(), false, a, false, b), "sum of any size");
    sym_check(isSum((x - y).ToString().str(), false, a, true, b), "difference of any size");
    const bool lt = less(a, b), gt = less(b, a);
    sym_check((x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt && (x == y) == (!lt & !gt) && (x != y) == (lt | gt), "comparison at any size");
    sym_cover("summed");
}
VX_HARNESS(big_text_sizes)
{
    const unsigned n = 1 + vx::pick("digits", SIZES);
    const uint8_t fill = vx::flip("nines") ? 9 : 0;
    D a = sized(n, fill, "a");
    const bool neg = vx::flip("minus");
    const BigInteger x = big(a, neg);
    sym_check(isDigits(x.ToString().str(), neg, a), "a number of any size prints back");
    BigInteger y(x), z;
    z = y;
    sym_check(z == x && isDigits(BigInteger(std::move(y)).ToString().str(), neg, a) && isDigits(z.Abs().ToString().str(), false, a), "copies and absolute values of any size");
    sym_cover("printed");
}
VX_HARNESS(big_mul_sizes)
{
    const unsigned n = 1 + vx::pick("digits", SIZES);
    const bool nines = n % 2, small = vx::flip("short"), neg = n % 3 == 0;
    const D a = sized(n, nines ? 9 : 0, "a"), b = small ? D(1, 7) : D(n, nines ? 9 : 5);
    const BigInteger x = big(a, neg), y = big(b), p = x * y;
    sym_check(isDigits(p.ToString().str(), neg, times(a, b)), "product of any size");
    if (small) sym_check(isDigits((p / y).ToString().str(), neg, a), "a product divided by a factor");
    sym_cover("multiplied");
}
VX_HARNESS(big_pow_sizes)
{
    static const char* const bases[] = {"2", "-3", "10", "0", "1", "-1"};
    const unsigned e = vx::pick("exponent", SIZES * 2), k = vx::pick("base", 7);
    std::string t = k < 6 ? bases[k] : "1";
    if (k == 6) { if (e > 12) sym_end(); t += (char)('0' + sym_below("digit", 10)); sym_concretize(t[1]); }
    bool neg;
    const D m = parse(t, neg);
    D r(1, 1);
    for (unsigned i = 0; i < e; ++i) { r = times(r, m); while (r.size() > 1 && r.back() == 0) r.pop_back(); }
    sym_check(isDigits(BigInteger(t.c_str()).Pow((int)e).ToString().str(), neg && e % 2, r), "power of any size");
    sym_cover("raised");
}
// a result that is zero is not negative, however it came about
VX_HARNESS(big_zero)
{
    N a = number("a", DA);
    BigInteger z("0"), m("-0"), r;
    switch (vx::pick("how", 12))
    {
        case 0: r = a.b * z; break;
        case 1: r = z * a.b; break;
        case 2: r = a.b - a.b; break;
        case 3: r = a.b + (z - a.b); break;
        case 4: if (a.v == 0) sym_end(); r = z / a.b; break;
        case 5: if (a.v == 0) sym_end(); r = a.b % a.b; break;
        case 6: r = a.b / BigInteger("-100000"); break;
        case 7: r = z.Pow(3); break;
        case 8: r = m; break;
        case 9: r = z.Sqrt(); break;
        case 10: r = m.Abs(); break;
        default: r = a.b * m; break;
    }
    sym_check(r.ToString() == String("0") && r == z && !(r != z) && !(r < z) && !(r > z) && r <= z && r >= z && z == r && !(z < r), "zero is one number");
    sym_check((a.b + r) == a.b && (a.b - r) == a.b && ((a.b < r) == (a.v < 0)) && ((a.b > r) == (a.v > 0)) && (r * a.b) == r, "zero acts as zero");
    sym_cover("zero");
}
