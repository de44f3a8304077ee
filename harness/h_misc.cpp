#include "vxlib.h"
#include <random>
#include <map>
#include <chrono>
// the generator's output is an arbitrary value: the engine of the standard library is replaced
static int gDraws, gLimit = 2;
static const char* gName = "generator";
static uint64_t* gFixed;       // or a chosen one
static uint64_t draw() { if (gFixed) { uint64_t v = *gFixed; *gFixed += 0x10000000001; return v; } if (++gDraws > gLimit) sym_end(); return sym_u64(gName); }
namespace std {
template <> inline mt19937_64::result_type mt19937_64::operator()() { return draw(); }
template <> inline void mt19937_64::seed(mt19937_64::result_type) {}
template <> inline mt19937::result_type mt19937::operator()() { return (uint32_t)draw(); }
template <> inline void mt19937::seed(mt19937::result_type) {}
static unsigned gCanon;
template <> inline double generate_canonical<double, 53, mt19937_64>(mt19937_64&) { static const double v[] = {0.0, 0.25, 0.5, 0.75, 0.99999999999999988897769753748}; return v[gCanon]; }
template <> inline float generate_canonical<float, 24, mt19937_64>(mt19937_64&) { static const float v[] = {0.0f, 0.25f, 0.5f, 0.75f, 0.99999994f}; return v[gCanon]; }
}
#include "Caitlyn/__Core/Utility.h"
#include "Caitlyn/__Core/Numeric.h"
#include "Caitlyn/__Core/Collections.h"
#include "Caitlyn/__Core/Memory.h"
using namespace Caitlyn;

// ---------------------------------------------------------------- comparisons
// exact order of two integers of at most 64 bits: sign, then magnitude
template <class T> static bool neg(T t) { return t < 0; }
template <class T, class U>
static int order(T t, U u)
{
    if (neg(t) != neg(u)) return neg(t) ? -1 : 1;
    if (neg(t)) { int64_t a = t, b = u; return a < b ? -1 : a == b ? 0 : 1; }
    uint64_t a = (uint64_t)t, b = (uint64_t)u;
    return a < b ? -1 : a == b ? 0 : 1;
}
template <class T, class U>
static void compare()
{
    T t = (T)sym_u64("left");
    U u = (U)sym_u64("right");
    int o = order(t, u);
    sym_check(cmp_eq(t, u) == (o == 0), "cmp_eq");
    sym_check(cmp_ne(t, u) == (o != 0), "cmp_ne");
    sym_check(cmp_less(t, u) == (o < 0), "cmp_less");
    sym_check(cmp_greater(t, u) == (o > 0), "cmp_greater");
    sym_check(cmp_le(t, u) == (o <= 0), "cmp_le");
    sym_check(cmp_ge(t, u) == (o >= 0), "cmp_ge");
    sym_cover("compared");
}
template <class T>
static void compareWith(unsigned k)
{
    switch (k)
    {
        case 0: compare<T, signed char>(); break;
        case 1: compare<T, unsigned char>(); break;
        case 2: compare<T, short>(); break;
        case 3: compare<T, unsigned short>(); break;
        case 4: compare<T, int>(); break;
        case 5: compare<T, unsigned>(); break;
        case 6: compare<T, long>(); break;
        case 7: compare<T, unsigned long>(); break;
        case 8: compare<T, long long>(); break;
        default: compare<T, unsigned long long>(); break;
    }
}
VX_HARNESS(cmp_all)
{
    unsigned a = vx::pick("left type", 10), b = vx::pick("right type", 10);
    switch (a)
    {
        case 0: compareWith<signed char>(b); break;
        case 1: compareWith<unsigned char>(b); break;
        case 2: compareWith<short>(b); break;
        case 3: compareWith<unsigned short>(b); break;
        case 4: compareWith<int>(b); break;
        case 5: compareWith<unsigned>(b); break;
        case 6: compareWith<long>(b); break;
        case 7: compareWith<unsigned long>(b); break;
        case 8: compareWith<long long>(b); break;
        default: compareWith<unsigned long long>(b); break;
    }
}

// ---------------------------------------------------------------- random
#ifndef SPAN
#define SPAN 255
#endif
template <class T>
static void within()
{
    gDraws = 0; gFixed = nullptr;
    T a = (T)sym_u64("min"), b = (T)sym_u64("max");
    sym_assume(a <= b);
    sym_assume((uint64_t)b - (uint64_t)a <= SPAN);
    T r = Random<T>(a, b);
    sym_check(r >= a && r <= b, "within the range");
    sym_cover("drawn");
}
VX_HARNESS(rnd_within)
{
    switch (vx::pick("type", 6))
    {
        case 0: within<Int16>(); break;
        case 1: within<UInt16>(); break;
        case 2: within<Int32>(); break;
        case 3: within<UInt32>(); break;
        case 4: within<Int64>(); break;
        default: within<UInt64>(); break;
    }
}
// wide ranges: chosen widths at any position
template <class T>
static void wide()
{
    gDraws = 0; gFixed = nullptr;
    static const uint64_t widths[] = {256, 1000, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 1000000007, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x123456789ABCDEF, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF};
    uint64_t w = widths[vx::pick("width", sizeof widths / sizeof *widths)];
    if (w > (uint64_t)std::numeric_limits<T>::max() - (uint64_t)std::numeric_limits<T>::min()) sym_end();
    typedef std::numeric_limits<T> L;
    const T from[] = {L::min(), (T)((uint64_t)L::max() - w), (T)(L::min() + ((uint64_t)L::max() - (uint64_t)L::min() - w) / 2)};
    T a = from[vx::pick("min", 3)], b = (T)((uint64_t)a + w);
    T r = Random<T>(a, b);
    sym_check(r >= a && r <= b, "within the range");
    sym_cover("drawn");
}
VX_HARNESS(rnd_wide)
{
    switch (vx::pick("type", 6))
    {
        case 0: wide<Int16>(); break;
        case 1: wide<UInt16>(); break;
        case 2: wide<Int32>(); break;
        case 3: wide<UInt32>(); break;
        case 4: wide<Int64>(); break;
        default: wide<UInt64>(); break;
    }
}
// every value of a small range comes out for some generator output: the outputs tried are the middles of equal parts and
// the smallest ones, so that scaling as well as remainder generators reach every value
template <class T>
static void reach()
{
    unsigned n = 1 + vx::pick("values", 6);
    typedef std::numeric_limits<T> L;
    const T from[] = {L::min(), (T)(L::min() + 1), (T)0, (T)(L::max() / 2 - 2), (T)(L::max() - (n - 1))};
    T a = from[vx::pick("min", 5)], b = (T)(a + (T)(n - 1));
    bool seen[6] = {};
    for (unsigned i = 0; i < 2 * n; ++i)
    {
        uint64_t x = i < n ? (UINT64_MAX / n) * i + UINT64_MAX / (2 * n) : UINT64_MAX / 2 + 1 + i - n;
        gFixed = &x;
        T r = Random<T>(a, b);
        sym_check(r >= a && r <= b, "within the range");
        for (unsigned j = 0; j < n; ++j) if (r == (T)(a + (T)j)) seen[j] = true;
    }
    gFixed = nullptr;
    for (unsigned j = 0; j < n; ++j) sym_check(seen[j], "every value of the range can be drawn");
    sym_cover("reached");
}
VX_HARNESS(rnd_reach)
{
    switch (vx::pick("type", 6))
    {
        case 0: reach<Int16>(); break;
        case 1: reach<UInt16>(); break;
        case 2: reach<Int32>(); break;
        case 3: reach<UInt32>(); break;
        case 4: reach<Int64>(); break;
        default: reach<UInt64>(); break;
    }
}
template <class T>
static void real()
{
    static const T p[] = {(T)-1e30, (T)-7.5, (T)-1, (T)0, (T)1e-20, (T)1, (T)3.25, (T)1e30};
    unsigned i = vx::pick("min", 8), j = vx::pick("max", 8);
    if (i > j) sym_end();
    std::gCanon = vx::pick("generator value", 5);
    T r = Random<T>(p[i], p[j]);
    sym_check(r >= p[i] && r <= p[j], "within the range");
    if (std::gCanon == 0) sym_check(r == p[i], "starts at the lower bound");
    if (std::gCanon == 4 && i < j) sym_check(r > p[i], "goes up from there");
    sym_cover("drawn");
}
VX_HARNESS(rnd_real) { if (vx::flip("double")) real<Double>(); else real<Float>(); }
VX_HARNESS(rnd_boolean)
{
    static const double p[] = {-1.0, -1e-300, -0.0, 0.0, 1e-300, 0.25, 0.5, 0.75, 0.99999999999999988897769753748, 1.0, 1.0000000000000002220446049250313, 2.0, 1e300, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
    unsigned k = vx::pick("percentage", sizeof p / sizeof *p);
    std::gCanon = vx::pick("generator value", 5);
    bool threw = false, r = false;
    try { r = RandomBoolean(p[k]); } catch (const std::invalid_argument&) { threw = true; }
    bool ok = k >= 2 && k <= 9;
    sym_check(threw == !ok, "refused exactly outside 0..1");
    if (ok && p[k] == 0) sym_check(!r, "never true at 0");
    if (ok && p[k] == 1) sym_check(r, "always true at 1");
    sym_cover(threw ? "refused" : "drawn");
}

// ---------------------------------------------------------------- maps
template <class M>
static void maps(bool more = false)
{
    M m;
    std::vector<std::pair<uint8_t, uint32_t>> in;
    unsigned n = vx::pick("entries", more ? 2 : 4);
    // many that are known besides
    if (more) for (unsigned i = 0; i < 40; ++i) { uint8_t k = (uint8_t)(i * 89); m[k] = i; in.emplace_back(k, i); }
    for (unsigned i = 0; i < n; ++i)
    {
        uint8_t k = sym_u8("key"); uint32_t v = sym_u32("value");
        m[k] = v;
        bool found = false;
        for (auto& e : in) if (sym_decide(e.first == k)) { e.second = v; found = true; }
        if (!found) in.emplace_back(k, v);
    }
    for (size_t i = 0; i < in.size(); ++i) for (size_t j = i + 1; j < in.size(); ++j) if (sym_decide(in[j].first < in[i].first)) std::swap(in[i], in[j]);
    const M& c = m;
    auto k1 = GetMapKeys(m); auto k2 = GetMapKeys(c); auto v1 = GetMapValues(m); auto v2 = GetMapValues(c);
    sym_check(k1.size() == in.size() && k2.size() == in.size() && v1.size() == in.size() && v2.size() == in.size(), "one entry per map entry");
    for (size_t i = 0; i < in.size(); ++i)
    {
        sym_check(k1[i] == in[i].first && k2[i] == in[i].first, "keys in order");
        sym_check(v1[i] == in[i].second && v2[i] == in[i].second, "values in order");
    }
    sym_check(m.size() == in.size(), "the map is not changed");
    size_t i = 0;
    for (auto& e : m) { sym_check(e.first == in[i].first && e.second == in[i].second, "the map is not changed"); ++i; }
    auto t = GetMapValues(M(m));
    sym_check(t.size() == in.size(), "of a temporary");
    sym_cover("listed");
}
VX_HARNESS(map_many) { maps<std::map<uint8_t, uint32_t>>(true); }
VX_HARNESS(map_lists) { maps<std::map<uint8_t, uint32_t>>(); }
VX_HARNESS(map_multi)
{
    std::multimap<uint8_t, uint32_t> m;
    unsigned n = vx::pick("entries", 4);
    for (unsigned i = 0; i < n; ++i) { uint8_t k = sym_u8("key"); m.insert(std::make_pair(k, sym_u32("value"))); }
    auto k = GetMapKeys(m); auto v = GetMapValues(m);
    sym_check(k.size() == n && v.size() == n, "one entry per map entry");
    size_t i = 0;
    for (auto& e : m) { sym_check(e.first == k[i] && e.second == v[i], "in order"); ++i; }
    sym_cover("listed");
}

// ---------------------------------------------------------------- sizes
struct Mixed { char a; double b; char c; };
template <class T>
static void size()
{
    static T x{};
    MemoryFormat f = (MemoryFormat)sym_below("format", 2);
    size_t unit = f == MemoryFormat::Byte ? 1 : 8;
    sym_check(SizeOf<T>(f) == sizeof(T) * unit, "of a type");
    sym_check(SizeOf(x, f) == sizeof(T) * unit, "of a value");
    sym_check(SizeOf<T>() == sizeof(T) && SizeOf(x) == sizeof(T), "bytes by default");
    sym_cover("sized");
}
VX_HARNESS(size_of)
{
    switch (vx::pick("type", 11))
    {
        case 0: size<bool>(); break;
        case 1: size<char>(); break;
        case 2: size<short>(); break;
        case 3: size<int>(); break;
        case 4: size<long>(); break;
        case 5: size<float>(); break;
        case 6: size<double>(); break;
        case 7: size<Mixed>(); break;
        case 8: size<void*>(); break;
        case 9: { static int a[7]; MemoryFormat f = (MemoryFormat)sym_below("format", 2); sym_check(SizeOf(a, f) == (f == MemoryFormat::Byte ? 28 : 224) && SizeOf<int[7]>(f) == SizeOf(a, f), "of an array"); break; }
        default: { std::string s(vx::pick("length", 3) * 20, 'x'); sym_check(SizeOf(s) == sizeof s, "of a string object"); size<long long>(); }
    }
}

// ---------------------------------------------------------------- bounds
template <class T>
static void bounds()
{
    T x = (T)sym_u64("value");
    std::pair<T, T> r = ValueRange<T>();
    sym_check(MinValue<T>() <= x && x <= MaxValue<T>(), "every value lies between the bounds");
    sym_check(r.first <= x && x <= r.second && r.first == MinValue<T>() && r.second == MaxValue<T>(), "and in the range");
    sym_cover("bounded");
}
VX_HARNESS(num_bounds)
{
    switch (vx::pick("type", 11))
    {
        case 0: bounds<signed char>(); break;
        case 1: bounds<unsigned char>(); break;
        case 2: bounds<short>(); break;
        case 3: bounds<unsigned short>(); break;
        case 4: bounds<int>(); break;
        case 5: bounds<unsigned>(); break;
        case 6: bounds<long>(); break;
        case 7: bounds<unsigned long>(); break;
        case 8: bounds<long long>(); break;
        case 9: bounds<unsigned long long>(); break;
        default: bounds<char>(); break;
    }
}
// maps of every size up to a bound
#ifndef SIZES
#define SIZES 70
#endif
VX_HARNESS(map_sizes)
{
    const unsigned n = vx::pick("size", SIZES + 1);
    std::map<uint16_t, std::string> m;
    std::multimap<uint16_t, uint32_t> mm;
    const uint32_t v = sym_u32("value");
    for (unsigned i = 0; i < n; ++i) { const uint16_t k = (uint16_t)((i * 37) % 101); m[k] = std::string(k % 20, 'v'); mm.insert({(uint16_t)(i / 3), i + 1 == n ? v : i}); }
    const auto k = GetMapKeys(m); const auto w = GetMapValues(m); const auto mk = GetMapKeys(mm); const auto mw = GetMapValues(mm);
    bool ok = k.size() == m.size() && w.size() == m.size() && mk.size() == n && mw.size() == n;
    size_t i = 0;
    if (ok) for (auto& e : m) { ok = ok && k[i] == e.first && w[i] == std::string(e.first % 20, 'v'); ++i; }
    if (ok) for (i = 0; i < n; ++i) ok = ok && mk[i] == i / 3 && mw[i] == (i + 1 == n ? v : (uint32_t)i);
    sym_check(ok, "maps of any size");
    sym_cover("listed");
}
