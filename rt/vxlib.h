// Helpers shared by harnesses (engine and native replay builds).
#pragma once
#include "vx.h"
#include <string>
#include <vector>
#include <exception>
#include <stdexcept>

#ifdef VX_ENGINE
#define VX_HARNESS(name) extern "C" void harness_##name()
#else
struct VxReg { VxReg(const char* n, void (*f)()); };
#define VX_HARNESS(name) extern "C" void harness_##name(); static VxReg vxreg_##name(#name, harness_##name); extern "C" void harness_##name()
#endif

namespace vx {
inline unsigned pick(const char* name, unsigned n)      // one of 0..n-1, decided (one path each)
{
    return (unsigned)sym_concretize(sym_below(name, n));
}
inline bool flip(const char* name)
{
    return sym_decide(sym_below(name, 2) == 1);
}
inline void out(const std::string& s)
{
    sym_out(s.size());
    for (size_t i = 0; i < s.size(); ++i) sym_out((uint8_t)s[i]);
}
// a Unicode scalar value of a UTF-8 length class that is chosen on the path (1..4 bytes; 0: any class up to maxLen)
inline uint32_t scalar(const char* name, unsigned len)
{
    uint32_t c = sym_u32(name);
    switch (len)
    {
        case 1: sym_assume(c >= 1 && c < 0x80); break;
        case 2: sym_assume(c >= 0x80 && c < 0x800); break;
        case 3: sym_assume(c >= 0x800 && c < 0x10000); sym_assume(!(c >= 0xD800 && c < 0xE000)); break;
        default: sym_assume(c >= 0x10000 && c < 0x110000); break;
    }
    return c;
}
// reference UTF-8 encoder (length known)
inline void put8(std::string& s, uint32_t c, unsigned len)
{
    if (len == 1) s += (char)c;
    else if (len == 2) { s += (char)(0xC0 | (c >> 6)); s += (char)(0x80 | (c & 63)); }
    else if (len == 3) { s += (char)(0xE0 | (c >> 12)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | (c >> 18)); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
}
struct Text                     // a list of characters with its encoding
{
    std::vector<uint32_t> cp;
    std::vector<unsigned> len;
    std::string bytes;
    size_t n() const { return cp.size(); }
    void add(uint32_t c, unsigned l) { cp.push_back(c); len.push_back(l); put8(bytes, c, l); }
    std::string ch(size_t i) const { std::string r; put8(r, cp[i], len[i]); return r; }
};
// text of 0..maxN characters, each with a UTF-8 length from the set (bit mask of lengths, bit 0 = 1 byte)
inline Text text(const char* name, unsigned minN, unsigned maxN, unsigned lens)
{
    Text t;
    unsigned n = minN + (maxN > minN ? pick("count", maxN - minN + 1) : 0);
    unsigned opts[4], k = 0;
    for (unsigned i = 0; i < 4; ++i) if (lens >> i & 1) opts[k++] = i + 1;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned l = opts[k > 1 ? pick("bytes", k) : 0];
        t.add(scalar(name, l), l);
    }
    return t;
}
// bytes 1..255 of a length decided on the path
inline std::string bytes(const char* name, unsigned minN, unsigned maxN)
{
    unsigned n = minN + (maxN > minN ? pick("length", maxN - minN + 1) : 0);
    std::string s;
    for (unsigned i = 0; i < n; ++i) { uint8_t b = sym_u8(name); sym_assume(b != 0); s += (char)b; }
    return s;
}
// a string over a small alphabet, symbolic
inline std::string over(const char* name, const char* alphabet, unsigned k, unsigned minN, unsigned maxN)
{
    unsigned n = minN + (maxN > minN ? pick("length", maxN - minN + 1) : 0);
    std::string s;
    for (unsigned i = 0; i < n; ++i)
    {
        uint8_t b = sym_u8(name);
        bool ok = false;
        for (unsigned j = 0; j < k; ++j) ok = ok | (b == (uint8_t)alphabet[j]);
        sym_assume(ok);
        s += (char)b;
    }
    return s;
}
inline bool eq(const std::string& a, const std::string& b)   // one symbolic value, no forks
{
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]);
    return r;
}
enum Outcome { OK, STDEXC, OTHEREXC };
// run f; what kind of exception escaped
template <typename F> Outcome run(F f)
{
    try { f(); return OK; }
    catch (const std::exception&) { return STDEXC; }
    catch (...) { return OTHEREXC; }
}
}
