#include "vxlib.h"
#include "Caitlyn/__Core/String/String.h"
#include "Caitlyn/__Core/Char/Utility.h"
#include "unicode_tables.h"
using namespace Caitlyn;
#ifndef NMAX
#define NMAX 1
#endif
#ifndef LENS
#define LENS 7
#endif

static bool in(uint32_t c, uint32_t lo, uint32_t hi) { return c - lo <= hi - lo; }
static bool basicUpper(uint32_t c) { return in(c, 'A', 'Z') | in(c, 0x410, 0x42F) | (in(c, 0x391, 0x3A9) & (c != 0x3A2)); }
static bool basicLower(uint32_t c) { return in(c, 'a', 'z') | in(c, 0x430, 0x44F) | (in(c, 0x3B1, 0x3C9) & (c != 0x3C2)); }

VX_HARNESS(cls_space)
{
    uint32_t c = sym_u32("cp");
    bool r = IsSpace(static_cast<CodePoint>(c));
    sym_check(r == u_space(c), "space exactly for White_Space");
    if (r) sym_cover("space"); else sym_cover("not space");
    sym_out(r);
}
VX_HARNESS(cls_digit)
{
    uint32_t c = sym_u32("cp");
    bool r = IsDigit(static_cast<CodePoint>(c));
    sym_check(r == u_digit_bmp(c), "digit exactly for the decimal digits of the BMP");
    int v = ToDigit(static_cast<CodePoint>(c));
    sym_check(v == (in(c, '0', '9') ? (int)(c - '0') : -1), "value of ASCII digits, -1 for everything else");
    if (r) sym_cover("digit"); else sym_cover("not digit");
    sym_out(r); sym_out((uint32_t)v);
}
VX_HARNESS(cls_case)
{
    uint32_t c = sym_u32("cp");
    CodePoint p = static_cast<CodePoint>(c);
    bool u = IsUppercase(p), l = IsLowercase(p), t = IsLetter(p);
    sym_check(t == (u || l), "letters are the cased ones");
    sym_check(!(u && l), "no code point is both upper- and lowercase");
    sym_check(!u || u_is_upper(c), "uppercase only for Unicode uppercase letters");
    sym_check(!l || u_is_lower(c), "lowercase only for Unicode lowercase letters");
    sym_check(!basicUpper(c) || u, "capitals of the basic alphabets are uppercase");
    sym_check(!basicLower(c) || l, "small letters of the basic alphabets are lowercase");
    sym_check(!t || !(u_space(c) | u_digit_bmp(c)), "a letter is no digit and no space");
    if (u) sym_cover("upper"); else if (l) sym_cover("lower"); else sym_cover("neither");
    sym_out(u); sym_out(l);
}
static bool upOk(uint32_t c, uint32_t r) { return (r == c) | (r == u_upper(c)) | ((c == 0xDF) & (r == 0x1E9E)); }
static bool lowOk(uint32_t c, uint32_t r) { return (r == c) | (r == u_lower(c)); }
VX_HARNESS(case_upper)
{
    uint32_t c = sym_u32("cp");
    CodePoint p = static_cast<CodePoint>(c);
    uint32_t r = static_cast<uint32_t>(ToUppercase(p));
    sym_check(upOk(c, r), "uppercase is the Unicode simple mapping or the code point itself");
    if (r != c) sym_cover("mapped"); else sym_cover("identity");
    sym_check(!basicLower(c) || r == u_upper(c), "small letters of the basic alphabets are always mapped");
    sym_check(static_cast<uint32_t>(ToUppercase(static_cast<CodePoint>(r))) == r, "uppercasing twice is uppercasing once");
    sym_out(r);
}
VX_HARNESS(case_lower)
{
    uint32_t c = sym_u32("cp");
    CodePoint p = static_cast<CodePoint>(c);
    uint32_t r = static_cast<uint32_t>(ToLowercase(p));
    sym_check(lowOk(c, r), "lowercase is the Unicode simple mapping or the code point itself");
    if (r != c) sym_cover("mapped"); else sym_cover("identity");
    sym_check(!basicUpper(c) || r == u_lower(c), "capitals of the basic alphabets are always mapped");
    sym_check(static_cast<uint32_t>(ToLowercase(static_cast<CodePoint>(r))) == r, "lowercasing twice is lowercasing once");
    sym_out(r);
}
// what is classified as cased is mapped
VX_HARNESS(case_classes)
{
    uint32_t c = sym_u32("cp");
    CodePoint p = static_cast<CodePoint>(c);
    if (IsUppercase(p))
    {
        sym_cover("upper");
        uint32_t r = static_cast<uint32_t>(ToLowercase(p));
        sym_check(r == u_lower(c) && r != c, "an uppercase letter is lowercased to its Unicode mapping");
        sym_check(static_cast<uint32_t>(ToUppercase(p)) == c, "an uppercase letter is its own uppercase");
        sym_out(r);
    }
    else if (IsLowercase(p))
    {
        sym_cover("lower");
        sym_check(static_cast<uint32_t>(ToLowercase(p)) == c, "a lowercase letter is its own lowercase");
        sym_out(1);
    }
}
// characters and strings are mapped character by character
VX_HARNESS(case_string)
{
    vx::Text t = vx::text("cp", 0, NMAX, LENS);
    String s(t.bytes.c_str());
    bool up = vx::flip("upper");
    String m = up ? s.ToUppercase() : s.ToLowercase();
    sym_check(m.size() == t.n(), "mapping keeps the number of characters");
    sym_check(vx::eq(s.str(), t.bytes), "the string itself is unchanged");
    for (size_t i = 0; i < t.n(); ++i)
    {
        CodePoint p = static_cast<CodePoint>(t.cp[i]);
        uint32_t want = static_cast<uint32_t>(up ? ToUppercase(p) : ToLowercase(p));
        sym_check(static_cast<uint32_t>(m[i].GetCodePoint()) == want, "each character is mapped on its own");
        Char q = up ? ToUppercase(Char(p)) : ToLowercase(Char(p));
        sym_check(static_cast<uint32_t>(q.GetCodePoint()) == want, "mapping a character maps its code point");
    }
    sym_cover("mapped");
    vx::out(m.str());
}
