#include "vxlib.h"
#include "Caitlyn/__Core/Char/Char.h"
#include <sstream>
using namespace Caitlyn;

static unsigned classOf(uint32_t cp) { return cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4; }

// every scalar value: encoding is the standard one, code point comes back
VX_HARNESS(char_roundtrip)
{
    unsigned len = 1 + vx::pick("class", 4);
    uint32_t cp = vx::scalar("cp", len);
    std::string ref;
    vx::put8(ref, cp, len);
    unsigned how = vx::pick("how", 2);
    Char c;
    if (how == 0) c = Char(static_cast<CodePoint>(cp));
    else { c = Char("x"); c = static_cast<CodePoint>(cp); }
    sym_cover("built");
    sym_check(vx::eq(c.str(), ref), "the bytes are the UTF-8 encoding of the code point");
    sym_check(vx::eq(std::string(c.data()), ref) & vx::eq(std::string(c.c_str()), ref), "data() and c_str() give the encoding");
    sym_check(c.size() == len && c.Length() == len, "size is the number of bytes");
    sym_check(c.NotEmpty() && !c.IsEmpty(), "a built character is not empty");
    sym_check(static_cast<uint32_t>(c.GetCodePoint()) == cp, "reading the code point back gives the same value");
    Char d(ref);
    sym_check(d == c && static_cast<uint32_t>(d.GetCodePoint()) == cp, "building from the bytes gives the same character");
    std::ostringstream os;
    os << c;
    sym_check(vx::eq(os.str(), ref), "output writes the encoding");
    vx::out(c.str());
}

static bool wellFormed(const std::string& b)
{
    if (b.empty()) return false;
    uint8_t l = (uint8_t)b[0];
    size_t n = l < 0x80 ? 1 : (l >= 0xC0 && l < 0xE0) ? 2 : (l >= 0xE0 && l < 0xF0) ? 3 : (l >= 0xF0 && l < 0xF8) ? 4 : 0;
    if (n != b.size()) return false;
    for (size_t i = 1; i < n; ++i) if (((uint8_t)b[i] & 0xC0) != 0x80) return false;
    return true;
}
// every byte sequence of up to 5 bytes: accepted exactly when structurally one character
VX_HARNESS(char_bytes)
{
    unsigned how = vx::pick("how", 4);
    unsigned n = vx::pick("n", 6);
    std::string b;
    for (unsigned i = 0; i < n; ++i)
    {
        uint8_t x = sym_u8("byte");
        if (how == 1 || how == 3) sym_assume(x != 0);     // NUL-terminated text
        b += (char)x;
    }
    bool want = wellFormed(b);
    Char t("\xC3\xA9");
    vx::Outcome o = vx::OK;
    bool ia = false;
    try
    {
        if (how == 0) { Char c(b); t = c; }
        else if (how == 1) { Char c(b.c_str()); t = c; }
        else if (how == 2) t = b;
        else t = b.c_str();
    }
    catch (const std::invalid_argument&) { ia = true; }
    sym_check(ia == !want, "accepted exactly when the bytes are one structurally complete character");
    if (ia) { sym_cover("rejected"); sym_check(vx::eq(t.str(), "\xC3\xA9"), "a rejected assignment leaves the target as it was"); }
    else { sym_cover("accepted"); sym_check(vx::eq(t.str(), b), "the bytes are kept unchanged"); }
    (void)o;
    sym_out(ia);
}

// a literal, and the plain byte constructor / assignment for ASCII
VX_HARNESS(char_ascii)
{
    uint8_t b = sym_u8("byte");
    sym_assume(b >= 1 && b < 0x80);
    Char c(static_cast<char>(b)), d("x");
    d = static_cast<char>(b);
    sym_check(c.size() == 1 && (uint8_t)c.data()[0] == b, "byte kept");
    sym_check(c.GetCodePoint() == b, "ASCII byte is its own code point");
    sym_check(c == d && !(c != d), "construction and assignment agree");
    sym_cover("ascii");
    sym_out((uint64_t)c.GetCodePoint());
}

// the six comparisons agree with the numeric order of the code points
VX_HARNESS(char_order)
{
    unsigned la = 1 + vx::pick("ca", 4), lb = 1 + vx::pick("cb", 4);
    uint32_t a = vx::scalar("a", la), b = vx::scalar("b", lb);
    Char x(static_cast<CodePoint>(a)), y(static_cast<CodePoint>(b));
    sym_check((x < y) == (a < b), "<");
    sym_check((x <= y) == (a <= b), "<=");
    sym_check((x > y) == (a > b), ">");
    sym_check((x >= y) == (a >= b), ">=");
    sym_check((x == y) == (a == b), "==");
    sym_check((x != y) == (a != b), "!=");
    sym_cover("compared");
    if (la != lb) sym_cover("different lengths");
    sym_out(x < y);
}
