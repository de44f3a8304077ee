#include "vxlib.h"
#include "Caitlyn/__Core/String/String.h"
using namespace Caitlyn;
#ifndef SEGS
#define SEGS 3
#endif
#ifndef NMAX
#define NMAX 2
#endif
#ifndef WMAX
#define WMAX 5
#endif
#ifndef LENS
#define LENS 3
#endif
#ifndef FRAC
#define FRAC 2
#endif
#ifndef BLEN
#define BLEN 2
#endif
#ifndef FLEN
#define FLEN 4
#endif

static std::string formatN(const String& f, unsigned n, const std::vector<String>& a)
{
    switch (n)
    {
        case 0: return String::Format(f).str();
        case 1: return String::Format(f, a[0]).str();
        case 2: return String::Format(f, a[0], a[1]).str();
        default: return String::Format(f, a[0], a[1], a[2]).str();
    }
}

// segments: text, {{, }}, {}, {N}, {N:>W}, {:<W}
VX_HARNESS(fmt_args)
{
    unsigned n = vx::pick("args", 4);
    std::vector<std::string> arg;
    std::vector<String> a;
    for (unsigned i = 0; i < n; ++i)
    {
        std::string t;
        for (unsigned k = 0; k <= i % 2; ++k) { uint8_t b = sym_u8("arg"); sym_assume(b >= 1 && b < 0x80); t += (char)b; }
        arg.push_back(t);
        a.push_back(String(t.c_str()));
    }
    std::string f, want;
    unsigned segs = vx::pick("segments", SEGS + 1);
    unsigned next = 0;
    bool missing = false;
    for (unsigned s = 0; s < segs; ++s)
    {
        unsigned kind = vx::pick("kind", 7);
        unsigned idx = 0;
        bool ref = false, spec = false, left = false;
        switch (kind)
        {
            case 0: { uint8_t b = sym_u8("text"); sym_assume(b >= 1 && b < 0x80 && b != '{' && b != '}'); f += (char)b; if (!missing) want += (char)b; break; }
            case 1: f += "{{"; if (!missing) want += '{'; break;
            case 2: f += "}}"; if (!missing) want += '}'; break;
            case 3: f += "{}"; ref = true; idx = n == 1 ? 0 : next++; break;
            case 4: case 5:
            {
                idx = vx::pick("index", 4);
                f += '{'; f += (char)('0' + idx);
                if (kind == 5) { f += ":>3"; spec = true; }
                f += '}'; ref = true; break;
            }
            default: f += "{:.<3}"; spec = true; left = true; ref = true; idx = n == 1 ? 0 : next++; break;
        }
        if (ref)
        {
            if (idx >= n) missing = true;
            else if (!missing)
            {
                std::string v = arg[idx];
                if (spec) while (v.size() < 3) v = left ? v + '.' : ' ' + v;
                want += v;
            }
        }
    }
    std::string got;
    bool rt = false, other = false;
    try { got = formatN(String(f.c_str()), n, a); }
    catch (const std::runtime_error&) { rt = true; }
    catch (...) { other = true; }
    sym_check(!other, "nothing but a runtime_error escapes");
    sym_check(rt == missing, "an exception exactly when a placeholder names no argument");
    if (!missing && !rt) { sym_check(vx::eq(got, want), "text and arguments in place"); sym_cover("formatted"); }
    else sym_cover("missing argument");
    vx::out(got);
}

static bool isDecimal(const std::string& s, bool neg, uint64_t mag)
{
    size_t i = 0;
    if (neg) { if (s.empty() || s[0] != '-') return false; i = 1; }
    if (i >= s.size()) return false;
    bool ok = true;
    uint64_t v = 0;
    ok = ok & !(s[i] == '0' && s.size() > i + 1);
    for (; i < s.size(); ++i) { uint8_t d = (uint8_t)(s[i] - '0'); ok = ok & (d < 10); v = v * 10 + d; }
    return ok & (v == mag);
}
VX_HARNESS(fmt_int)
{
    unsigned t = vx::pick("type", 4);
    std::string r;
    if (t == 0) { int8_t v = (int8_t)sym_u8("v"); r = String::Format("{}", (int)v).str(); sym_check(isDecimal(r, v < 0, v < 0 ? -(int)v : v), "int"); }
    else if (t == 1) { int16_t v = (int16_t)sym_u16("v"); r = String::Format("{:d}", (long long)v).str(); sym_check(isDecimal(r, v < 0, v < 0 ? -(int)v : v), "long long"); }
    else if (t == 2) { uint16_t v = sym_u16("v"); r = String::Format("{0}", (unsigned)v).str(); sym_check(isDecimal(r, false, v), "unsigned"); }
    else { bool v = vx::flip("b"); r = String::Format("{}", v).str(); sym_check(r == (v ? "true" : "false"), "bool"); }
    sym_cover("formatted");
    vx::out(r);
}
VX_HARNESS(fmt_int32)
{
    int32_t v = (int32_t)sym_u32("v");
    std::string r = String::Format("{}", v).str();
    sym_check(isDecimal(r, v < 0, v < 0 ? 0 - (uint64_t)(int64_t)v : (uint64_t)v), "every 32-bit integer in decimal");
    sym_cover("formatted");
    vx::out(r);
}

// [[fill]align][width] on text
VX_HARNESS(fmt_layout)
{
    vx::Text t = vx::text("c", 0, NMAX, LENS);
    std::string spec = "{:";
    unsigned al = vx::pick("align", 4);               // none < > ^
    std::string fill = " ";
    if (al)
    {
        if (vx::flip("fill"))
        {
            vx::Text fc = vx::text("fillchar", 1, 1, 15);
            sym_assume(fc.cp[0] != '}');
            fill = fc.ch(0);
            spec += fill;
        }
        spec += "<>^"[al - 1];
    }
    unsigned w = vx::pick("width", WMAX + 1);
    bool hasW = w > 0 || vx::flip("zero width");
    if (hasW) { if (w >= 10) spec += (char)('0' + w / 10); spec += (char)('0' + w % 10); }
    unsigned ty = vx::pick("type", 3);
    if (ty == 1) spec += 's'; else if (ty == 2) spec += 'd';
    spec += '}';
    std::string want;
    size_t pad = w > t.n() ? w - t.n() : 0, before = al == 2 ? pad : al == 3 ? pad / 2 : 0;
    for (size_t i = 0; i < before; ++i) want += fill;
    want += t.bytes;
    for (size_t i = before; i < pad; ++i) want += fill;
    std::string got = String::Format(String(spec.c_str()), String(t.bytes.c_str())).str();
    sym_check(vx::eq(got, want), "padded to the width with the fill on the right side(s), never cut");
    sym_cover(pad ? "padded" : "no padding");
    vx::out(got);
}

// .P f on number text
VX_HARNESS(fmt_float)
{
    unsigned ni = 1 + vx::pick("int digits", 2), nf = vx::pick("frac digits", FRAC + 1);
    std::string v;
    if (vx::flip("minus")) v += '-';
    for (unsigned i = 0; i < ni; ++i) { uint8_t b = sym_u8("d"); sym_assume(b >= '0' && b <= '9'); v += (char)b; }
    std::string ip = v, fp;
    bool dot = nf > 0 || vx::flip("dot");
    if (dot) v += '.';
    for (unsigned i = 0; i < nf; ++i) { uint8_t b = sym_u8("d"); sym_assume(b >= '0' && b <= '9'); v += (char)b; fp += (char)b; }
    bool hasP = vx::flip("has precision");
    unsigned p = hasP ? vx::pick("precision", FRAC + 2) : 0;
    unsigned w = vx::pick("width", 3) * 4;
    std::string spec = "{0:";
    bool right = vx::flip("right");
    if (right) spec += '>';
    if (w) spec += (char)('0' + w);
    if (hasP) { spec += '.'; spec += (char)('0' + p); }
    spec += "f}";
    std::string want;
    if (!hasP) want = v;
    else
    {
        want = ip;
        if (p) { want += '.'; for (unsigned i = 0; i < p; ++i) want += i < nf ? fp[i] : '0'; }
    }
    while (want.size() < w) want = right ? ' ' + want : want + ' ';
    std::string got = String::Format(String(spec.c_str()), String(v.c_str())).str();
    sym_check(vx::eq(got, want), "exactly P digits after the point");
    sym_cover(hasP && p > nf ? "zero extended" : hasP && p < nf ? "cut" : "as it was");
    vx::out(got);
}

// arbitrary format texts over the syntax alphabet
VX_HARNESS(fmt_total)
{
    static const char* const sy[] = {"{", "}", ":", "0", "1", "9", ".", "<", "^", "f", "x", "\xD9\xA1"};
    unsigned n = vx::pick("length", FLEN + 1);
    std::string f;
    std::vector<unsigned> k;
    for (unsigned i = 0; i < n; ++i) { unsigned s = vx::pick("sym", 12); k.push_back(s); f += sy[s]; }
    unsigned na = vx::pick("args", 3);
    std::vector<String> a(na, String("ab"));
    bool bad = false;
    for (unsigned i = 0; i < n && !bad; )
    {
        if (k[i] == 0)
        {
            if (i + 1 < n && k[i + 1] == 0) { i += 2; continue; }
            unsigned j = i + 1;
            while (j < n && k[j] != 1) ++j;
            if (j == n) bad = true;
            i = j + 1;
        }
        else if (k[i] == 1)
        {
            if (i + 1 < n && k[i + 1] == 1) i += 2; else bad = true;
        }
        else ++i;
    }
    bool threw = false, std_ = false;
    std::string got;
    try { got = formatN(String(f.c_str()), na, a); }
    catch (const std::exception&) { threw = std_ = true; }
    catch (...) { threw = true; }
    sym_check(threw == std_, "only standard exceptions escape");
    sym_check(!bad || threw, "an unpaired brace is an exception");
    sym_cover(threw ? "thrown" : "formatted");
    vx::out(got);
}
// the format text itself arbitrary bytes
VX_HARNESS(fmt_bytes)
{
    std::string f = vx::bytes("b", 0, BLEN);
    unsigned na = vx::pick("args", 3);
    bool other = false, threw = false;
    std::string got;
    try { std::vector<String> a(na, String("ab")); String s(f.c_str()); got = formatN(s, na, a); }
    catch (const std::exception&) { threw = true; }
    catch (...) { other = true; }
    sym_check(!other, "only standard exceptions escape");
    sym_cover(threw ? "thrown" : "formatted");
    vx::out(got);
}

// ---------------------------------------------------------------- more arguments, longer texts, wider numbers than the exhaustive bounds
static std::string fixedText(unsigned n, unsigned seed) { std::string s; for (unsigned i = 0; i < n; ++i) s += "some plain text, 0123456789: <^>. "[(i + seed) % 34]; return s; }
static unsigned decDigits(std::string& s, uint64_t v) { char b[24]; unsigned n = 0; do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); for (unsigned i = n; i; --i) s += b[i - 1]; return n; }
// twelve arguments, long fixed text, the placeholders chosen
VX_HARNESS(fmt_many)
{
    std::string arg[12];
    std::vector<String> a;
    for (unsigned i = 0; i < 12; ++i)
    {
        if (i % 3 == 0) arg[i] = "";
        else arg[i] = fixedText(i % 3 == 1 ? 1 : 17 + i, i);
        if (i % 2) { uint8_t b = sym_u8("arg"); sym_assume(b >= 1 && b < 0x80); arg[i] += (char)b; arg[i] += "\xC3\xA9"; }
        a.push_back(String(arg[i].c_str()));
    }
    std::string f = fixedText(vx::pick("text", 2) * 40, 0), want = f;
    unsigned autos = vx::pick("autos", 3) * 5, next = 0;
    bool missing = false;
    for (unsigned i = 0; i < autos; ++i) { f += "{}"; want += arg[next++]; if (i == 3) { f += "{{-}}"; want += "{-}"; } }
    for (unsigned k = 0; k < 2; ++k)
    {
        static const unsigned some[] = {1, 11, 12, 15};
#ifdef DEEP
        unsigned idx = vx::pick("index", 16);
#else
        unsigned idx = k ? some[vx::pick("index", 4)] : 8 + vx::pick("index", 8);
#endif
        bool spec = vx::flip("spec"), zero = k && vx::flip("leading zero"), au = idx == 15;
        if (idx == 14) idx = 120;
        if (au) idx = next++;
        f += '{';
        if (!au) { if (zero) f += "00"; decDigits(f, idx); }
        f += spec ? ":*>20}" : "}";
        if (idx >= 12) missing = true;
        else
        {
            size_t n = 0;
            for (char c : arg[idx]) n += ((uint8_t)c & 0xC0) != 0x80;      // all bytes but the arbitrary ones are fixed
            if (spec) for (size_t i = n; i < 20; ++i) want += '*';
            want += arg[idx];
        }
        f += "{{{{ }}}}"; want += "{{ }}";
    }
    std::string got;
    bool rt = false, other = false;
    try { got = String::Format(String(f.c_str()), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]).str(); }
    catch (const std::runtime_error&) { rt = true; }
    catch (...) { other = true; }
    sym_check(!other && rt == missing, "an exception exactly when a placeholder names no argument");
    if (!missing && !rt) { sym_check(vx::eq(got, want), "text and twelve arguments in place"); sym_cover("formatted"); }
    else sym_cover("missing argument");
}
namespace {
struct WithStr { std::string t; std::string str() const { return t; } };
struct WithToString { std::string t; std::string ToString() const { return t; } };
struct WithTo_String { std::string t; std::string to_string() const { return t; } };
}
// every kind of argument, integers around the limits of their types
VX_HARNESS(fmt_kinds)
{
    static const uint64_t at[] = {0, 127, 32767, 65535, 2147483647u, 4294967295u, 9223372036854775807u, 18446744073709551615u, 9999999999u};
    String f = vx::flip("indexed") ? String("[{0}|{0:>3}]") : String("[{}|{:>3}]");
    std::string v, got;
    unsigned kind = vx::pick("kind", 13);
    if (kind < 7)
    {
        uint64_t off = at[vx::pick("around", 9)] - 2 + sym_concretize(sym_below("offset", 5));
        bool neg = false;
        uint64_t m = off;
        #define SIGNED(T) { T x = (T)off; neg = x < 0; m = neg ? 0 - (uint64_t)(int64_t)x : (uint64_t)x; got = String::Format(f, x).str(); break; }
        #define UNSIGNED(T) { T x = (T)off; m = x; got = String::Format(f, x).str(); break; }
        switch (kind)
        {
            case 0: SIGNED(short) case 1: SIGNED(int) case 2: SIGNED(long) case 3: SIGNED(long long)
            case 4: UNSIGNED(unsigned short) case 5: UNSIGNED(unsigned) default: UNSIGNED(unsigned long)
        }
        if (neg) v += '-';
        decDigits(v, m);
    }
    else if (kind == 7) { bool b = vx::flip("bool"); v = b ? "true" : "false"; got = String::Format(f, b).str(); }
    else
    {
        uint8_t b = sym_u8("c"); sym_assume(b >= 1 && b < 0x80);
        v = std::string("x") + (char)b + "\xE4\xB8\x96";
        switch (kind)
        {
            case 8: got = String::Format(f, v.c_str()).str(); break;
            case 9: got = String::Format(f, String(v.c_str())).str(); break;
            case 10: got = String::Format(f, WithStr{v}).str(); break;
            case 11: got = String::Format(f, WithToString{v}).str(); break;
            default: got = String::Format(f, WithTo_String{v}).str(); break;
        }
    }
    std::string w = v;
    size_t n = kind >= 8 ? 3 : v.size();
    while (n < 3) { w = ' ' + w; ++n; }
    sym_check(vx::eq(got, "[" + v + "|" + w + "]"), "arguments appear as their plain text");
    sym_cover("formatted");
}
// wide layouts of long texts
VX_HARNESS(fmt_layout_long)
{
#ifdef DEEP
    static const unsigned sizes[] = {0, 20, 130, 1, 9, 100}, widths[] = {0, 10, 19, 100, 256, 9, 20, 99, 101, 120, 255, 1000}, precs[] = {0, 10, 17, 1, 9, 25, 100};
    const unsigned NS = 6, NW = 12, NP = 7;
#else
    static const unsigned sizes[] = {0, 20, 130}, widths[] = {0, 10, 19, 100, 256}, precs[] = {0, 10, 17};
    const unsigned NS = 3, NW = 5, NP = 3;
#endif
    unsigned form = vx::pick("form", 2), al = vx::pick("align", 4), w = widths[vx::pick("width", NW)];
    std::string spec = "{0:", fill = " ";
    if (al) { if (vx::flip("fill")) { vx::Text fc = vx::text("fillchar", 1, 1, 9); sym_assume(fc.cp[0] != '}'); fill = fc.ch(0); spec += fill; } spec += "<>^"[al - 1]; }
    if (w) decDigits(spec, w);
    std::string v, want;
    size_t n;
    if (form == 0)
    {
        vx::Text t;
        unsigned k = sizes[vx::pick("size", NS)];
        for (unsigned i = 0; i < k; ++i) { if (i % 3 == 1) t.add(0x4E16, 3); else t.add('t', 1); }
        t.add(vx::scalar("c", 2), 2);
        v = want = t.bytes; n = t.n();
        spec += "s}";
    }
    else
    {
        unsigned ni = 1 + 9 * vx::pick("int digits", 2), nf = 11 * vx::pick("frac digits", 3), p = precs[vx::pick("precision", NP)];
        if (vx::flip("minus")) v += '-';
        for (unsigned i = 0; i < ni; ++i) { uint8_t b = sym_u8("d"); sym_assume(b >= '0' && b <= '9'); v += (char)b; }
        want = v;
        if (nf) v += '.';
        if (p) want += '.';
        for (unsigned i = 0; i < nf; ++i) { uint8_t b = sym_u8("d"); sym_assume(b >= '0' && b <= '9'); v += (char)b; if (i < p) want += (char)b; }
        for (unsigned i = nf; i < p; ++i) want += '0';
        n = want.size();
        spec += '.'; decDigits(spec, p); spec += "f}";
    }
    size_t pad = w > n ? w - n : 0, before = al == 2 ? pad : al == 3 ? pad / 2 : 0;
    std::string res;
    for (size_t i = 0; i < before; ++i) res += fill;
    res += want;
    for (size_t i = before; i < pad; ++i) res += fill;
    std::string got = String::Format(String(("a" + spec + "b").c_str()), String(v.c_str())).str();
    sym_check(vx::eq(got, "a" + res + "b"), "wide layouts of long texts");
    sym_cover(pad ? "padded" : "no padding");
}
// a specification of up to K symbols and what may follow it, inside a longer format
#ifndef KMAX
#define KMAX 2
#endif
VX_HARNESS(fmt_total_long)
{
    static const char* const sy[] = {"{", "}", ":", "1", "<", "."};
    static const char* const head[] = {"", "{0:", "{{{", "{99999999999999999999", "{0:99999999999999999999", "{0:.99999999999999999999", "{0:>1", "{0:.1", "{00000000000000000000000000000000", "{:x^", "{0:00000000000000000000003"};
    static const char* const tail[] = {"", "}", "}}", "f}", "}{", ">}"};
    unsigned h = vx::pick("head", 11), n = vx::pick("length", KMAX + 1), t = vx::pick("tail", 6);
    std::string f = vx::flip("long") ? fixedText(40, 1) + head[h] : head[h];
    for (unsigned i = 0; i < n; ++i) f += sy[vx::pick("sym", 6)];
    f += tail[t];
    bool bad = false;
    for (size_t i = 0; i < f.size() && !bad; )
    {
        if (f[i] == '{')
        {
            if (i + 1 < f.size() && f[i + 1] == '{') { i += 2; continue; }
            size_t j = i + 1;
            while (j < f.size() && f[j] != '}') ++j;
            if (j == f.size()) bad = true;
            i = j + 1;
        }
        else if (f[i] == '}') { if (i + 1 < f.size() && f[i + 1] == '}') i += 2; else bad = true; }
        else ++i;
    }
    std::vector<String> a(2, String("ab"));
    bool threw = false, std_ = false;
    try { formatN(String(f.c_str()), vx::flip("args") ? 2 : 0, a); }
    catch (const std::exception&) { threw = std_ = true; }
    catch (...) { threw = true; }
    sym_check(threw == std_, "only standard exceptions escape");
    sym_check(!bad || threw, "an unpaired brace is an exception");
    sym_cover(threw ? "thrown" : "formatted");
}

// ---------------------------------------------------------------- every width, precision and length up to a bound
#ifndef SIZES
#define SIZES 40
#endif
VX_HARNESS(fmt_sizes)
{
    const unsigned w = vx::pick("size", SIZES + 1), what = vx::pick("what", 3);
    if (what == 0)         // text laid out
    {
        const unsigned l = 1 + w % 2, al = vx::pick("align", 4);
        const uint32_t c = vx::scalar("c", l);
        const unsigned lens[] = {0, w / 2, w ? w - 1 : 0, w, w + 1, 2 * w};
        for (unsigned k : lens)
        {
            vx::Text t;
            for (unsigned i = 0; i < k; ++i) { if (i % 3 == 1) t.add(0x4E16, 3); else t.add('t', 1); }
            t.add(c, l);
            std::string f = "[{0:", want = "[";
            if (al) f += std::string(w % 5 ? "." : "") + "<>^"[al - 1];
            if (w) decDigits(f, w);
            f += "}]{0}";
            const std::string fill = al && w % 5 ? "." : " ";
            const size_t n = t.n(), pad = w > n ? w - n : 0, before = al == 2 ? pad : al == 3 ? pad / 2 : 0;
            for (size_t i = 0; i < before; ++i) want += fill;
            want += t.bytes;
            for (size_t i = before; i < pad; ++i) want += fill;
            want += "]" + t.bytes;
            sym_check(vx::eq(String::Format(String(f), String(t.bytes)).str(), want), "a width of any size");
        }
        sym_cover("padded");
    }
    else if (what == 1)    // digits after the point
    {
        const unsigned fr[] = {0, 1, w / 2, w ? w - 1 : 0, w, w + 1, w + 5};
        const char d = (char)('0' + sym_below("digit", 10));
        for (unsigned k : fr)
        {
            std::string v = w % 2 ? "-12" : "7", want = v, f = "{:.";
            if (k) v += '.';
            if (w) want += '.';
            for (unsigned i = 0; i < k || i < w; ++i) { const char c = i + 1 == k ? d : (char)('0' + (i * 7 + 3) % 10); if (i < k) v += c; if (i < w) want += i < k ? c : '0'; }
            decDigits(f, w);
            f += "f}";
            sym_check(vx::eq(String::Format(String(f), String(v)).str(), want), "a precision of any size");
        }
        sym_cover("cut or extended");
    }
    else                   // text around placeholders
    {
        const std::string x(w, 'x'), a(1, (char)(0x20 + sym_below("argument", 0x5B)));
        std::string f, want;
        for (unsigned i = 0; i < w; ++i) { f += i % 4 == 0 ? "{}" : i % 4 == 1 ? "{1}" : i % 4 == 2 ? "{{" : "-"; if (i % 4 == 0 && i > 4) { f.resize(f.size() - 2); f += "{0}"; } want += i % 4 == 0 ? (i == 4 ? "Q" : a) : i % 4 == 1 ? "Q" : i % 4 == 2 ? "{" : "-"; }
        sym_check(vx::eq(String::Format(String(x + f + x), String(a), "Q").str(), x + want + x), "placeholders at any position");
        std::string long_arg = x + a + x;
        sym_check(vx::eq(String::Format(String("{}" + x + "{}"), String(long_arg), String(long_arg)).str(), long_arg + x + long_arg), "arguments of any size");
        sym_cover("formatted");
    }
}
