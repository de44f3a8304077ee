#include "vxlib.h"
#include "Caitlyn/__Core/String/String.h"
#include "Caitlyn/__Core/String/Utility.h"
#include "Caitlyn/__Core/String/StringBuilder.h"
#include "Caitlyn/__Core/String/Algorithms/Kmp.h"
#include "unicode_tables.h"
using namespace Caitlyn;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef PMAX
#define PMAX 3
#endif
#ifndef LENS
#define LENS 7
#endif
#ifndef OPS
#define OPS 3
#endif

VX_HARNESS(txt_split)
{
    unsigned n = vx::pick("length", NMAX + 1);
    std::string s;
    for (unsigned i = 0; i < n; ++i) s += (char)sym_u8("b");
    char d = (char)sym_u8("delim");
    std::vector<std::string> f = Split(s, d);
    // the definition: fields between delimiters; one trailing delimiter opens no further field
    size_t k = 0, i = 0;
    bool okay = true;
    while (i < n)
    {
        std::string cur;
        while (i < n && s[i] != d) cur += s[i++];
        ++i;
        okay = okay && k < f.size() && vx::eq(f[k], cur);
        ++k;
    }
    sym_check(okay && k == f.size(), "the fields between the delimiters in order");
    std::string j;
    for (size_t q = 0; q < f.size(); ++q) { if (q) j += d; j += f[q]; }
    sym_check(vx::eq(j, s) || (j.size() + 1 == s.size() && vx::eq(j + d, s)), "joining gives the text back");
    sym_cover(f.size() > 1 ? "several fields" : "one field at most");
    for (auto& x : f) vx::out(x);
}
VX_HARNESS(txt_repeat)
{
    unsigned n = vx::pick("length", NMAX + 1);
    std::string s, want;
    for (unsigned i = 0; i < n; ++i) s += (char)sym_u8("b");
    unsigned c = vx::pick("count", 6);
    for (unsigned i = 0; i < c; ++i) want += s;
    std::string r = Repeat(s, c);
    sym_check(vx::eq(r, want), "exactly count copies");
    sym_cover("repeated");
    vx::out(r);
}
VX_HARNESS(txt_spaces)
{
    vx::Text t = vx::text("c", 0, NMAX, LENS);
    String s(t.bytes.c_str());
    size_t first = t.n(), last = t.n();
    bool num = t.n() > 0;
    for (size_t i = 0; i < t.n(); ++i)
    {
        bool sp = u_space(t.cp[i]);
        if (!sp) { if (first == t.n()) first = i; last = i; }
        num = num && u_digit_bmp(t.cp[i]);
    }
    sym_check(FindFirstNonSpace(s) == first, "smallest index of a non-space character, or the size");
    sym_check(FindLastNonSpace(s) == last, "largest index of a non-space character, or the size");
    sym_cover(first == t.n() ? "no non-space" : first == last ? "one" : "several");
    sym_out(first); sym_out(last);
}
VX_HARNESS(txt_number)
{
    vx::Text t = vx::text("c", 0, NMAX, LENS);
    String s(t.bytes.c_str());
    bool num = t.n() > 0;
    for (size_t i = 0; i < t.n(); ++i) num = num & u_digit_bmp(t.cp[i]);
    bool r = IsNumber(s);
    sym_check(r == num, "a number exactly for non-empty all-digit text");
    sym_cover(r ? "number" : "no number");
    sym_out(r);
}

static int hexv(uint32_t c) { return c >= '0' && c <= '9' ? (int)(c - '0') : c >= 'a' && c <= 'f' ? (int)(c - 'a' + 10) : c >= 'A' && c <= 'F' ? (int)(c - 'A' + 10) : -1; }
static std::string unescape(const vx::Text& t)
{
    std::string r;
    for (size_t i = 0; i < t.n(); )
    {
        if (t.cp[i] == '\\' && i + 1 < t.n())
        {
            int to = -1;
            switch (t.cp[i + 1])
            {
                case '"': to = '"'; break; case '?': to = '?'; break; case '\\': to = '\\'; break; case '/': to = '/'; break;
                case 'a': to = 7; break; case 'b': to = 8; break; case 'f': to = 12; break; case 'n': to = 10; break;
                case 'r': to = 13; break; case 't': to = 9; break; case 'v': to = 11; break;
            }
            if (to >= 0) { r += (char)to; i += 2; continue; }
            if (t.cp[i + 1] == 'u' && i + 5 < t.n())
            {
                int v = 0;
                bool hex = true;
                for (size_t k = i + 2; k < i + 6 && hex; ++k) { int h = hexv(t.cp[k]); hex = h >= 0; v = v * 16 + h; }
                if (hex)
                {
                    sym_assume(v != 0 && (v < 0xD800 || v > 0xDFFF));
                    vx::put8(r, (uint32_t)v, v < 0x80 ? 1 : v < 0x800 ? 2 : 3);
                    i += 6; continue;
                }
            }
            r += t.ch(i); r += t.ch(i + 1); i += 2; continue;
        }
        r += t.ch(i++);
    }
    return r;
}
VX_HARNESS(esc_text)
{
    vx::Text t = vx::text("c", 0, NMAX, LENS);
    String r = EscapeString(String(t.bytes.c_str()));
    std::string want = unescape(t);
    sym_check(vx::eq(r.str(), want), "each escape replaced by what it denotes, everything else kept");
    sym_cover(want.size() < t.bytes.size() ? "replaced" : "unchanged");
    vx::out(r.str());
}
VX_HARNESS(esc_unicode)
{
    // [x] \uXXXX [y] with arbitrary characters where the digits stand
    vx::Text t;
    bool pre = vx::flip("before");
    if (pre) t.add('x', 1);
    t.add('\\', 1); t.add('u', 1);
    unsigned n = vx::pick("digits", 5);
    for (unsigned i = 0; i < n; ++i)
    {
        uint32_t c = sym_u8("digit");
        sym_assume(c >= 1 && c < 0x80 && c != '\\');
        t.add(c, 1);
    }
    if (n == 4 && vx::flip("after")) t.add('y', 1);
    String r = EscapeString(String(t.bytes.c_str()));
    std::string want = unescape(t);
    sym_check(vx::eq(r.str(), want), "the character with that code, or the text as it is");
    sym_cover(want.size() < t.bytes.size() ? "replaced" : "unchanged");
    vx::out(r.str());
}

VX_HARNESS(sb_history)
{
    // two builders and what they should hold
    StringBuilder* b[2];
    std::string m[2];
    bool live[2] = {true, true};
    unsigned init = vx::pick("init", 4);
    std::string t0 = vx::bytes("init text", 0, 2);
    for (auto& ch : t0) sym_assume((uint8_t)ch < 0x80);
    if (init == 0) b[0] = new StringBuilder();
    else if (init == 1) { b[0] = new StringBuilder(t0.c_str()); m[0] = t0; }
    else if (init == 2) { b[0] = new StringBuilder(String(t0.c_str())); m[0] = t0; }
    else { b[0] = new StringBuilder(String("<{}>"), String(t0.c_str())); m[0] = "<" + t0 + ">"; }
    b[1] = new StringBuilder();
    unsigned ops = vx::pick("ops", OPS + 1);
    for (unsigned o = 0; o < ops; ++o)
    {
        unsigned k = vx::pick("target", 2);
        unsigned op = vx::pick("op", 7);
        if (op < 5 && !live[k]) continue;
        std::string t;
        if (op < 4) { t = vx::bytes("piece", 0, 2); for (auto& ch : t) sym_assume((uint8_t)ch < 0x80); }
        switch (op)
        {
            case 0: b[k]->Append(String(t.c_str())); m[k] += t; break;
            case 1: b[k]->AppendLine(String(t.c_str())); m[k] += t + "\n"; break;
            case 2: b[k]->Append(String("[{}]"), String(t.c_str())); m[k] += "[" + t + "]"; break;
            case 3: b[k]->AppendLine(String("{0}{0}"), String(t.c_str())); m[k] += t + t + "\n"; break;
            case 4: { delete b[1 - k]; b[1 - k] = new StringBuilder(*b[k]); m[1 - k] = m[k]; live[1 - k] = true; break; }      // copy
            case 5: { if (!live[k]) break; delete b[1 - k]; b[1 - k] = new StringBuilder(std::move(*b[k])); m[1 - k] = m[k]; live[1 - k] = true; live[k] = false; break; }
            default: { delete b[k]; b[k] = new StringBuilder(MakeText(String("q"))); m[k] = "q"; live[k] = true; break; }
        }
        for (unsigned i = 0; i < 2; ++i)
            if (live[i]) sym_check(vx::eq(b[i]->str().str(), m[i]), "the text is exactly what was appended");
    }
    sym_cover("built");
    for (unsigned i = 0; i < 2; ++i) { if (live[i]) vx::out(b[i]->str().str()); delete b[i]; }
    sym_check(sym_live() == 0, "nothing is leaked");
}

VX_HARNESS(kmp_search)
{
    unsigned np = vx::pick("pattern length", PMAX + 1), nt = vx::pick("text length", NMAX + 1);
    std::string p, t;
    for (unsigned i = 0; i < np; ++i) p += (char)sym_u8("p");
    for (unsigned i = 0; i < nt; ++i) t += (char)sym_u8("t");
    bool want = false;
    for (unsigned i = 0; i + np <= nt; ++i)
    {
        bool m = true;
        for (unsigned j = 0; j < np; ++j) m = m & (t[i + j] == p[j]);
        want = want | m;
    }
    bool r = kmp(p, t);
    sym_check(r == want, "found exactly when the pattern occurs");
    sym_cover(r ? "found" : "not found");
    sym_out(r);
}

// ---------------------------------------------------------------- long fixed parts around a few arbitrary characters
static std::string filler(unsigned n, unsigned seed) { std::string s; for (unsigned i = 0; i < n; ++i) s += "abcab, dab;cabc "[(i + seed) % 16]; return s; }
VX_HARNESS(txt_split_long)
{
    static const unsigned sz[] = {0, 1, 15, 16, 100, 300};
    char d = (char)sym_u8("delim");
    bool many = vx::flip("many");
    std::string s;
    std::vector<std::string> f;
    if (many)                          // k fields of one character
    {
        unsigned k = 1 + sz[vx::pick("fields", 6)];
        uint8_t c = sym_u8("c"); sym_assume((char)c != d);
        bool empty = vx::flip("empty fields");
        for (unsigned i = 0; i < k; ++i) { std::string one; if (!empty || i % 2) one += (char)c; if (i) s += d; s += one; f.push_back(one); }
        if (f.back().empty()) f.pop_back();
        else if (vx::flip("trailing")) s += d;
    }
    else
    {
        std::string a(sz[vx::pick("a", 6)], 'a'), b(sz[vx::pick("b", 6)], 'b'), c(sz[vx::pick("c", 3)], 'c');
        sym_assume(d != 'a' && d != 'b' && d != 'c');
        s = a + d + b + d + c;
        f.push_back(a); f.push_back(b); if (!c.empty()) f.push_back(c);
    }
    std::vector<std::string> r = Split(s, d);
    bool okay = r.size() == f.size();
    for (size_t i = 0; okay && i < f.size(); ++i) okay = okay & vx::eq(r[i], f[i]);
    sym_check(okay, "the fields of a long text");
    sym_cover(f.size() > 1 ? "several fields" : "one field at most");
}
VX_HARNESS(txt_repeat_long)
{
    static const unsigned cnt[] = {0, 1, 9, 16, 100, 257};
    std::string s = filler(vx::pick("length", 3) * 20, 0);
    s += (char)sym_u8("b"); s += 'x';
    unsigned c = cnt[vx::pick("count", 6)];
    std::string want;
    for (unsigned i = 0; i < c; ++i) want += s;
    sym_check(vx::eq(Repeat(s, c), want), "exactly count copies of a long text");
    sym_check(Repeat(std::string(), c).empty(), "copies of nothing");
    sym_cover("repeated");
}
// spaces, then one arbitrary character, then text, one arbitrary character, spaces
VX_HARNESS(txt_spaces_long)
{
    static const unsigned sz[] = {0, 70, 1, 16};
#ifdef DEEP
    const unsigned NS = 4;
#else
    const unsigned NS = 2;
#endif
    unsigned what = vx::pick("what", 3);
    static const uint32_t sp[] = {' ', 0xA0, 0x2003, 0x3000};
    vx::Text t;
    unsigned a = sz[vx::pick("before", NS)], b = sz[vx::pick("between", NS)], c = sz[vx::pick("after", NS)];
    auto space = [&](unsigned i) { uint32_t x = sp[i % 4]; t.add(x, x < 0x80 ? 1 : x < 0x800 ? 2 : 3); };
    unsigned l = 1 + vx::pick("bytes", 3), m = l;
    bool inner = vx::flip("inner spaces");
    for (unsigned i = 0; i < a; ++i) space(i);
    t.add(vx::scalar("x", l), l);
    for (unsigned i = 0; i < b; ++i) { if (inner) space(i); else t.add('0' + i % 10, 1); }
    t.add(vx::scalar("y", m), m);
    for (unsigned i = 0; i < c; ++i) space(i);
    String s(t.bytes.c_str());
    bool sx = u_space(t.cp[a]), sy = u_space(t.cp[a + b + 1]), text = b && !inner;
    size_t nx = a, ny = a + b + 1;
    if (what == 0) sym_check(FindFirstNonSpace(s) == (!sx ? nx : text ? nx + 1 : !sy ? ny : t.n()), "first non-space of a long text");
    else if (what == 1) sym_check(FindLastNonSpace(s) == (!sy ? ny : text ? ny - 1 : !sx ? nx : t.n()), "last non-space of a long text");
    else sym_check(IsNumber(s) == (a == 0 && c == 0 && (b == 0 || !inner) && (u_digit_bmp(t.cp[a]) & u_digit_bmp(t.cp[a + b + 1]))), "a long text is a number exactly when all are digits");
    sym_cover("searched");
}
// escapes of every kind among long text, one of them arbitrary
VX_HARNESS(esc_long)
{
    static const char* const known[] = {"\\n", "\\\\", "\\u0041", "\\u4E16", "\\x", "\\", "\\u00e9", "\\u12", "\\\"", "\xC3\xA9"};
    auto append = [](vx::Text& t, const char* s) { for (; *s; ++s) if ((uint8_t)*s == 0xC3) { t.add(0xE9, 2); ++s; } else t.add((uint8_t)*s, 1); };
    vx::Text t;
#ifdef DEEP
    const unsigned NK = 10;
#else
    const unsigned NK = 6;
#endif
    unsigned pre = vx::pick("before", 2) * 40;
    for (unsigned i = 0; i < pre; ++i) t.add("plain text "[i % 11], 1);
    append(t, known[vx::pick("first", NK)]);
    uint32_t c = sym_u8("c"); sym_assume(c >= 1 && c < 0x80);
    bool back = vx::flip("backslash before");
    if (back) t.add('\\', 1);
    t.add(c, 1);
    append(t, known[vx::pick("second", NK)]);
    if (vx::flip("again")) { append(t, known[vx::pick("third", 4)]); for (unsigned i = 0; i < 40; ++i) t.add("ab"[i % 2], 1); append(t, "\\t\\/"); }
    sym_assume(c != 'u' || !back);
    String r = EscapeString(String(t.bytes.c_str()));
    std::string want = unescape(t);
    sym_check(vx::eq(r.str(), want), "escapes in a long text");
    sym_cover(want.size() < t.bytes.size() ? "replaced" : "unchanged");
}
// many appends of several kinds of argument
VX_HARNESS(sb_long)
{
    static const unsigned cnt[] = {1, 17, 60};
    StringBuilder b(String("start {} {}|"), 12, String("\xC3\xA9"));
    std::string m = "start 12 \xC3\xA9|", t = vx::bytes("piece", 1, 2);
    for (auto& ch : t) sym_assume((uint8_t)ch < 0x80);
    unsigned n = cnt[vx::pick("appends", 3)], kind = vx::pick("kind", 5);
    bool brace = t.find('{') != std::string::npos || t.find('}') != std::string::npos;
    for (unsigned i = 0; i < n; ++i)
    {
        switch (kind)
        {
            case 0: b.Append(String(t.c_str())); m += t; break;
            case 1: b.AppendLine(String(t.c_str())); m += t + "\n"; break;
            case 2: b.Append(String("{1}-{0}"), String(t.c_str()), 7 + (int)i); m += std::to_string(7 + i) + "-" + t; break;
            case 3: b.AppendLine(String("{:>4}."), String(t.c_str())); m += std::string(4 - t.size(), ' ') + t + ".\n"; break;
            default: if (i % 2) { b.Append(b.str()); m += m; if (m.size() > 300) n = i; } else { b.Append(String(t.c_str())); m += t; } break;
        }
        if (i == n / 2) { StringBuilder c(b); c.Append(String("gone")); StringBuilder d(std::move(c)); d.AppendLine(String(t.c_str())); sym_check(vx::eq(d.str().str(), m + "gone" + t + "\n"), "a moved copy goes on from its text"); }
    }
    sym_check(vx::eq(b.str().str(), m), "the text is exactly what was appended");
    unsigned mk = vx::pick("make", 4);
    StringBuilder e = mk == 0 ? MakeText() : mk == 1 ? MakeText('c') : mk == 2 ? MakeText(String(t.c_str())) : MakeText(String("<{}{}>"), String(t.c_str()), 5);
    e.Append(String("z"));
    sym_check(vx::eq(e.str().str(), (mk == 0 ? std::string() : mk == 1 ? std::string("c") : mk == 2 ? t : "<" + t + "5>") + "z"), "a made text goes on from what it was made of");
    (void)brace;
    sym_cover("built");
}
// long repetitive patterns with arbitrary bytes among them
VX_HARNESS(kmp_long)
{
    unsigned a = vx::pick("a", 4), b = vx::pick("b", 4), c = 2 + vx::pick("c", 5), e = vx::pick("e", 5), per = vx::flip("long tail") ? 40 : 0;
    std::string p, t;
    char x = (char)sym_u8("x"), y = (char)sym_u8("y");
    p.append(a + per, 'a'); p += x; p.append(b, 'a');
    t.append(c + per, 'a'); t += y; t.append(e, 'a'); if (vx::flip("twice")) { t += x; t.append(e, 'a'); }
    bool want = false;
    for (size_t i = 0; i + p.size() <= t.size(); ++i)
    {
        bool m = true;
        for (size_t j = 0; j < p.size(); ++j) m = m & (t[i + j] == p[j]);
        want = want | m;
    }
    sym_check(kmp(p, t) == want, "found exactly when the long pattern occurs");
    sym_cover("searched");
}
// periodic patterns with several borders
VX_HARNESS(kmp_borders)
{
    static const char* const pats[] = {"abaab", "aabaaab", "abcabcabd", "ababaca", "abacabab", "aaaab", "abracadabra"};
    std::string p = pats[vx::pick("pattern", 7)], t;
    unsigned n = vx::pick("head", 3), cut = vx::pick("cut", 8);
    t.append(n, 'a');
    t += p.substr(0, cut < p.size() ? cut : p.size());
    t += (char)sym_u8("x");
    unsigned from = vx::pick("from", 8);
    t += p.substr(from < p.size() ? from : 0);
    t += (char)sym_u8("y");
    if (vx::flip("tail")) t += p.substr(1);
    bool want = false;
    for (size_t i = 0; i + p.size() <= t.size(); ++i)
    {
        bool m = true;
        for (size_t j = 0; j < p.size(); ++j) m = m & (t[i + j] == p[j]);
        want = want | m;
    }
    sym_check(kmp(p, t) == want, "patterns with several borders");
    sym_cover("searched");
}

// ---------------------------------------------------------------- every size up to a bound
#ifndef SIZES
#define SIZES 130
#endif
VX_HARNESS(txt_sizes)
{
    const unsigned n = vx::pick("size", SIZES + 1);
    const std::string a(n, 'a');
    switch (vx::pick("what", 5))
    {
        case 0: { std::string s(1, (char)sym_u8("b")), w; for (unsigned i = 0; i < n; ++i) w += s; sym_check(vx::eq(Repeat(s, n), w), "copies"); s = a + s; sym_check(vx::eq(Repeat(s, 2), s + s), "two copies"); break; }
        case 1:
        {
            const char d = (char)sym_u8("delim"); sym_assume(d != 'a' && d != 'z');
            const std::vector<std::string> r = Split(a + d + a + d + "z", d);
            sym_check(r.size() == 3 && r[0] == a && r[1] == a && r[2] == "z", "fields of a size");
            break;
        }
        case 2:
        {
            const char d = (char)sym_u8("delim"); sym_assume(d != 'a');
            std::string s;
            for (unsigned i = 0; i < n; ++i) { s += 'a'; s += d; }
            const std::vector<std::string> r = Split(s, d);
            bool ok = r.size() == n;
            for (auto& f : r) ok = ok && f == "a";
            sym_check(ok, "a number of fields");
            break;
        }
        case 3:
        {
            const uint32_t c = sym_u8("c"); sym_assume(c > 0x20 && c < 0x7F);
            const String s(std::string(n, ' ') + (char)c + a + std::string(n, '\t'));
            sym_check(FindFirstNonSpace(s) == n && FindLastNonSpace(s) == 2 * n, "non-space positions");
            sym_check(IsNumber(String(std::string(n, '7') + (char)c)) == sym_decide((uint8_t)(c - '0') < 10), "a number of any size");
            break;
        }
        default:
        {
            const uint32_t c = sym_u8("c"); sym_assume(c > 0x20 && c < 0x7F);
            vx::Text t;
            for (unsigned i = 0; i < n; ++i) t.add('a', 1);
            t.add('\\', 1); t.add(c, 1); t.add('b', 1);
            sym_assume(c != 'u');
            sym_check(vx::eq(EscapeString(String(t.bytes)).str(), unescape(t)), "an escape at any position");
            break;
        }
    }
    sym_cover("done");
}
VX_HARNESS(sb_sizes)
{
    const unsigned n = vx::pick("size", SIZES + 1);
    StringBuilder b;
    std::string m;
    const std::string c(1, (char)(0x20 + sym_below("c", 0x5b)));
    for (unsigned i = 0; i < n; ++i) { if (i % 3 == 2) { b.AppendLine(String(c)); m += c + "\n"; } else { b.Append(String(c)); m += c; } }
    sym_check(vx::eq(b.str().str(), m), "any number of appends");
    StringBuilder d(b), e(b);
    d.Append(String(std::string(n, 'q')));
    e.AppendLine(String("{}{}"), String(std::string(n, 'x')), (int)n);
    sym_check(vx::eq(d.str().str(), m + std::string(n, 'q')) && vx::eq(e.str().str(), m + std::string(n, 'x') + std::to_string(n) + "\n") && vx::eq(b.str().str(), m), "an append of any size to a copy");
    sym_cover("built");
}
VX_HARNESS(kmp_sizes)
{
    const unsigned n = vx::pick("size", SIZES / 2 + 1), k = vx::pick("kind", 4);
    const char x = (char)sym_u8("x");
    std::string p, t;
    auto per = [&](unsigned c) { std::string s; for (unsigned i = 0; i < c; ++i) s += k == 1 ? "ab"[i % 2] : k == 2 ? "aab"[i % 3] : k == 3 ? (char)('a' + i % 7) : 'a'; return s; };
    p = per(n) + x;
    t = per(n / 2 + 3) + per(n + 2) + "b" + per(n);
    bool want = false;
    for (size_t i = 0; i + p.size() <= t.size(); ++i)
    {
        bool m = true;
        for (size_t j = 0; j < p.size() && m; ++j) m = j < n ? t[i + j] == p[j] : sym_decide(t[i + j] == p[j]);
        want = want | m;
    }
    sym_check(kmp(p, t) == want, "patterns of any size");
    sym_check(kmp(t, t) && kmp(t, "z" + t) && !kmp("z" + t, t), "a text contains itself");
    sym_cover("searched");
}
