#include "vxlib.h"
#include "Caitlyn/__Core/String.h"
#include <cstring>
using namespace Caitlyn;
#ifndef NMAX
#define NMAX 4
#endif
#ifndef MMAX
#define MMAX 2
#endif
#ifndef LENS
#define LENS 1
#endif
#ifndef OPS
#define OPS 2
#endif

// ---------------------------------------------------------------- C03
// splits text into structural characters; false when it is not a sequence of complete characters
static bool split(const std::string& b, std::vector<std::string>& out)
{
    size_t i = 0;
    while (i < b.size())
    {
        uint8_t l = (uint8_t)b[i];
        size_t n = l < 0x80 ? 1 : (l >= 0xC0 && l < 0xE0) ? 2 : (l >= 0xE0 && l < 0xF0) ? 3 : (l >= 0xF0 && l < 0xF8) ? 4 : 0;
        if (n == 0 || i + n > b.size()) return false;
        for (size_t k = 1; k < n; ++k) if (((uint8_t)b[i + k] & 0xC0) != 0x80) return false;
        out.push_back(b.substr(i, n));
        i += n;
    }
    return true;
}
VX_HARNESS(str_text)
{
    unsigned how = vx::pick("how", 6);
    std::string b = vx::bytes("byte", 0, NMAX);
    char* z = new char[b.size() + 1];                 // exactly sized: reading on is an error
    for (size_t i = 0; i < b.size(); ++i) z[i] = b[i];
    z[b.size()] = 0;
    std::vector<std::string> want;
    bool good = split(b, want);
    String s;
    bool threw = false;
    size_t off = 0;
    try
    {
        switch (how)
        {
            case 0: { String t(z); s = t; break; }
            case 1: { String t(b); s = t; break; }
            case 2: s = z; break;
            case 3: s = "ab"; s.Append(z); off = 2; break;
            case 4: s = "ab"; s.Insert(2, z); off = 2; break;
            default: { s = "ab"; s += z; off = 2; break; }
        }
    }
    catch (const std::exception&) { threw = true; }
    delete[] z;
    sym_check(threw == !good, "text is rejected exactly when it is not a sequence of complete characters");
    if (threw) { sym_cover("rejected"); return; }
    sym_cover("accepted");
    sym_check(s.size() == want.size() + off && s.Length() == s.size(), "length is the number of characters");
    sym_check(s.ByteCount() == b.size() + off, "byte count is the number of bytes");
    sym_check(vx::eq(s.str(), std::string("ab", off) + b), "str() gives the text back");
    sym_check(s.IsEmpty() == (s.size() == 0) && s.NotEmpty() == (s.size() != 0), "emptiness");
    if (s.size() != want.size() + off) return;
    size_t i = 0;
    for (const auto& c : s) { if (i >= off) sym_check(vx::eq(c.str(), want[i - off]), "iteration gives the characters in order"); ++i; }
    sym_check(i == s.size(), "iteration covers the string");
    for (size_t k = 0; k < want.size(); ++k)
    {
        sym_check(vx::eq(s[k + off].str(), want[k]), "indexing gives the characters in order");
        sym_check(vx::eq(s.At(k + off).str(), want[k]), "checked indexing gives the characters in order");
    }
    const size_t outside[3] = {s.size(), s.size() + 1, static_cast<size_t>(-1)};
    for (size_t p : outside)
    {
        const String& cs = s;
        bool oor[2] = {false, false};
        try { s.At(p); } catch (const std::out_of_range&) { oor[0] = true; }
        try { cs.At(p); } catch (const std::out_of_range&) { oor[1] = true; }
        sym_check(oor[0] && oor[1], "checked indexing outside the string throws");
    }
    i = s.size();
    for (auto it = s.rbegin(); it != s.rend(); ++it) { --i; if (i >= off) sym_check(vx::eq(it->str(), want[i - off]), "reverse iteration gives the characters in reverse order"); }
    std::ostringstream os;
    os << s;
    sym_check(vx::eq(os.str(), std::string("ab", off) + b), "output writes the text");
    vx::out(s.str());
}

// ---------------------------------------------------------------- C04
static const size_t NP = static_cast<size_t>(-1);
// first i >= pos (i <= last) with needle at i, else NP; one symbolic value
static size_t refFind(const vx::Text& h, const vx::Text& n, size_t pos)
{
    size_t r = NP;
    if (n.n() > h.n()) return r;
    for (size_t k = h.n() - n.n() + 1; k-- > 0;)
    {
        bool m = k >= pos;
        for (size_t j = 0; j < n.n(); ++j) m = m & (h.cp[k + j] == n.cp[j]);
        r = m ? k : r;
    }
    return r;
}
static size_t refRFind(const vx::Text& h, const vx::Text& n, size_t pos)
{
    size_t r = NP;
    if (n.n() > h.n()) return r;
    for (size_t k = 0; k + n.n() <= h.n(); ++k)
    {
        bool m = pos == NP || k + n.n() - 1 <= pos;
        for (size_t j = 0; j < n.n(); ++j) m = m & (h.cp[k + j] == n.cp[j]);
        r = m ? k : r;
    }
    return r;
}
static size_t position(size_t n)      // 0 .. n + 2, or NPosition
{
    unsigned p = vx::pick("pos", (unsigned)n + 4);
    return p == n + 3 ? NP : p;
}
VX_HARNESS(str_find)
{
    vx::Text h = vx::text("h", 0, NMAX, LENS), n = vx::text("n", 0, MMAX, LENS);
    String s(h.bytes), t(n.bytes);
    size_t pos = position(h.n());
    size_t want = refFind(h, n, pos);
    size_t got = s.Find(t, pos);
    sym_check(got == want, "Find gives the first occurrence at or after the position");
    if (pos == 0) sym_check(s.Find(t) == want, "the default position is the start");
    sym_cover("searched");
    if (n.n() == 0) sym_cover("empty needle");
    if (pos > h.n()) sym_cover("position past the end");
    sym_out(got);
}
VX_HARNESS(str_rfind)
{
    vx::Text h = vx::text("h", 0, NMAX, LENS), n = vx::text("n", 1, MMAX, LENS);
    String s(h.bytes), t(n.bytes);
    size_t pos = position(h.n());
    size_t want = refRFind(h, n, pos);
    size_t got = s.ReverseFind(t, pos);
    sym_check(got == want, "ReverseFind gives the start of the last occurrence that ends at or before the position");
    if (pos == NP) sym_check(s.ReverseFind(t) == want, "the default position is the end");
    sym_cover("searched");
    sym_out(got);
}
VX_HARNESS(str_contains)
{
    vx::Text h = vx::text("h", 0, NMAX, LENS), n = vx::text("n", 0, MMAX, LENS);
    String s(h.bytes), t(n.bytes);
    unsigned what = vx::pick("what", 3);
    if (what == 0) sym_check(s.Contains(t) == (refFind(h, n, 0) != NP), "Contains tells whether the needle occurs");
    else
    {
        bool m = n.n() <= h.n();
        if (m) for (size_t j = 0; j < n.n(); ++j) m = m & (h.cp[what == 1 ? j : h.n() - n.n() + j] == n.cp[j]);
        if (what == 1) sym_check(s.StartsWith(t) == m, "StartsWith tells whether the text starts with the needle");
        else sym_check(s.EndsWith(t) == m, "EndsWith tells whether the text ends with the needle");
    }
    sym_cover("searched");
}
VX_HARNESS(str_findif)
{
    vx::Text h = vx::text("h", 0, NMAX, LENS);
    String s(h.bytes);
    uint32_t lim = sym_u32("limit");
    size_t pos = position(h.n());
    bool neg = vx::flip("not");
    size_t want = NP;
    for (size_t k = h.n(); k-- > 0;) { bool m = (k >= pos) & ((h.cp[k] < lim) != neg); want = m ? k : want; }
    auto p = [&](const Char& c) { return c.GetCodePoint() < lim; };
    size_t got = neg ? s.FindIfNot(p, pos) : s.FindIf(p, pos);
    sym_check(got == want, "FindIf/FindIfNot give the first (non-)matching character from the position");
    sym_cover("searched");
    sym_out(got);
}

// ---------------------------------------------------------------- C05
struct Model { std::vector<uint32_t> cp; std::vector<unsigned> len;
    void ins(size_t p, const Model& o) { Model c(o); cp.insert(cp.begin() + p, c.cp.begin(), c.cp.end()); len.insert(len.begin() + p, c.len.begin(), c.len.end()); }
    void push(uint32_t c, unsigned l) { cp.push_back(c); len.push_back(l); } };
static void same(const String& s, const Model& m, const char* what)
{
    sym_check(s.size() == m.cp.size(), what);
    if (s.size() != m.cp.size()) return;
    std::string b;
    for (size_t i = 0; i < m.cp.size(); ++i) vx::put8(b, m.cp[i], m.len[i]);
    sym_check(vx::eq(s.str(), b), what);
}
static void fresh(String& s, Model& m, unsigned maxN)
{
    vx::Text t = vx::text("init", 0, maxN, LENS);
    s = String(t.bytes);
    m.cp = t.cp; m.len = t.len;
}
VX_HARNESS(str_edit)
{
    String s[2]; Model m[2];
    fresh(s[0], m[0], 2); fresh(s[1], m[1], 1);
    bool gone[2] = {false, false};
    for (int k = 0; k < OPS; ++k)
    {
        unsigned op = vx::pick("op", 16), a = vx::pick("a", 2), b = 1;
        if (op <= 5 || op == 13) b = vx::pick("b", 2);
        if (gone[a] || gone[b]) sym_end();
        bool threw = false;
        size_t pos = 0, n = m[a].cp.size();
        Model one; uint32_t c = 0; unsigned cl = 1;
        if (op >= 4 && op <= 8) pos = vx::pick("pos", (unsigned)n + 2);
        if (op == 6 || op == 7 || op == 9 || op == 10 || op == 11) { cl = LENS & 2 ? 1 + vx::pick("cl", 2) : 1; c = vx::scalar("c", cl); one.push(c, cl); }
        std::string cb; if (c || one.cp.size()) vx::put8(cb, c, cl);
        try
        {
            switch (op)
            {
                case 0: s[a] += s[b]; { Model t(m[b]); m[a].ins(n, t); } break;
                case 1: { String r = s[a] + s[b]; Model t(m[a]); t.ins(n, m[b]); same(r, t, "a + b is the concatenation"); break; }
                case 2: s[a] = s[b]; m[a] = m[b]; break;
                case 3: { String r(s[b]); s[a] = r; m[a] = m[b]; break; }
                case 4: s[a].Insert(pos, s[b]); m[a].ins(pos, m[b]); break;
                case 5: { String r = s[a].Substring(pos); Model t; for (size_t i = pos; i < n; ++i) t.push(m[a].cp[i], m[a].len[i]); same(r, t, "Substring from a position"); break; }
                case 6: s[a].Insert(pos, cb.c_str()); m[a].ins(pos, one); break;
                case 7: { unsigned cnt = vx::pick("cnt", 3); s[a].Insert(pos, cnt, Char(cb)); for (unsigned i = 0; i < cnt; ++i) m[a].ins(pos, one); break; }
                case 8: { unsigned c0 = vx::pick("cnt", 6); size_t cnt = c0 < 3 ? c0 : c0 == 3 ? NP : c0 == 4 ? NP - 1 : NP / 2; String r = s[a].Substring(pos, cnt); Model t; for (size_t i = pos; i < n && i - pos < cnt; ++i) t.push(m[a].cp[i], m[a].len[i]); same(r, t, "Substring of a count"); break; }
                case 9: s[a].PushBack(Char(cb)); m[a].push(c, cl); break;
                case 10: s[a].Append(cb.c_str()); m[a].push(c, cl); break;
                case 11: { unsigned cnt = vx::pick("cnt", 3); if (vx::flip("cstr")) s[a].Append(cnt, cb.c_str()); else s[a].Append(cnt, Char(cb)); for (unsigned i = 0; i < cnt; ++i) m[a].push(c, cl); break; }
                case 12: s[a].Clear(); m[a] = Model(); break;
                case 13: if (a == b) sym_end(); { String r(std::move(s[b])); s[a] = std::move(r); m[a] = m[b]; gone[b] = true; break; }
                case 14: { unsigned i = vx::pick("i", (unsigned)n + 2); pos = i < n ? 0 : n + 1; const String& cs = s[a]; std::string x = vx::flip("const") ? cs.At(i).str() : s[a].At(i).str(), w; if (i >= n) break; vx::put8(w, m[a].cp[i], m[a].len[i]); sym_check(vx::eq(x, w), "At gives the character"); break; }
                default: { String r(s[a]); same(r, m[a], "a copy equals the original"); if (n) { r[0] = Char("Q"); r.PushBack(Char("Z")); } same(s[a], m[a], "a copy never changes the original"); break; }
            }
        }
        catch (const std::out_of_range&) { threw = true; }
        sym_check(threw == (pos > n), "a position past the end throws out_of_range, any other does not");
        if (threw) sym_cover("out of range");
        for (int i = 0; i < 2; ++i) if (!gone[i]) same(s[i], m[i], "after the operation each string is what the same operation gives on a list of characters");
    }
    sym_cover("edited");
    for (int i = 0; i < 2; ++i) if (!gone[i]) vx::out(s[i].str());
}
VX_HARNESS(str_build)     // the count constructors
{
    unsigned cl = 1 + vx::pick("cl", 4), cnt = vx::pick("cnt", 4);
    uint32_t c = vx::scalar("c", cl);
    std::string cb, want; vx::put8(cb, c, cl);
    for (unsigned i = 0; i < cnt; ++i) want += cb;
    String s(cnt, Char(cb));
    sym_check(s.size() == cnt && vx::eq(s.str(), want), "String(count, character)");
    if (cl == 1) { String t(cnt, (char)cb[0]); sym_check(t.size() == cnt && vx::eq(t.str(), want), "String(count, byte)"); }
    std::vector<Char> v(cnt, Char(cb));
    String u(v);
    sym_check(u == s && !(u != s), "String(characters)");
    sym_check(String::Empty().size() == 0, "Empty()");
    sym_cover("built");
}

// ---------------------------------------------------------------- C06
VX_HARNESS(str_order)
{
    vx::Text a = vx::text("a", 0, MMAX, LENS), b = vx::text("b", 0, MMAX, LENS);
    String x(a.bytes), y(b.bytes);
    bool lt = false, eqp = true;     // lexicographic on code points
    for (size_t i = 0; i < a.n() || i < b.n(); ++i)
    {
        bool l, e;
        if (i >= a.n()) { l = true; e = false; }
        else if (i >= b.n()) { l = false; e = false; }
        else { l = a.cp[i] < b.cp[i]; e = a.cp[i] == b.cp[i]; }
        lt = lt | (eqp & l);
        eqp = eqp & e;
    }
    bool gt = !lt & !eqp;
    unsigned what = vx::pick("what", 7);
    const char* z = b.bytes.c_str();
    switch (what)
    {
        case 0: sym_check((x < y) == lt, "<"); break;
        case 1: sym_check((x <= y) == (lt | eqp), "<="); break;
        case 2: sym_check((x > y) == gt, ">"); break;
        case 3: sym_check((x >= y) == (gt | eqp), ">="); break;
        case 4: sym_check((x == y) == eqp, "=="); sym_check((x == z) == eqp, "== with C text"); break;
        case 5: sym_check((x != y) == !eqp, "!="); sym_check((x != z) == !eqp, "!= with C text"); break;
        default:
            sym_check((x < z) == lt, "< with C text"); sym_check((x <= z) == (lt | eqp), "<= with C text");
            sym_check((x > z) == gt, "> with C text"); sym_check((x >= z) == (gt | eqp), ">= with C text");
    }
    sym_cover("compared");
    if (a.n() != b.n()) sym_cover("different lengths");
}

// ---------------------------------------------------------------- sizes beyond the exhaustive bounds: long fixed parts around a few arbitrary characters
#ifndef LONGS
#define LONGS 6
#endif
static unsigned size(const char* name) { static const unsigned z[] = {15, 0, 16, 7, 31, 33, 64, 100, 255, 256, 257}; return z[vx::pick(name, LONGS)]; }
// n fixed characters of one to four bytes
static void fixed(vx::Text& t, unsigned n)
{
    static const uint32_t c[4] = {'a', 0xE9, 0x4E16, 0x1F642};
    for (unsigned i = 0; i < n; ++i) { unsigned l = (t.n() * 7 + i / 3) % 4; t.add(c[l], l + 1); }
}
static void like(const String& s, const vx::Text& t, const char* what)
{
    sym_check(s.size() == t.n() && s.ByteCount() == t.bytes.size() && vx::eq(s.str(), t.bytes), what);
}
VX_HARNESS(str_text_long)
{
    vx::Text t, u;
    fixed(t, size("before"));
    unsigned l = 1 + vx::pick("bytes", 4);
    uint32_t c = vx::scalar("c", l);
    size_t at = t.n();
    t.add(c, l);
    fixed(t, size("after"));
    String s(t.bytes.c_str());
    like(s, t, "str() gives a long text back");
    if (s.size() != t.n()) return;
    sym_check(vx::eq(s[at].str(), t.ch(at)) && vx::eq(s.At(at).str(), t.ch(at)), "indexing in a long text");
    size_t i = 0;
    for (const auto& ch : s) { sym_check(vx::eq(ch.str(), t.ch(i)), "iteration over a long text"); ++i; }
    String copy(s), other;
    other = s;
    other[at] = "Z";
    like(copy, t, "a copy of a long text");
    like(s, t, "changing a copy of a long text");
    String moved(std::move(copy));
    like(moved, t, "a moved long text");
    sym_cover("accepted");
    // cut off inside the last character
    if (t.n() && t.len.back() > 1)
    {
        bool threw = false;
        std::string cut = t.bytes.substr(0, t.bytes.size() - 1);
        try { String bad(cut); } catch (const std::exception&) { threw = true; }
        sym_check(threw, "a long text that ends inside a character is rejected");
        sym_cover("rejected");
    }
}
// repetitive texts: a..a x a..a and needles of the same kind
VX_HARNESS(str_find_long)
{
    vx::Text h, n;
    unsigned p = 3 + vx::pick("p", 4), q = vx::pick("q", 4), r = vx::pick("r", 4), t = vx::pick("t", 4), gap = vx::pick("gap", 2);
    unsigned l = 1 + vx::pick("bytes", 2), m = vx::flip("unicode") ? 3 : 1;
    uint32_t a = m == 1 ? 'a' : 0x4E16, x = vx::scalar("x", l), y = vx::scalar("y", l);
    for (unsigned i = 0; i < p; ++i) h.add(a, m);
    h.add(x, l);
    if (gap) { for (unsigned i = 0; i < r; ++i) h.add(a, m); h.add(y, l); }
    for (unsigned i = 0; i < q; ++i) h.add(a, m);
    for (unsigned i = 0; i < r; ++i) n.add(a, m);
    n.add(y, l);
    for (unsigned i = 0; i < t; ++i) n.add(a, m);
    String s(h.bytes), w(n.bytes);
    unsigned what = vx::pick("what", 4);
    static const size_t from[] = {0, 2, 5, static_cast<size_t>(-1)};
    size_t pos = what < 2 ? from[vx::pick("from", 4)] : 0;
    if (what == 0) sym_check(s.Find(w, pos) == refFind(h, n, pos), "Find in a repetitive text");
    else if (what == 1) sym_check(s.ReverseFind(w, pos) == refRFind(h, n, pos), "ReverseFind in a repetitive text");
    else if (what == 2) sym_check(s.Contains(w) == (refFind(h, n, 0) != NP), "Contains in a repetitive text");
    else
    {
        bool st = n.n() <= h.n(), en = st;
        if (st) for (size_t j = 0; j < n.n(); ++j) { st = st & (h.cp[j] == n.cp[j]); en = en & (h.cp[h.n() - n.n() + j] == n.cp[j]); }
        sym_check(s.StartsWith(w) == st, "StartsWith with a long needle");
        sym_check(s.EndsWith(w) == en, "EndsWith with a long needle");
    }
    sym_cover("searched");
}
// one operation on long texts
VX_HARNESS(str_edit_long)
{
    vx::Text t, u;
    fixed(t, size("length"));
    unsigned l = 1 + vx::pick("bytes", 4);
    u.add(vx::scalar("c", l), l);
    fixed(u, vx::pick("more", 3) * 9);
    Model a, b, one;
    a.cp = t.cp; a.len = t.len; b.cp = u.cp; b.len = u.len; one.push(u.cp[0], l);
    String x(t.bytes), y(u.bytes);
    size_t n = t.n();
    static const char* const label = "an operation on long texts";
    size_t where[4] = {0, n / 2, n ? n - 1 : 0, n}, pos = where[vx::pick("pos", 4)];
    std::string cb = u.ch(0);
    switch (vx::pick("op", 9))
    {
        case 0: x += y; a.ins(n, b); break;
        case 1: { String r = x + y; Model k(a); k.ins(n, b); same(r, k, label); break; }
        case 2: x.Insert(pos, y); a.ins(pos, b); break;
        case 3: x.Insert(pos, y.str().c_str()); a.ins(pos, b); break;
        case 4: { static const unsigned cnt[] = {10, 17, 100}; unsigned k = cnt[vx::pick("count", 3)]; x.Insert(pos, k, Char(cb)); for (unsigned i = 0; i < k; ++i) a.ins(pos, one); break; }
        case 5: { static const unsigned cnt[] = {1, 9, 16, 200}; unsigned k = cnt[vx::pick("count", 4)]; String r = y.Substring(0, k), z = (x + y).Substring(pos, k); Model f, g(a), w; g.ins(n, b);
                  for (unsigned i = 0; i < b.cp.size() && i < k; ++i) f.push(b.cp[i], b.len[i]);
                  for (size_t i = pos; i < g.cp.size() && i < pos + k; ++i) w.push(g.cp[i], g.len[i]);
                  same(r, f, label); same(z, w, label); break; }
        case 6: { for (unsigned i = 0; i < 20; ++i) { x.PushBack(Char(cb)); a.push(u.cp[0], l); } break; }
        case 7: x.Insert(pos, x); { Model k(a); a.ins(pos, k); } break;
        default: x.Append(y.str().c_str()); x.Append(30u, Char(cb)); a.ins(n, b); for (unsigned i = 0; i < 30; ++i) a.push(u.cp[0], l); break;
    }
    same(x, a, label);
    same(y, b, "the other text stays");
    sym_cover("edited");
}
// a long common part, then arbitrary characters, then tails
VX_HARNESS(str_order_long)
{
    vx::Text a, b;
    unsigned k = size("common");
    fixed(a, k); fixed(b, k);
    unsigned l = 1 + vx::pick("bytes", 4), m = 1 + vx::pick("bytes", 4);
    uint32_t p = vx::scalar("a", l), q = vx::scalar("b", m);
    a.add(p, l); b.add(q, m);
    unsigned ta = vx::pick("tail", 3), tb = vx::pick("tail", 3);
    for (unsigned i = 0; i < ta; ++i) a.add('m', 1);
    for (unsigned i = 0; i < tb; ++i) b.add('m', 1);
    bool lt = p < q || (p == q && ta < tb), eqp = p == q && ta == tb;
    String x(a.bytes), y(b.bytes);
    sym_check((x < y) == lt && (y > x) == lt, "< and > of long texts");
    sym_check((x <= y) == (lt || eqp) && (y >= x) == (lt || eqp), "<= and >= of long texts");
    sym_check((x == y) == eqp && (x != y) == !eqp, "== and != of long texts");
    const char* z = b.bytes.c_str();
    sym_check((x < z) == lt && (x > z) == !(lt || eqp) && (x == z) == eqp && (x != z) == !eqp && (x <= z) == (lt || eqp) && (x >= z) == !lt, "comparison of a long text with C text");
    sym_cover("compared");
}

// ---------------------------------------------------------------- every size up to a bound
#ifndef SIZES
#define SIZES 130
#endif
VX_HARNESS(str_sizes)
{
    const unsigned n = vx::pick("size", SIZES + 1), how = vx::pick("what", 3);
    vx::Text t;
    const unsigned l = 1 + n % 4;
    if (n) { fixed(t, n - 1); const uint32_t c = vx::scalar("c", l); t.add(c, l); }
    Model m; m.cp = t.cp; m.len = t.len;
    Model z; z.push('z', 1);
    Model a(m); a.push('z', 1);                       // m z
    String s(t.bytes), e, u(std::string("z"));
    static const char* const label = "an operation on a text of any size";
    if (how == 0)
    {
        like(s, t, "the text");
        String c(s), d(c), f;
        d.Clear();
        same(d, e.IsEmpty() ? Model() : z, "a cleared text is empty");
        sym_check(d.IsEmpty() && d.size() == 0, "a cleared text is empty");
        d += u;
        same(d, z, "a text after clearing");
        c.PushBack(Char("z"));
        same(c, a, label);
        f = c;
        f.Clear();
        f = s;
        same(f, m, label);
        same(String(std::move(c)), a, label);
        f = std::move(d);
        same(f, z, label);
        c = String(std::string("q")) ;
        c = std::move(s);
        same(c, m, label);
        sym_cover("edited");
    }
    else if (how == 1)
    {
        same(s + u, a, label); same(u + s, [&] { Model k(z); k.ins(1, m); return k; }(), label);
        same(s + e, m, label); same(e + s, m, label);
        String c(s);
        c.Insert(n / 2, u);
        { Model k(m); k.ins(n / 2, z); same(c, k, label); }
        same(c.Substring(n / 2 + 1), [&] { Model k; for (unsigned i = n / 2; i < n; ++i) k.push(m.cp[i], m.len[i]); return k; }(), label);
        same(c.Substring(0, n / 2), [&] { Model k; for (unsigned i = 0; i < n / 2; ++i) k.push(m.cp[i], m.len[i]); return k; }(), label);
        String d(std::string("-"));
        d.Append(n, Char("z"));
        String k(n, Char("z"));
        sym_check(d.size() == n + 1 && d == String(std::string("-")) + k && vx::eq(k.str(), std::string(n, 'z')), label);
        bool threw = false;
        try { s.At(n); } catch (const std::out_of_range&) { threw = true; }
        sym_check(threw, "a position at the end");
        threw = false;
        try { s.Insert(n + 1, u); } catch (const std::out_of_range&) { threw = true; }
        sym_check(threw, "a position past the end");
        sym_cover("edited");
    }
    else
    {
        String c(s), w(std::string("\xD0\x96"));
        sym_check(c == s && !(c < s) && !(c > s) && !(c != s), "equal texts");
        c.PushBack(Char("z"));
        sym_check(s < c && c > s && !(c == s) && s != c && !(c < s), "a text is less than one that goes on");
        sym_check(c.StartsWith(s) && c.EndsWith(u) && !s.StartsWith(c) && (n == 0 || c.Contains(s)), "a text contains its beginning");
        String d = s + w + s;
        sym_check(d.Find(w, 0) == n || (n && sym_decide(t.cp[n - 1] == 0x416)), "the first occurrence");
        sym_check(d.ReverseFind(w, 2 * n + 1) == n || (n && sym_decide(t.cp[n - 1] == 0x416)), "the last occurrence");
        sym_check(d.EndsWith(s) && d.EndsWith(w + s) && d.Contains(w + s), "a text contains its end");
        if (n) sym_check(s.Find(String(t.ch(n - 1)), n - 1) == n - 1 && s.Find(String(t.ch(n - 1)), n) == NP, "the last character is found");
        sym_cover("compared");
    }
}
