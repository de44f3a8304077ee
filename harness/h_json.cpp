#include "vxlib.h"
#include <fstream>
#include <sstream>
#include "Caitlyn/__Serializing/Json.h"
#include "unicode_tables.h"
using namespace Caitlyn;
typedef Json::__Detail::JsonData Data;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef LENS
#define LENS 1
#endif
#ifndef SHAPES
#define SHAPES 0
#endif

// ------------------------------------------------------------------ the definition: what a text means
struct Ref
{
    enum Kind { NUL, OBJ, ARR, STR, FLT, INT, BOOL } kind = NUL;
    std::string s; int64_t i = 0; float f = 0; bool b = false;
    std::vector<Ref> items;
    std::vector<std::string> keys;   // of items, in an object
};
struct Reader
{
    const vx::Text& t;
    size_t p = 0;
    unsigned depth = 0;                 // of the value being read; more than 512 is refused
    Reader(const vx::Text& x) : t(x) {}
    bool at(uint32_t c) const { return p < t.n() && t.cp[p] == c; }
    void space() { while (p < t.n() && u_space(t.cp[p])) ++p; }
    static void put(std::string& s, uint32_t c) { vx::put8(s, c, c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4); }
    bool hex(uint32_t& v)
    {
        v = 0;
        if (p + 4 >= t.n()) return false;                  // the digits and something after them
        for (int i = 0; i < 4; ++i)
        {
            uint32_t c = t.cp[++p], d;
            if (c >= '0' && c <= '9') d = c - '0';
            else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
            else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
            else return false;
            v = v * 16 + d;
        }
        return true;
    }
    bool string(std::string& s)
    {
        ++p;
        for (; p < t.n(); ++p)
        {
            uint32_t c = t.cp[p];
            if (c == '"') { ++p; return true; }
            if (c != '\\') { s += t.ch(p); continue; }
            if (++p >= t.n()) return false;
            c = t.cp[p];
            if (c == '"') s += '"';
            else if (c == '\\') s += '\\';
            else if (c == 'b') s += '\b';
            else if (c == 'f') s += '\f';
            else if (c == 'n') s += '\n';
            else if (c == 'r') s += '\r';
            else if (c == 't') s += '\t';
            else if (c == 'u')
            {
                uint32_t v, w;
                if (!hex(v)) return false;
                if (v >= 0xd800 && v <= 0xdfff)
                {
                    ++p;
                    if (v >= 0xdc00 || !at('\\')) return false;
                    ++p;
                    if (!at('u') || !hex(w) || w < 0xdc00 || w > 0xdfff) return false;
                    v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                }
                sym_assume(v != 0);
                put(s, v);
            }
            else return false;
        }
        return false;
    }
    bool word(const char* w) { size_t q = p; for (; *w; ++w, ++q) if (q >= t.n() || t.cp[q] != (unsigned char)*w) return false; p = q; return true; }
    bool digit() const { return p < t.n() && t.cp[p] - '0' < 10; }
    bool number(Ref& r)
    {
        if (!digit() && !at('-') && !at('+')) return false;
        bool neg = at('-'), frac = false, exp = false;
        if (neg || at('+')) ++p;
        uint64_t m = 0; unsigned nd = 0; int scale = 0;
        while (digit()) { m = m * 10 + (t.cp[p++] - '0'); ++nd; }
        if (at('.')) { frac = true; ++p; while (digit()) { m = m * 10 + (t.cp[p++] - '0'); ++nd; --scale; } }
        if (!nd) return false;
        if (at('e') || at('E'))
        {
            exp = true; ++p;
            bool en = at('-');
            if (en || at('+')) ++p;
            if (!digit()) return false;
            int e = 0;
            while (digit()) e = e * 10 + (int)(t.cp[p++] - '0');
            scale += en ? -e : e;
        }
        // a number ends where no character that could be part of one follows
        if (p < t.n() && (t.cp[p] == '.' || t.cp[p] == 'e' || t.cp[p] == 'E' || t.cp[p] == '-' || t.cp[p] == '+')) return false;
        if (!frac && !exp) { r.kind = Ref::INT; r.i = neg ? -(int64_t)m : (int64_t)m; return true; }
        r.kind = Ref::FLT;
        m = sym_concretize(m); scale = (int)sym_concretize((uint32_t)scale);
        sym_assume(scale > -20 && scale < 20);
        double x = (double)m, q = 1;                       // both exact, so the quotient or product is the nearest double
        for (int i = 0; i < (scale < 0 ? -scale : scale); ++i) q *= 10;
        x = scale < 0 ? x / q : x * q;
        r.f = (float)(neg ? -x : x);
        return true;
    }
    bool value(Ref& r)
    {
        space();
        if (p >= t.n()) return false;
        uint32_t c = t.cp[p];
        if (c == '"') { r.kind = Ref::STR; return string(r.s); }
        struct Level { unsigned& d; Level(unsigned& x) : d(x) { ++d; } ~Level() { --d; } };
        if ((c == '{' || c == '[') && depth >= 512) return false;
        if (c == '{')
        {
            Level level(depth);
            r.kind = Ref::OBJ;
            ++p; space();
            if (at('}')) { ++p; return true; }
            for (;;)
            {
                space();
                std::string k; Ref v;
                if (!at('"') || !string(k)) return false;
                space();
                if (!at(':')) return false;
                ++p;
                if (!value(v)) return false;
                size_t i = 0;
                while (i < r.keys.size() && !vx::eq(r.keys[i], k)) ++i;
                if (i == r.keys.size()) { r.keys.push_back(k); r.items.push_back(v); } else r.items[i] = v;
                space();
                if (at('}')) { ++p; return true; }
                if (!at(',')) return false;
                ++p;
            }
        }
        if (c == '[')
        {
            Level level(depth);
            r.kind = Ref::ARR;
            ++p; space();
            if (at(']')) { ++p; return true; }
            for (;;)
            {
                Ref v;
                if (!value(v)) return false;
                r.items.push_back(v);
                space();
                if (at(']')) { ++p; return true; }
                if (!at(',')) return false;
                ++p;
            }
        }
        if (word("true")) { r.kind = Ref::BOOL; r.b = true; return true; }
        if (word("false")) { r.kind = Ref::BOOL; return true; }
        if (word("null")) return true;
        return number(r);
    }
    bool document(Ref& r) { space(); if (!at('{') || !value(r)) return false; space(); return p == t.n(); }
};
static bool same(const Data& d, const Ref& r);
static bool same_object(Data& d, const Ref& r)
{
    auto& m = d.GetData();
    if (m.size() != r.items.size()) return false;
    for (size_t i = 0; i < m.size(); ++i) if (!vx::eq(m[i].first.str(), r.keys[i]) || !same(*m[i].second, r.items[i])) return false;
    return true;
}
static bool same(const Data& d, const Ref& r)
{
    int kinds = d.IsNull() + d.IsObject() + d.IsArray() + d.IsString() + d.IsFloating() + d.IsIntegral() + d.IsBoolean();
    if (kinds != 1) return false;
    switch (r.kind)
    {
        case Ref::NUL: return d.IsNull();
        case Ref::STR: return d.IsString() && vx::eq(d.GetString().str(), r.s);
        case Ref::INT: return d.IsIntegral() && d.GetIntegral() == r.i;
        case Ref::FLT: return d.IsFloating() && d.GetFloating() == r.f;
        case Ref::BOOL: return d.IsBoolean() && d.GetBoolean() == r.b;
        case Ref::ARR:
            if (!d.IsArray() || d.Size() != r.items.size()) return false;
            for (size_t i = 0; i < r.items.size(); ++i) if (!same(d.At(i), r.items[i])) return false;
            return true;
        case Ref::OBJ:
            if (!d.IsObject() || d.Size() != r.items.size()) return false;
            { Data c(d); return same_object(c, r); }
    }
    return false;
}
static bool same_document(const JsonDocument& d, const Ref& r)
{
    if (d.GetType() != Json::JsonClass::Object || d.Size() != r.items.size()) return false;
    for (size_t i = 0; i < r.items.size(); ++i) if (!d.HasMember(String(r.keys[i])) || !same(d[String(r.keys[i])], r.items[i])) return false;
    return true;
}
static void put(vx::Text& t, const char* s) { for (; *s; ++s) t.add((unsigned char)*s, 1); }
static void some(vx::Text& t, const char* name, unsigned minN, unsigned maxN, unsigned lens)
{
    vx::Text x = vx::text(name, minN, maxN, lens);
    for (size_t i = 0; i < x.n(); ++i) t.add(x.cp[i], x.len[i]);
}
static void warm()      // allocate what the library keeps for good
{
    JsonDocument d{String("{\"a\":[1 ,true]}")};
    d.ToString();
}
static void judge(const vx::Text& t)
{
    Ref r;
    Reader rd(t);
    bool good = rd.document(r);
    int64_t live = sym_live();
    {
        String s(t.bytes);
        JsonDocument d(s);
        sym_check(d.HasError() == !good, "an error is reported exactly when the text is not a document");
        sym_check(d.HasError() == (d.GetError() != Json::JsonError::NoError), "the error is not 'no error'");
        if (good) { sym_check(same_document(d, r), "the members, types, order and values of the text"); sym_cover("accepted"); }
        else { sym_check(d.GetType() == Json::JsonClass::Null, "no document without success"); sym_cover("rejected"); }
        sym_out(d.HasError());
    }
    sym_check(sym_live() == live, "everything allocated is released");
}

// every text of a few characters
VX_HARNESS(json_short)
{
    warm();
    vx::Text t;
    some(t, "c", 0, NMAX, LENS);
    judge(t);
}
// every few characters at each kind of place inside a document
VX_HARNESS(json_inside)
{
    warm();
    static const char* const pre[] = {"{", "{\"a\"", "{\"a\":", "{\"a\":[", "{\"a\":{", "{\"a\":[1", "{\"a\":1", "{\"a\":{\"b\":1"};
    static const char* const suf[] = {"}", "]}", "}}", ""};
    vx::Text t;
    put(t, pre[vx::pick("before", 8)]);
    some(t, "c", 0, NMAX, LENS);
    put(t, suf[vx::pick("after", 4)]);
    judge(t);
}
// a symbolic run of structural tokens
VX_HARNESS(json_tokens)
{
    warm();
    vx::Text t;
    t.add('{', 1);
    unsigned n = vx::pick("tokens", NMAX + 1);
    for (unsigned i = 0; i < n; ++i)
    {
        // a one-character token, or one of the longer ones
        uint32_t c = sym_u8("token");
        bool ok = false;
        for (const char* q = "{}[],: 1\"nk"; *q; ++q) ok = ok | (c == (uint32_t)*q);
        sym_assume(ok);
        if (c == 'n') put(t, "null");
        else if (c == 'k') put(t, "\"k\":");
        else if (c == '"') put(t, "\"s\"");
        else t.add(c, 1);
    }
    t.add('}', 1);
    judge(t);
}
VX_HARNESS(json_string)
{
    warm();
    vx::Text t;
    bool key = vx::flip("key");
    put(t, key ? "{\"" : "{\"k\":\"");
    some(t, "c", 0, NMAX, LENS);
    put(t, key ? "\":7}" : "\"}");
    judge(t);
}
VX_HARNESS(json_unicode)
{
    warm();
    vx::Text t;
    put(t, "{\"k\":\"");
    unsigned how = vx::pick("how", 4);
    unsigned n = how == 3 ? 2 : 1;
    for (unsigned i = 0; i < n; ++i)
    {
        put(t, "\\u");
        if (how == 3)       // a surrogate pair or what looks like one: one arbitrary digit in the high, two in the low half
        {
            t.add('d', 1);
            for (unsigned j = 0; j < 3; ++j)
            {
                if (j == (i ? 1u : 0u)) { t.add(vx::scalar("digit", 1), 1); continue; }
                t.add(j == 0 ? 'c' : '4', 1);
            }
        }
        else for (unsigned j = 0; j < 4; ++j)
        {
            // two arbitrary characters, two digits
            bool free = how == 0 ? j < 2 : how == 1 ? j >= 2 : j == 0 || j == 3;
            if (free) t.add(vx::scalar("digit", 1), 1);
            else t.add(how == 1 && j == 0 ? '1' : 'B', 1);
        }
    }
    put(t, "x\"}");
    judge(t);
}
// every four characters after the escape, alone, before and after another half
VX_HARNESS(json_escape)
{
    warm();
    vx::Text t;
    unsigned how = vx::pick("how", NMAX > 3 ? 4 : 3);
    put(t, how == 2 ? "{\"k\":\"\\uD83D\\u" : "{\"k\":\"\\u");
    for (unsigned j = 0; j < 4; ++j) t.add(vx::scalar("digit", 1), 1);
    if (how == 1) put(t, "\\uDE42");
    if (how == 3) { put(t, "\\uD"); for (unsigned j = 0; j < 3; ++j) t.add(vx::scalar("digit", 1), 1); }
    put(t, "x\"}");
    judge(t);
}
// a token of characters that occur in numbers
VX_HARNESS(json_number)
{
    warm();
    vx::Text t;
    put(t, "{\"k\":");
    unsigned n = 1 + vx::pick("length", NMAX);
    for (unsigned i = 0; i < n; ++i)
    {
        uint32_t c = sym_u8("c");
        sym_assume((c - '0' < 10) | (c == '+') | (c == '-') | (c == '.') | (c == 'e') | (c == 'E') | (c == 'x'));
#if LEAD
        if (i == 0) sym_assume((c - '0' < 10) | (c == '-'));
#endif
        t.add(c, 1);
    }
    t.add('}', 1);
    judge(t);
}
// integers of more digits, fractions
VX_HARNESS(json_integer)
{
    warm();
    vx::Text t;
    put(t, "{\"k\":");
    if (vx::flip("minus")) t.add('-', 1);
    unsigned n = 1 + vx::pick("digits", NMAX);
    for (unsigned i = 0; i < n; ++i) t.add('0' + (uint32_t)sym_below("d", 10), 1);
    t.add('}', 1);
    judge(t);
}
// literals, numbers and members after characters of any encoded length
VX_HARNESS(json_after)
{
    warm();
    vx::Text t;
    put(t, "{\"");
    unsigned l = 1 + vx::pick("bytes", 4);
    t.add(vx::scalar("c", l), l);
    put(t, "\":");
    static const char* const lit[] = {"true", "false", "null", "12", "\"s\"", "tru", "nul", "[true,null]", "falsey"};
    put(t, lit[vx::pick("literal", 9)]);
    if (vx::flip("more")) put(t, ", \"z\" : false");
    put(t, " }");
    judge(t);
}

// ---------------------------------------------------------------- long documents: fixed parts of many sizes around a few arbitrary characters
#ifndef DEEP
#define DEEP 0
#endif
#if DEEP
static const unsigned depths[] = {1, 11, 40, 3, 100};
static const unsigned counts[] = {0, 9, 33, 2, 17, 70};
static const unsigned NDEP = 5, NCNT = 6;
#else
static const unsigned depths[] = {1, 11, 40};
static const unsigned counts[] = {0, 9, 33};
static const unsigned NDEP = 3, NCNT = 3;
#endif
static void run(vx::Text& t, unsigned n, unsigned kind)      // n characters of text, of white space or of mixed characters
{
    static const uint32_t sp[] = {' ', '\n', 0x3000, '\t', 0xA0}, mx[] = {'a', 0xE9, 0x4E16, 0x1F642, 'z'};
    for (unsigned i = 0; i < n; ++i) { uint32_t c = kind == 1 ? sp[i % 5] : mx[i % 5]; t.add(c, c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4); }
}
static void num(vx::Text& t, unsigned v) { char b[12]; unsigned n = 0; do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) t.add((unsigned char)b[--n], 1); }
// deep nesting, one or two arbitrary characters innermost, closed properly, once too little, once too often or wrongly
VX_HARNESS(json_deep)
{
    warm();
    unsigned d = depths[vx::pick("depth", NDEP)], kind = vx::pick("kind", 3), end = vx::pick("end", 4);
    vx::Text t;
    put(t, "{\"a\":");
    for (unsigned i = 0; i < d; ++i) { bool arr = kind == 0 || (kind == 2 && i % 2); put(t, arr ? (i % 3 ? "[" : "[1,") : (i % 3 ? "{\"k\":" : "{\"j\":2,\"k\":")); }
    some(t, "c", 1, 1, 1);
    if (vx::flip("closing")) put(t, "]");
    for (unsigned i = d; i-- > 0; )
    {
        bool arr = kind == 0 || (kind == 2 && i % 2);
        if (end == 1 && i == d / 2) continue;
        if (end == 2 && i == d / 2) arr = !arr;
        t.add(arr ? ']' : '}', 1);
        if (i == d / 3) put(t, arr ? "" : " ");
    }
    put(t, end == 3 ? "}}" : "}");
    judge(t);
}
// nesting around the limit (512), with something shallow before it
VX_HARNESS(json_nest)
{
    warm();
    static const unsigned at[] = {511, 512, 600, 510};     // levels inside the document
    unsigned d = at[vx::pick("depth", DEEP + 3)], before = vx::pick("before", 2), inner = vx::pick("inner", 2), digit = (unsigned)sym_below("d", 2);
    std::string s(before ? "{\"b\":[[],{\"c\":[0]}],\"a\":" : "{\"a\":");
    for (unsigned i = 0; i < d; ++i) s += inner && i + 1 == d ? "[" : "{\"k\":";
    s += (char)('0' + digit);
    for (unsigned i = 0; i < d; ++i) s += inner && i == 0 ? ']' : '}';
    s += '}';
    int64_t live = sym_live();
    {
        JsonDocument doc{String(s)};
        sym_check(doc.HasError() == (d >= 512), "an error is reported exactly when the text is nested more than 512 deep");
        if (!doc.HasError() && d < 512)
        {
            String k("k");
            Data* v = &doc["a"];
            for (unsigned i = 0; i + inner < d && v->IsObject(); ++i) v = &(*v)[k];
            if (inner && v->IsArray()) v = &(*v)[(SizeType)0];
            sym_check(v->IsIntegral() && v->GetIntegral() == (int64_t)digit, "the innermost value");
            sym_cover("accepted");
        }
        else sym_cover("rejected");
    }
    sym_check(sym_live() == live, "everything allocated is released");
}
// many members or elements, one of them followed by arbitrary characters
VX_HARNESS(json_wide)
{
    warm();
    unsigned n = counts[vx::pick("before", NCNT)], m = vx::pick("after", 2) * 10, arr = vx::pick("array", 2), again = vx::pick("again", 3);
    vx::Text t;
    put(t, arr ? "{\"a\":[" : "{");
    for (unsigned i = 0; i < n; ++i)
    {
        if (!arr) { put(t, "\"k"); num(t, i); put(t, "\":"); }
        static const char* const v[] = {"1", "\"text\"", "null", "[1,2]", "{\"x\":true}", "2.5"};
        put(t, v[i % 6]);
        t.add(',', 1);
    }
    if (!arr) put(t, again == 0 ? "\"k3\":" : again == 1 ? "\"k0\":" : "\"new\":");
    some(t, "c", 1, 1, 3);
    if (again == 2) put(t, "\"");
    for (unsigned i = 0; i < m; ++i) { t.add(',', 1); if (!arr) { put(t, "\"k"); num(t, i + 5); put(t, "\":"); } num(t, i * 37); }
    put(t, arr ? "]}" : "}");
    judge(t);
}
// long strings with escapes and an arbitrary character, and long runs of white space
VX_HARNESS(json_text_long)
{
    warm();
    static const char* const esc[] = {"", "\\n", "\\u00e9", "\\ud83d\\ude42", "\\", "\\u12"};
    unsigned n = counts[vx::pick("before", NCNT)] * 8, m = counts[vx::pick("after", 2)] * 4, l = 1 + vx::pick("bytes", 4);
    bool key = vx::flip("key");
    vx::Text t;
    if (!key) run(t, n / 2, 1);
    t.add('{', 1);
    if (!key) run(t, m, 1);
    put(t, key ? "\"" : "\"k\":\"");
    run(t, n, 0);
    put(t, esc[vx::pick("escape", 6)]);
    t.add(vx::scalar("c", l), l);
    run(t, m, 0);
    put(t, "\"");
    if (key) { put(t, " : "); run(t, n, 1); put(t, "[\"q\"]"); }
    if (vx::flip("more")) put(t, ", \"z\":\"\\\"\"");
    put(t, "}");
    run(t, m, 1);
    judge(t);
}
// integers around the limits of 64 bits, and far beyond
VX_HARNESS(json_limits)
{
    warm();
    static const char* const pre[] = {"92233720368547758", "184467440737095516", "2147483", "42949672", "99999999999999999999999", "00000000000000000000922337203685477", "9007199254740"};
    unsigned k = vx::pick("prefix", 7);
    bool neg = vx::flip("minus");
    std::string s = pre[k];
    for (unsigned i = 0; i < 2; ++i) s += (char)('0' + sym_below("d", 10));
    if (k == 5) s += "58";
    bool over = false;                                    // |value| > 2^63 - 1 (or 2^63), on the text
    std::string m = s.substr(k == 5 ? 20 : 0), limit = neg ? "9223372036854775808" : "9223372036854775807";
    if (m.size() > 19) over = true;
    else if (m.size() == 19) { bool gt = false; for (size_t i = 19; i-- > 0; ) gt = (m[i] > limit[i]) | ((m[i] == limit[i]) & gt); over = gt; }
    uint64_t v = 0;
    if (m.size() <= 19) for (char c : m) v = v * 10 + (uint64_t)(c - '0');
    String text(std::string(neg ? "{\"k\":-" : "{\"k\":") + s + "}");
    JsonDocument d(text);
    over = sym_decide(over);
    if (over) { sym_check(d.HasError() || !d["k"].IsIntegral(), "a number that does not fit is no integer"); sym_cover("too large"); return; }
    sym_check(!d.HasError() && d["k"].IsIntegral(), "a number that fits is read");
    if (d.HasError()) return;
    sym_check((uint64_t)d["k"].GetIntegral() == (neg ? 0 - v : v), "as that integer");
    sym_cover("read");
}
// floating numbers with many digits or large exponents: the nearest value that the type holds
VX_HARNESS(json_floats)
{
    warm();
    static const char* const t[] = {"0.1", "1e10", "-2.5E-3", "123456789.125", "1e38", "3.4028234e38", "1.17549435e-38", "16777217.0", "0.30000000000000004", "-0.0", "1E+2", "00.5", "5.", "+7.25", "1.0000001", "9.99999999999999999999e0"};
    static const float v[] = {0.1f, 1e10f, -2.5e-3f, 123456789.125f, 1e38f, 3.4028234e38f, 1.17549435e-38f, 16777217.0f, 0.30000000000000004f, -0.0f, 100.f, .5f, 5.f, 7.25f, 1.0000001f, 10.f};
    unsigned i = vx::pick("token", 16), where = vx::pick("where", 3);
    static const char* const pre[] = {"{\"k\":", "{\"k\":[true,", "{\"j\":\"\xE4\xB8\x96\",\"k\":"};
    static const char* const suf[] = {"}", "]}", " , \"z\":1}"};
    JsonDocument d(String(std::string(pre[where]) + t[i] + suf[where]));
    sym_check(!d.HasError(), "a number is read");
    if (d.HasError()) return;
    const Data& x = where == 1 ? d["k"][1] : d["k"];
    sym_check(x.IsFloating() && x.GetFloating() == v[i], "the nearest floating value");
    sym_cover("read");
}

// ------------------------------------------------------------------ histories of two documents
struct State { bool bad = false; bool null = false; Ref r; };
static void check_state(const JsonDocument& d, const State& s, const char* what)
{
    bool ok = d.HasError() == s.bad && (d.GetError() == Json::JsonError::NoError) == !s.bad;
    if (s.bad) ok = ok && d.GetType() == Json::JsonClass::Null && !d.HasMember("a") && !vx::eq(d.GetErrorString().str(), "No error.") && !d.GetErrorString().IsEmpty();
    else ok = ok && vx::eq(d.GetErrorString().str(), "No error.") && (s.null || same_document(d, s.r));      // a moved-from document is only known to have no error
    sym_check(ok, what);
}
#ifndef STEPS
#define STEPS 2
#endif
VX_HARNESS(json_history)
{
    static const char* const texts[] = {"{\"a\":#}", "{\"b\":[true,\"x\",null],\"c\":{\"a\":1.5}}", "{\"a\":1", "{}", "{\"k\":[1,]}", "", "{\"a\":\"\\q\"}", "{\"a\":nul}", "[1]"};
    static const unsigned NT = STEPS > 2 ? 3 : 7, NW = STEPS > 2 ? 3 : 6;
    warm();
    int64_t live = sym_live();
    {
        JsonDocument d[2];
        State s[2];
        s[0].r.kind = s[1].r.kind = Ref::OBJ;
        for (unsigned step = 0; step < STEPS; ++step)
        {
            unsigned op = vx::pick("operation", step ? NW + 5 : NW);
            if (op >= NW) op += 6 - NW;
            const unsigned at = step ? vx::pick("document", 2) : 0;
            JsonDocument &x = d[at], &y = d[1 - at];
            State &p = s[at], &q = s[1 - at];
            if (op < 6)
            {
                vx::Text t;
                for (const char* c = texts[vx::pick("text", NT)]; *c; ++c) t.add(*c == '#' ? (uint32_t)('0' + sym_below("digit", 10)) : (unsigned char)*c, 1);
                p = State();
                Reader rd(t);
                p.bad = !rd.document(p.r);
                const String text(t.bytes);
                switch (op)
                {
                    case 0: x.Parse(text); break;
                    case 1: { std::istringstream is(t.bytes); is >> x; break; }
                    case 2: x = JsonDocument(text); break;
                    case 3: { const JsonDocument n(text); x = n; break; }
                    case 4: x = text; break;
                    case 5: x = Json::MakeDocument(text); break;
                }
            }
            else switch (op)
            {
                case 6: y = x; q = p; break;
                case 7: y = std::move(x); q = p; p.bad = false; p.null = true; break;
                case 8: { JsonDocument n(x), m(std::move(n)); y = Json::MakeDocument(m); q = p; break; }
                case 9: { JsonDocument& same = x; x = same; break; }
                case 10:
                    if (p.bad || p.null) break;
                    x.AddMember("a", Json::MakeIntegral(7));
                    x.RemoveMember("c");
                    {
                        Ref v; v.kind = Ref::INT; v.i = 7;
                        bool found = false;
                        for (size_t i = 0; i < p.r.keys.size(); ++i) if (p.r.keys[i] == "a") { p.r.items[i] = v; found = true; }
                        if (!found) { p.r.keys.push_back("a"); p.r.items.push_back(v); }
                        for (size_t i = 0; i < p.r.keys.size(); ++i) if (p.r.keys[i] == "c") { p.r.keys.erase(p.r.keys.begin() + i); p.r.items.erase(p.r.items.begin() + i); break; }
                    }
                    break;
            }
            check_state(x, p, "the document is what its last text or assignment makes it");
            check_state(y, q, "the other document too");
            if (p.bad) sym_cover("error"); else sym_cover("document");
        }
    }
    sym_check(sym_live() == live, "everything is released");
}
VX_HARNESS(json_messages)     // two different errors are never described alike
{
    const uint8_t a = (uint8_t)sym_below("one", 14), b = (uint8_t)sym_below("other", 14);
    if (a == b) sym_end();
    const std::string x = Json::GetErrorString((Json::JsonError)a), y = Json::GetErrorString((Json::JsonError)b);
    sym_check(!x.empty() && x != y, "each error has its own description");
    sym_check((x == "No error.") == ((Json::JsonError)a == Json::JsonError::NoError), "and success says so");
    sym_cover("described");
}

// ------------------------------------------------------------------ every size up to a bound, and some far larger
#ifndef SIZES
#define SIZES 70
#endif
static void sized(vx::Text& t, unsigned kind, unsigned k)
{
    switch (kind)
    {
        case 0: put(t, "\"a\":["); for (unsigned i = 0; i < k; ++i) { if (i) put(t, ","); num(t, i); } put(t, "]"); break;
        case 1: for (unsigned i = 0; i < k; ++i) { if (i) put(t, ","); put(t, "\"m"); num(t, i); put(t, "\":"); num(t, i); } if (k == 0) put(t, " "); break;
        case 2: put(t, "\"a\":\""); for (unsigned i = 0; i < k; ++i) t.add('a' + i % 26, 1); put(t, "\""); break;
        case 3: put(t, "\""); for (unsigned i = 0; i < k; ++i) t.add('a' + i % 26, 1); put(t, "\":true"); break;
        case 4: for (unsigned i = 0; i < k; ++i) t.add(" \t\n\r"[i % 4], 1); put(t, "\"a\":null"); break;
        case 5: put(t, "\"a\":"); for (unsigned i = 0; i < k; ++i) put(t, i % 2 ? "{\"b\":" : "["); put(t, "7"); for (unsigned i = k; i-- > 0; ) put(t, i % 2 ? "}" : "]"); break;
        case 6: put(t, "\"a\":"); for (unsigned i = 0; i < k % 18; ++i) t.add('1' + i % 9, 1); t.add('0' + (uint32_t)sym_below("digit", 10), 1); break;
        default: put(t, "\"a\":\""); for (unsigned i = 0; i < k; ++i) { t.add('\\', 1); t.add("nt\"\\/bfr"[i % 8], 1); } put(t, "\""); break;
    }
}
VX_HARNESS(json_sizes)
{
    warm();
    vx::Text t;
    put(t, "{");
    const unsigned kind = vx::pick("kind", 8);
    const unsigned k = vx::pick("size", SIZES + 1);
    sized(t, kind, k);
    if (k % 8 == kind)
    {
        const uint32_t c = sym_u8("c"); sym_assume(c >= 1 && c < 0x80);
        t.add(c, 1);
    }
    put(t, "}");
    judge(t);
}
VX_HARNESS(json_huge)
{
    static const unsigned far[] = {65600, 66000};
#if DEEP
    const unsigned NF = 2, NK = 3;
#else
    const unsigned NF = 1, NK = 1;
#endif
    const unsigned n = far[vx::pick("size", NF)], kind = vx::pick("kind", NK);
    const bool good = vx::flip("well-formed");
    const std::string x(n, kind == 0 ? ' ' : 'x');
    const char digit = (char)('0' + sym_below("digit", 10));
    const std::string t = (kind == 0 ? "{" + x + "\"a\":1" : kind == 1 ? "{\"a\":\"" + x + "\"" : "{\"" + x + "\":1") + ",\"b\":" + digit + (good ? "}" : "");
    const JsonDocument d{String(t)};
    sym_check(d.HasError() == !good, "an error is reported exactly when the text is not a document");
    if (good) sym_check(d.Size() == 2 && d.HasMember("b") && d["b"].IsIntegral() && d["b"].GetIntegral() == digit - '0' && (kind == 1 ? d["a"].GetString().size() == n : kind == 0 ? d["a"].GetIntegral() == 1 : d.HasMember(String(x))), "the members of a huge text");
    sym_cover(good ? "accepted" : "rejected");
}
// documents with a token added, removed or replaced anywhere
#ifndef EDITS
#define EDITS 1
#endif
VX_HARNESS(json_edits)
{
    warm();
    static const char* const docs[] = {"{ k 1 , k [ s , 1 , [ ] ] , k { } }", "{ k { k 1 , k s } , k [ { k n } , { } ] }", "{ k [ 1 , 1 ] , k n , k s }"};
    std::vector<char> d;
    for (const char* q = docs[vx::pick("document", 3)]; *q; ++q) if (*q != ' ') d.push_back(*q);
    for (unsigned e = 0; e < EDITS; ++e)
    {
        const unsigned at = vx::pick("at", (unsigned)d.size() + 1), how = vx::pick("how", 3);
        if (how && at == d.size()) sym_end();
        if (how == 1) { d.erase(d.begin() + at); continue; }
        const char c = "{}[],:1 snkq"[vx::pick("token", 12)];
        if (how == 0) d.insert(d.begin() + at, c); else d[at] = c;
    }
    vx::Text t;
    for (char c : d)
    {
        if (c == 'n') put(t, "null");
        else if (c == 'k') put(t, "\"k\":");
        else if (c == 's') put(t, "\"s\"");
        else if (c == 'q') put(t, "\"");
        else t.add((unsigned char)c, 1);
    }
    judge(t);
}
