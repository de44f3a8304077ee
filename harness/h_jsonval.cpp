#include "vxlib.h"
#include <fstream>
#include <sstream>
#include <cmath>
#include "Caitlyn/__Serializing/Json.h"
using namespace Caitlyn;
typedef Json::__Detail::JsonData Data;
#ifndef OPS
#define OPS 2
#endif
#ifndef LENS
#define LENS 3
#endif

// a JSON value as the user sees it
struct Tree
{
    enum Kind { NUL, OBJ, ARR, STR, FLT, INT, BOOL } kind = NUL;
    std::string s; int64_t i = 0; float f = 0; bool b = false;
    std::vector<Tree> items;
    std::vector<std::string> keys;
    Tree& member(const std::string& k)
    {
        if (kind != OBJ) { *this = Tree(); kind = OBJ; }
        for (size_t q = 0; q < keys.size(); ++q) if (vx::eq(keys[q], k)) return items[q];
        keys.push_back(k); items.push_back(Tree());
        return items.back();
    }
    Tree& element(size_t q)
    {
        if (kind != ARR) { *this = Tree(); kind = ARR; }
        while (items.size() <= q) items.push_back(Tree());
        return items[q];
    }
};
static bool same(const Data& d, const Tree& r)
{
    int kinds = d.IsNull() + d.IsObject() + d.IsArray() + d.IsString() + d.IsFloating() + d.IsIntegral() + d.IsBoolean();
    if (kinds != 1) return false;
    bool ok = true;
    switch (r.kind)
    {
        case Tree::NUL: return d.IsNull();
        case Tree::STR: return d.IsString() && vx::eq(d.GetString().str(), r.s);
        case Tree::INT: return d.IsIntegral() && d.GetIntegral() == r.i;
        case Tree::FLT: return d.IsFloating() && d.GetFloating() == r.f;
        case Tree::BOOL: return d.IsBoolean() && d.GetBoolean() == r.b;
        case Tree::ARR:
            if (!d.IsArray() || d.Size() != r.items.size()) return false;
            for (size_t i = 0; i < r.items.size(); ++i) ok = ok && same(d.At(i), r.items[i]);
            return ok;
        case Tree::OBJ:
            if (!d.IsObject() || d.Size() != r.items.size()) return false;
            for (size_t i = 0; i < r.items.size(); ++i) ok = ok && d.HasMember(String(r.keys[i])) && same(d.At(String(r.keys[i])), r.items[i]);
            return ok;
    }
    return false;
}
static void warm() { JsonDocument d{String("{\"a\":[1 ,true]}")}; d.ToString(true); }

// ------------------------------------------------------------------ writing and reading back
static const float kFloats[] = {0.1f, 1e20f, 1e-5f, 3.4028235e38f, 1.17549435e-38f, 16777216.0f, 123456.789f, 1e10f, -0.3f};
static const int64_t kInts[] = {INT64_MAX, INT64_MIN, 0, 1000000000000LL};
static Data scalar(Tree& t, bool many)
{
    switch (vx::pick("kind", many ? 6 : 4))
    {
        case 0: { vx::Text x = vx::text("c", 0, many ? 2 : 1, many ? LENS : 1); t.kind = Tree::STR; t.s = x.bytes; return Json::MakeString(x.bytes); }
        case 1: { t.kind = Tree::INT; t.i = many ? (int16_t)sym_u16("i") : (int)sym_below("i", 10) - 5; return Json::MakeIntegral(t.i); }
        case 2: t.kind = Tree::BOOL; t.b = vx::flip("b"); return Json::MakeBoolean(t.b);
        case 3: return Json::MakeNull();
        case 4:
        {
            t.kind = Tree::FLT;
            if (many) { unsigned k = vx::pick("float", 9 + 16); t.f = k < 9 ? kFloats[k] : ((int)k - 17) / 8.0f; }
            else t.f = vx::flip("whole") ? 2.0f : 2.5f;
            return Json::MakeFloating(t.f);
        }
        default: { t.kind = Tree::INT; t.i = kInts[many ? vx::pick("int", 4) : 0]; return Data(t.i); }
    }
}
static void round_trip(JsonDocument& d, const std::vector<std::string>& keys, const std::vector<Tree>& vals, bool few = false)
{
    unsigned how = few ? 3 * vx::pick("layout", 2) : vx::pick("layout", 4);
    String text = how ? d.ToString(true, how - 1) : d.ToString();
    JsonDocument e(text);
    sym_check(!e.HasError(), "what was written can be read");
    sym_check(e.Size() == keys.size(), "as many members");
    for (size_t i = 0; i < keys.size(); ++i)
    {
        sym_check(e.HasMember(String(keys[i])), "the member is there");
        const JsonDocument& c = e;
        sym_check(same(c[String(keys[i])], vals[i]), "with the same value");
    }
    sym_cover("read back");
}
VX_HARNESS(jv_scalar)
{
    warm();
    JsonDocument d;
    std::vector<std::string> keys(1, "k");
    std::vector<Tree> vals(1);
    d["k"] = scalar(vals[0], true);
    round_trip(d, keys, vals);
}
VX_HARNESS(jv_key)
{
    warm();
    JsonDocument d;
    vx::Text x = vx::text("c", 0, 2, LENS);
    std::vector<std::string> keys(1, x.bytes);
    std::vector<Tree> vals(1);
    vals[0].kind = Tree::INT; vals[0].i = 1;
    d[String(x.bytes)] = 1;
    round_trip(d, keys, vals);
}
// members that are arrays and objects, nested, empty ones included
VX_HARNESS(jv_tree)
{
    warm();
    JsonDocument d;
    std::vector<std::string> keys;
    std::vector<Tree> vals;
    unsigned n = vx::pick("members", 3);
    for (unsigned m = 0; m < n; ++m)
    {
        std::string k(1, (char)('a' + m));
        Tree t;
        switch (m ? 2 : vx::pick("shape", 5))
        {
            case 0: { Data x = Json::MakeArray(); t.kind = Tree::ARR; unsigned c = vx::pick("elements", m ? 2 : 3); for (unsigned i = 0; i < c; ++i) { t.items.push_back(Tree()); x.Append(scalar(t.items[i], false)); } d[String(k)] = x; break; }
            case 1: { d[String(k)] = Json::MakeObject(); t.kind = Tree::OBJ; unsigned c = vx::pick("inner", 2); if (c) { t.keys.push_back("x"); t.items.push_back(Tree()); d[String(k)]["x"] = scalar(t.items[0], false); } break; }
            case 2: d[String(k)] = scalar(t, false); break;
            case 3: { t.kind = Tree::ARR; t.items.resize(2); t.items[0].kind = Tree::ARR; t.items[1].kind = Tree::OBJ; Data x = Json::MakeArray(); x.Append(Json::MakeArray(), Json::MakeObject()); d[String(k)] = x; break; }
            default: { t.kind = Tree::OBJ; t.keys.push_back("in"); t.items.resize(1); t.items[0].kind = Tree::ARR; t.items[0].items.resize(3); t.items[0].items[2].kind = Tree::BOOL; t.items[0].items[2].b = true; d[String(k)]["in"][2] = true; break; }
        }
        keys.push_back(k); vals.push_back(t);
    }
    round_trip(d, keys, vals);
}

// through streams and files, and texts that are no documents
VX_HARNESS(jv_stream)
{
    warm();
    JsonDocument d;
    Tree t;
    vx::Text x = vx::text("c", 0, 2, 15);
    t.kind = Tree::STR; t.s = x.bytes;
    d["k"] = x.bytes;
    std::ostringstream os;
    os << d;
    std::string text = os.str();
    sym_check(vx::eq(text, d.ToString().str()), "a stream is given the same text");
    unsigned n = vx::pick("cut", 3);
    if (n) text = n == 1 ? std::string() : text.substr(0, text.size() - 1);
    vx_file_set("vx_doc.json", text.data(), text.size());
    JsonDocument e[5];
    { std::istringstream is(text); is >> e[0]; }
    { std::ifstream f("vx_doc.json"); e[1] = JsonDocument(f); }
    { std::ifstream f("vx_doc.json"); e[2] = f; }
    { std::ifstream f("vx_doc.json"); e[3].Parse(f); }
    { std::ifstream f("vx_doc.json"); e[4] = Json::MakeDocument(f); }
    for (int i = 0; i < 5; ++i)
    {
        const JsonDocument& c = e[i];
        sym_check(c.HasError() == (n != 0), "an error exactly for what is no document");
        if (n) { sym_check(c.GetType() == Json::JsonClass::Null && !c.HasMember("k"), "and no content"); continue; }
        sym_check(c.Size() == 1 && c.HasMember("k") && same(c["k"], t), "the same document");
    }
    { std::ifstream f("vx_no_such.json"); JsonDocument none(f); sym_check(none.HasError(), "a file that is not there is no document"); }
    sym_cover(n ? "no document" : "read back");
}

// ------------------------------------------------------------------ histories of values
static const char* const kKeys[] = {"k", "a key that is too long to be stored in place"};
VX_HARNESS(jv_history)
{
    warm();
    int64_t live = sym_live();
    {
        Data d[2];
        Tree t[2];
        for (unsigned step = 0; step < OPS; ++step)
        {
            unsigned op = vx::pick("operation", 11), x = vx::pick("value", 2);
            Data &D = d[x], &E = d[1 - x];
            Tree &T = t[x], &U = t[1 - x];
            Tree n;
            switch (op)
            {
                case 0: n.kind = Tree::INT; n.i = (int32_t)sym_u32("int"); D = (int32_t)n.i; T = n; break;
                case 1: n.kind = Tree::STR; n.s = "a text that is too long to be stored in place"; n.s[3] = (char)vx::scalar("c", 1); D = n.s; T = n; break;
                case 2: { bool k = vx::flip("key"); n.kind = Tree::INT; n.i = (int32_t)sym_u32("int"); D[String(kKeys[k])] = (int32_t)n.i; T.member(kKeys[k]) = n; break; }
                case 3: { bool self = vx::flip("self"); Data& v = self ? D : E; Data& m = D[String("k")]; T.member("k"); n = self ? T : U; m = v; T.member("k") = n; break; }
                case 4: { bool self = vx::flip("self"); Data& m = (self ? D : E)[String("k")]; n = (self ? T : U).member("k"); D = m; T = n; break; }
                case 5: D = E; T = U; break;
                case 6: D = std::move(E); T = U; U = Tree(); break;
                case 7: { Data& m = D[String("k")]; n = T.member("k"); D = std::move(m); T = n; break; }
                case 8: { bool self = vx::flip("self"); n = self ? T : U; D.Append(self ? D : E); if (T.kind != Tree::ARR) { T = Tree(); T.kind = Tree::ARR; } T.items.push_back(n); break; }
                case 9: { unsigned i = vx::pick("index", 3); n.kind = Tree::BOOL; n.b = vx::flip("b"); D[i] = n.b; T.element(i) = n; break; }
                default: { Data c(D); Data m(std::move(E)); D = std::move(m); E = c; std::swap(T, U); break; }
            }
        }
        sym_check(same(d[0], t[0]), "each value has the content it was given (first)");
        sym_check(same(d[1], t[1]), "each value has the content it was given (second)");
        sym_cover("histories");
    }
    sym_check(sym_live() == live, "everything allocated is released");
}
VX_HARNESS(jv_document)
{
    warm();
    int64_t live = sym_live();
    {
        JsonDocument d[2];
        Tree t[2];
        bool isObj[2] = {true, true};
        t[0].kind = t[1].kind = Tree::OBJ;
        for (unsigned step = 0; step < OPS; ++step)
        {
            unsigned op = vx::pick("operation", 7), x = vx::pick("document", 2);
            JsonDocument &D = d[x], &E = d[1 - x];
            Tree &T = t[x], &U = t[1 - x];
            std::string key = kKeys[vx::flip("key")];
            Tree n;
            switch (op)
            {
                case 0: n.kind = Tree::INT; n.i = (int32_t)sym_u32("int"); D.AddMember(String(key), Data((int32_t)n.i)); T.member(key) = n; break;
                case 1: n.kind = Tree::STR; n.s = "a text that is too long to be stored in place"; n.s[5] = (char)vx::scalar("c", 1); D[String(key)] = n.s; T.member(key) = n; break;
                case 2: D.RemoveMember(String(key)); for (size_t i = 0; i < T.keys.size(); ++i) if (T.keys[i] == key) { T.keys.erase(T.keys.begin() + i); T.items.erase(T.items.begin() + i); break; } break;
                case 3: D = E; T = U; break;
                case 4: D = std::move(E); T = U; U = Tree(); break;
                case 5: { JsonDocument c(D), m(std::move(E)); D = std::move(m); E = c; std::swap(T, U); break; }
                default: { bool good = vx::flip("well-formed"); D.Parse(String(good ? "{\"k\":3}" : "{\"k\":3")); T = Tree(); if (good) { n.kind = Tree::INT; n.i = 3; T.member("k") = n; } sym_check(D.HasError() == !good, "an error is reported for what is not a document"); break; }
            }
        }
        for (int x = 0; x < 2; ++x)
        {
            const JsonDocument& c = d[x];
            sym_check((c.GetType() == Json::JsonClass::Object) == (t[x].kind == Tree::OBJ), "an object or nothing");
            if (t[x].kind != Tree::OBJ) continue;
            sym_check(c.Size() == t[x].items.size(), "as many members");
            for (size_t i = 0; i < t[x].items.size(); ++i)
            {
                sym_check(c.HasMember(String(t[x].keys[i])), "the member is there");
                sym_check(same(c[String(t[x].keys[i])], t[x].items[i]), "with its value");
            }
        }
        sym_cover("histories");
    }
    sym_check(sym_live() == live, "everything allocated is released");
}

// ------------------------------------------------------------------ access
static Tree part()            // a number, a boolean, an empty text or null
{
    Tree v;
    static const Tree::Kind kinds[4] = {Tree::INT, Tree::BOOL, Tree::STR, Tree::NUL};
    v.kind = kinds[vx::pick("part", 4)];
    if (v.kind == Tree::INT) v.i = (int32_t)sym_u32("v");
    return v;
}
static void store(Data& d, const Tree& v)
{
    if (v.kind == Tree::INT) d = (int32_t)v.i;
    else if (v.kind == Tree::BOOL) d = v.b;
    else if (v.kind == Tree::STR) d = v.s;
    else d = Data();
}
VX_HARNESS(jv_access)
{
    warm();
    Tree t;
    Data d;
    unsigned kind = vx::pick("kind", 7), n = 0;
    t.kind = (Tree::Kind)kind;
    switch (kind)
    {
        case Tree::OBJ: d = Json::MakeObject(); n = vx::pick("members", 3); for (unsigned i = 0; i < n; ++i) { Tree v = part(); std::string k(1, (char)('a' + i)); store(d[String(k)], v); t.keys.push_back(k); t.items.push_back(v); } break;
        case Tree::ARR: d = Json::MakeArray(); n = vx::pick("elements", 3); for (unsigned i = 0; i < n; ++i) { Tree v = part(); Data x; store(x, v); d.Append(x); t.items.push_back(v); } break;
        case Tree::STR: t.s = vx::text("c", 0, 1, 1).bytes; d = t.s; break;
        case Tree::FLT: t.f = 2.5f; d = 2.5f; break;
        case Tree::INT: t.i = (int64_t)sym_u64("v"); d = t.i; break;
        case Tree::BOOL: t.b = vx::flip("b"); d = t.b; break;
        default: break;
    }
    const Data& c = d;
    sym_check(same(c, t), "the value is what was stored");
    sym_check((int)c.GetType() == kind, "and its kind");
    // getters of other kinds give that kind's default
    sym_check(c.IsString() || c.GetString().IsEmpty(), "text of another kind is empty");
    sym_check(c.IsIntegral() || c.GetIntegral() == 0, "integer of another kind is zero");
    sym_check(c.IsFloating() || c.GetFloating() == 0, "float of another kind is zero");
    sym_check(c.IsBoolean() || !c.GetBoolean(), "boolean of another kind is false");
    // members
    std::string key = vx::text("key", 0, 1, 1).bytes;
    long have = -1;
    for (size_t i = 0; i < t.keys.size(); ++i) if (vx::eq(t.keys[i], key)) have = (long)i;
    sym_check(c.HasMember(String(key)) == (have >= 0), "has exactly its members");
    const Data* got = nullptr; bool threw = false, other = false;
    try { got = &c.At(String(key)); } catch (const std::exception&) { threw = true; } catch (...) { other = true; }
    sym_check(!other && threw == (have < 0), "a member that is not there is an exception");
    if (have >= 0) { sym_check(same(*got, t.items[have]), "a member that is there is given"); sym_cover("member"); } else sym_cover("no member");
    // elements
    uint64_t idx = sym_u64("index");
    bool in = kind == Tree::ARR && idx < n;
    in = sym_decide(in);
    threw = other = false;
    try { got = &c.At((SizeType)idx); } catch (const std::exception&) { threw = true; } catch (...) { other = true; }
    sym_check(!other && threw == !in, "an element that is not there is an exception");
    if (in) { sym_check(same(*got, t.items[sym_concretize(idx)]), "an element that is there is given"); sym_cover("element"); } else sym_cover("no element");
    threw = other = false;
    try { d.GetData(); } catch (const std::exception&) { threw = true; } catch (...) { other = true; }
    sym_check(!other && threw == (kind != Tree::OBJ), "members of what is no object are an exception");
    sym_check(kind == Tree::OBJ || kind == Tree::ARR ? c.Size() == n : true, "size");
    sym_check(same(c, t), "looking changes nothing");
}

// ---------------------------------------------------------------- larger values
#ifndef DEEP
#define DEEP 0
#endif
static Tree leaf(unsigned i)
{
    Tree n;
    switch (i % 5)
    {
        case 0: n.kind = Tree::INT; n.i = (int64_t)i * 1000003 - 7; break;
        case 1: n.kind = Tree::STR; n.s = i % 2 ? "short" : "a text that is too long to be stored in place"; break;
        case 2: n.kind = Tree::BOOL; n.b = i % 4 == 2; break;
        case 3: break;
        default: n.kind = Tree::FLT; n.f = (float)i / 4 - 3; break;
    }
    return n;
}
static void fill(Data& d, const Tree& t)            // through the operators
{
    switch (t.kind)
    {
        case Tree::NUL: d = Data(); break;
        case Tree::STR: d = t.s; break;
        case Tree::INT: d = t.i; break;
        case Tree::FLT: d = t.f; break;
        case Tree::BOOL: d = t.b; break;
        case Tree::ARR: d = Json::MakeArray(); for (size_t i = 0; i < t.items.size(); ++i) { if (i % 2) d[(SizeType)i] = Data(); else d.Append(Data()); fill(d[(SizeType)i], t.items[i]); } break;
        case Tree::OBJ: d = Json::MakeObject(); for (size_t i = 0; i < t.items.size(); ++i) fill(d[String(t.keys[i])], t.items[i]); break;
    }
}
static std::string keyOf(unsigned i) { std::string k = i % 3 ? "k" : "a key that is too long to be stored in place "; do k += (char)('0' + i % 10); while (i /= 10); return k; }
// an object or array of n leaves, the one in the middle an array of m leaves; or a chain of objects and arrays
static Tree big(unsigned shape, unsigned n)
{
    Tree t;
    if (shape == 2)
    {
        t = leaf(n);
        for (unsigned i = 0; i < n; ++i) { Tree o; if (i % 2) { o.kind = Tree::ARR; o.items.push_back(leaf(i)); o.items.push_back(t); } else { o.kind = Tree::OBJ; o.keys.push_back("k"); o.items.push_back(t); o.keys.push_back(keyOf(i)); o.items.push_back(leaf(i)); } t = o; }
        return t;
    }
    t.kind = shape ? Tree::ARR : Tree::OBJ;
    for (unsigned i = 0; i < n; ++i)
    {
        if (!shape) t.keys.push_back(i == 1 ? "k" : keyOf(i));
        if (i == n / 2) { Tree a; a.kind = Tree::ARR; for (unsigned j = 0; j < n / 2; ++j) a.items.push_back(leaf(j + 2)); t.items.push_back(a); }
        else t.items.push_back(leaf(i));
    }
    return t;
}
#if DEEP
static const unsigned kSizes[] = {6, 20, 1, 45};
#else
static const unsigned kSizes[] = {20};
#endif
static const unsigned NSIZES = sizeof kSizes / sizeof *kSizes;
VX_HARNESS(jv_big_tree)
{
    warm();
    JsonDocument d;
    std::vector<std::string> keys;
    std::vector<Tree> vals;
    unsigned shape = vx::pick("shape", 3), n = kSizes[vx::pick("size", NSIZES)], members = 1 + 11 * vx::pick("members", 2);
    for (unsigned i = 0; i < members; ++i)
    {
        Tree t = i == members / 2 ? big(shape, n) : leaf(i);
        if (i == members / 3 && members > 1)
        {
            unsigned l = 1 + vx::pick("bytes", 4);
            t = Tree(); t.kind = Tree::STR;
            t.s = i % 2 ? "" : std::string(DEEP ? 300 : 100, 'w');
            vx::put8(t.s, vx::scalar("c", l), l);
            t.s += "\n\"\\\x7F and so on";
        }
        keys.push_back(keyOf(i)); vals.push_back(t);
        fill(d[String(keys.back())], t);
    }
    round_trip(d, keys, vals, !DEEP);
}
VX_HARNESS(jv_big_history)
{
    warm();
    int64_t live = sym_live();
    {
        Data d[2];
        Tree t[2];
        unsigned shape = vx::pick("shape", 3), n = kSizes[vx::pick("size", NSIZES)];
        t[0] = big(shape, n); t[1] = big(2, 4);
        fill(d[0], t[0]); fill(d[1], t[1]);
        for (unsigned step = 0; step < OPS; ++step)
        {
            unsigned op = vx::pick("operation", 9), x = vx::pick("value", 2);
            Data &D = d[x], &E = d[1 - x];
            Tree &T = t[x], &U = t[1 - x];
            Tree m;
            switch (op)
            {
                case 0: { for (unsigned i = 0; i < 9; ++i) { m.kind = Tree::INT; m.i = (int32_t)sym_u32("int"); D[String(keyOf(2 * i))] = (int32_t)m.i; T.member(keyOf(2 * i)) = m; } break; }   // old and new members
                case 1: { for (unsigned i = 0; i < 9; ++i) { m = T; if (i > 1) { m = Tree(); m.kind = Tree::BOOL; m.b = i % 2; D.Append((bool)m.b); } else D.Append(D); if (T.kind != Tree::ARR) { T = Tree(); T.kind = Tree::ARR; } T.items.push_back(m); } break; }
                case 2: { unsigned i = vx::pick("index", 2) * 25 + 3; m.kind = Tree::STR; m.s = "a text that is too long to be stored in place"; D[(SizeType)i] = m.s; T.element(i) = m; break; }
                case 3: D = E; T = U; break;
                case 4: D = std::move(E); T = U; U = Tree(); break;
                case 5: { Data& c = D[String("k")][(SizeType)1]; m = T.member("k").element(1); D = c; T = m; break; }              // from an own descendant
                case 6: { Data& c = D[String("k")][(SizeType)1]; m = T.member("k").element(1); D = std::move(c); T = m; break; }
                case 7: { Data& c = D[String("k")]; T.member("k"); m = T; c = D; T.member("k") = m; break; }                     // into an own descendant
                default: { Data& c = D[(SizeType)1]; T.element(1); m = U; c = E; T.element(1) = m; break; }
            }
        }
        sym_check(same(d[0], t[0]), "each value has the content it was given (first)");
        sym_check(same(d[1], t[1]), "each value has the content it was given (second)");
        sym_cover("histories");
    }
    sym_check(sym_live() == live, "everything allocated is released");
}
// members whose keys differ in one character only, at any place; elements of arrays of any size
#ifndef SIZES
#define SIZES 24
#endif
VX_HARNESS(jv_access_sizes)
{
    warm();
    const unsigned n = vx::pick("size", SIZES + 1);
    if (vx::flip("elements"))
    {
        Data d = Json::MakeArray();
        for (unsigned i = 0; i < n; ++i) { Data x; x = (int64_t)i * 3; d.Append(x); }
        const Data& c = d;
        const uint64_t idx = sym_u64("index");
        const bool in = sym_decide(idx < n);
        bool threw = false;
        try { const Data& x = c.At((SizeType)idx); sym_check(in && x.IsIntegral() && x.GetIntegral() == (int64_t)sym_concretize(idx) * 3, "an element that is there is given"); } catch (const std::exception&) { threw = true; }
        sym_check(threw == !in, "an element that is not there is an exception");
        if (in) { d[(SizeType)sym_concretize(idx)] = true; sym_check(c.Size() == n && c.At((SizeType)sym_concretize(idx)).IsBoolean(), "an element is replaced"); }
        sym_cover(in ? "element" : "no element");
        return;
    }
    JsonDocument doc;
    // n + 1 keys of n + 1 characters, each with another character at its own place
    std::vector<std::string> keys;
    for (unsigned i = 0; i <= n; ++i) { std::string k(n + 1, 'k'); k[i] = (char)('0' + i % 10); keys.push_back(k); doc[String(k)] = (int64_t)i; }
    const JsonDocument& c = doc;
    sym_check(c.Size() == n + 1, "size");
    const unsigned at = vx::pick("at", 3), i = at == 0 ? 0 : at == 1 ? n / 2 : n;
    sym_check(c.HasMember(String(keys[i])) && c[String(keys[i])].GetIntegral() == (int64_t)i, "a member that is there is given");
    std::string other = keys[i];
    other[i] = (char)sym_u8("c"); sym_assume(other[i] >= 1);
    const bool same = sym_decide(other[i] == keys[i][i]);
    bool threw = false;
    sym_check(c.HasMember(String(other)) == same, "has exactly its members");
    try { c[String(other)]; } catch (const std::exception&) { threw = true; }
    sym_check(threw == !same, "a member that is not there is an exception");
    if (n) { sym_check(!c.HasMember(String(keys[i].substr(0, n))) && !c.HasMember(String(keys[i] + "k")) && !c.HasMember(String(keys[i].substr(1))), "no member of a part of a key"); }
    doc[String(keys[i])] = true;
    sym_check(c.Size() == n + 1 && c[String(keys[i])].IsBoolean(), "a member is replaced");
    for (unsigned k = 0; k <= n; ++k) if (k != i) sym_check(c[String(keys[k])].IsIntegral() && c[String(keys[k])].GetIntegral() == (int64_t)k, "and no other one");
    doc.RemoveMember(String(keys[i]));
    sym_check(c.Size() == n && !c.HasMember(String(keys[i])) && (n == 0 || c.HasMember(String(keys[i ? 0 : n]))), "a member is removed");
    sym_cover(same ? "member" : "no member");
}
