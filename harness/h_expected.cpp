#include "vxlib.h"
#include "Caitlyn/__Core/Error.h"
using namespace Caitlyn;
#ifndef OPS
#define OPS 3
#endif

// payloads that know whether they are alive and how many of them are
struct Thrown : std::exception {};
static int gAlive = 0, gThrowAt = 0, gCopies = 0;
template <int K>
struct Payload
{
    static const uint32_t kMagic = 0xA11FE000u + K;
    uint32_t magic, v;
    void* self;
    void born() { magic = kMagic; self = this; ++gAlive; }
    void check() const { sym_check(magic == kMagic && self == this, "only live payloads are used"); }
    static void copying() { if (++gCopies == gThrowAt) throw Thrown(); }
    Payload() : v(0) { born(); }
    explicit Payload(uint32_t x) : v(x) { born(); }
    Payload(const Payload& o) : v(o.v) { o.check(); copying(); born(); }
    Payload(Payload&& o) noexcept : v(o.v) { o.check(); o.v = 0; born(); }
    Payload& operator=(const Payload& o) { check(); o.check(); copying(); v = o.v; return *this; }
    Payload& operator=(Payload&& o) noexcept { check(); o.check(); v = o.v; o.v = 0; return *this; }
    ~Payload() { check(); magic = 0xDEAD; --gAlive; }
};
typedef Payload<0> V;
typedef Payload<1> W;
typedef Expected<V, W> X;
struct Model { bool ok; uint32_t v; };

static bool is(const X& x, const Model& m)
{
    if (x.HasValue() != m.ok || x.HasError() == m.ok || (bool)x != m.ok) return false;
    if (m.ok) { x.Get().check(); return x.Get().v == m.v; }
    x.GetError().check();
    return x.GetError().v == m.v;
}
static X make(Model& m, const char* name)
{
    m.ok = vx::flip("success");
    m.v = sym_u32(name);
    if (m.ok) return X(V(m.v));
    return X(Unexpected<W>(W(m.v)));
}
VX_HARNESS(ex_unwrap)
{
    Model m;
    X x = make(m, "payload");
    sym_check(is(x, m), "carries what it was given");
    bool threw = false;
    try { x.Get(); } catch (const std::exception&) { threw = true; }
    sym_check(threw == !m.ok, "the value of an error cannot be had");
    threw = false;
    try { x.GetError(); } catch (const std::exception&) { threw = true; }
    sym_check(threw == m.ok, "the error of a success cannot be had");
    threw = false;
    uint32_t got = 0;
    try { got = x.Expect("message").v; } catch (const std::exception& e) { threw = true; sym_check(std::string(e.what()) == "message", "with the message"); }
    sym_check(threw == !m.ok && (threw || got == m.v), "Expect gives the value or throws");
    threw = false;
    try { got = x.ExpectError("other").v; } catch (const std::exception& e) { threw = true; sym_check(std::string(e.what()) == "other", "with the message"); }
    sym_check(threw == m.ok && (threw || got == m.v), "ExpectError gives the error or throws");
    // the other ways of making one
    uint32_t v = sym_u32("v");
    V lv(v); Unexpected<W> lu{W(v)};
    X a(lv), b(lu), c = MakeCorrect<V, W>(V(v)), d = MakeError(W(v));
    sym_check(is(a, Model{true, v}) && is(b, Model{false, v}) && is(c, Model{true, v}) && is(d, Model{false, v}), "made from a value or an error");
    sym_check(lv.v == v && lu.Get().v == v, "made from a copy");
    sym_cover(m.ok ? "success" : "error");
}
VX_HARNESS(ex_combine)
{
    Model m, r;
    X x = make(m, "payload");
    int calls = 0;
    uint32_t seen = 0, k = sym_u32("k");
    X y = make(r, "result");                    // what a function that gives an Expected gives
    auto fromV = [&](const V& v) { ++calls; seen = v.v; return y; };
    auto fromE = [&](const W& w) { ++calls; seen = w.v; return y; };
    auto good = [&](bool applies, const char* what) { bool g = applies ? (calls == 1 && seen == m.v) : calls == 0; (void)what; return g; };
    switch (vx::pick("combinator", 15))
    {
        case 0: { auto o = x.AndThen(fromV); sym_check(good(m.ok, "") && is(o, m.ok ? r : m), "AndThen"); break; }
        case 1: { auto o = x.OrElse(fromE); sym_check(good(!m.ok, "") && is(o, m.ok ? m : r), "OrElse"); break; }
        case 2: { auto o = x.Then(fromV); sym_check(good(m.ok, "") && is(o, m.ok ? r : m), "Then"); break; }
        case 3: { auto o = x.CatchError(fromE); sym_check(good(!m.ok, "") && is(o, m.ok ? m : r), "CatchError"); break; }
        case 4: { auto o = x.OnError([&](const W& w) { ++calls; seen = w.v; }); sym_check(good(!m.ok, "") && is(o, m), "OnError"); break; }
        case 5:
        {
            auto o = x.Map([&](const V& v) { ++calls; seen = v.v; return v.v ^ k; });
            sym_check(good(m.ok, "") && o.HasValue() == m.ok, "Map applies to a value");
            sym_check(m.ok ? o.Get() == (m.v ^ k) : o.GetError().v == m.v, "Map gives the result");
            break;
        }
        case 6:
        {
            auto o = x.MapError([&](const W& w) { ++calls; seen = w.v; return w.v ^ k; });
            sym_check(good(!m.ok, "") && o.HasValue() == m.ok, "MapError applies to an error");
            sym_check(m.ok ? o.Get().v == m.v : o.GetError() == (m.v ^ k), "MapError gives the result");
            break;
        }
        case 7: { auto o = x.MapError([&](const W& w) { ++calls; seen = w.v; return W(w.v ^ k); }); sym_check(good(!m.ok, "") && is(o, Model{m.ok, m.ok ? m.v : m.v ^ k}), "MapError to the same type"); break; }
        case 8: sym_check(x.UnwrapOr(V(k)).v == (m.ok ? m.v : k), "UnwrapOr"); break;
        case 9: { V o = x.UnwrapOrElse([&](const W& w) { ++calls; seen = w.v; return V(k); }); sym_check(good(!m.ok, "") && o.v == (m.ok ? m.v : k), "UnwrapOrElse"); break; }
        case 10: { V d(k); sym_check(x.UnwrapOrDefault(d).v == (m.ok ? m.v : k), "UnwrapOrDefault"); Expected<uint32_t, W> n = x.Map([&](const V& v) { return v.v; }); sym_check(n.UnwrapOrDefault() == (m.ok ? m.v : 0), "UnwrapOrDefault of the type"); break; }
        case 11:
        {
            bool keep = vx::flip("keep");
            auto o = x.Filter([&](const V& v) { ++calls; seen = v.v; return keep; });
            sym_check(good(m.ok, ""), "Filter looks at a value");
            if (m.ok && !keep) sym_check(o.HasError(), "a value that is filtered out is an error");
            else sym_check(is(o, m), "Filter passes the rest through");
            break;
        }
        case 12: { uint32_t o = x.Fold(k, [&](uint32_t a, const V& v) { ++calls; seen = v.v; return a * 3 + v.v; }); sym_check(good(m.ok, "") && o == (m.ok ? k * 3 + m.v : k), "Fold"); break; }
        case 13: { uint32_t o = x.Customize([&](const X& e) { ++calls; seen = is(e, m) ? m.v : m.v + 1; return k; }); sym_check(good(true, "") && o == k, "Customize"); break; }
        default:
        {
            int ec = 0;
            uint32_t o = x.Inspect([&](const V& v, uint32_t a) { ++calls; seen = v.v; return a; }, [&](const W& w, uint32_t a) { ++ec; seen = w.v; return a + 1; }, k);
            sym_check(calls == (m.ok ? 1 : 0) && ec == (m.ok ? 0 : 1) && seen == m.v && o == (m.ok ? k : k + 1), "Inspect calls the function that applies");
        }
    }
    sym_check(is(x, m), "the expected value itself is not changed");
    sym_cover(m.ok ? "success" : "error");
}
// histories of construction, copies, moves and assignments; contents and lifetimes
static void history(bool faults)
{
    gAlive = gCopies = 0; gThrowAt = 0;
    bool thrownOnce = false;
    {
        Model m[2];
        X a = make(m[0], "first"), b = make(m[1], "second");
        X* e[2] = {&a, &b};
        if (faults) { gCopies = 0; gThrowAt = 1 + vx::pick("copy that throws", 2 * OPS); }
        for (unsigned step = 0; step < OPS; ++step)
        {
            unsigned op = vx::pick("operation", 7), t = vx::pick("target", 2);
            X &D = *e[t], &S = *e[1 - t];
            Model &T = m[t], &U = m[1 - t];
            Model n;
            bool threw = false;
            Model t0 = T, u0 = U;
            try
            {
                switch (op)
                {
                    case 0: D = S; T = U; break;
                    case 1: D = std::move(S); T = U; U.v = 0; break;
                    case 2: D = make(n, "new"); T = n; break;
                    case 3: { X c(S); D = std::move(c); T = U; break; }
                    case 4: { X c(std::move(S)); S = D; D = std::move(c); T = u0; U = t0; break; }
                    case 5: { X& alias = D; D = alias; break; }
                    default: if (T.ok) { D = D.Get(); } else D = Unexpected<W>(D.GetError()); break;   // from its own content
                }
            }
            catch (const Thrown&) { threw = true; thrownOnce = true; T = t0; U = u0; }
            if (threw && op == 4) { U.v = 0; }            // the source had been moved out before
            sym_check(is(D, T), "the target holds what was assigned");
            sym_check(is(S, U), "the other one what it held");
        }
    }
    sym_check(gAlive == 0, "every payload is destroyed exactly once");
    sym_cover("histories");
    if (thrownOnce) sym_cover("a copy threw");
}
VX_HARNESS(ex_history) { history(false); }
VX_HARNESS(ex_faults) { history(true); }
// payload types that are themselves strings: memory must balance
VX_HARNESS(ex_strings)
{
    { String w("warm"); }
    int64_t live = sym_live();
    {
        typedef Expected<String, String> S;
        std::string t1 = "a text that is too long to be stored in place", t2 = t1 + "!";
        t1[2] = (char)vx::scalar("c", 1); t2[2] = (char)vx::scalar("c", 1);
        bool o1 = vx::flip("success"), o2 = vx::flip("success");
        S a = o1 ? S(String(t1)) : S(MakeError(String(t1))), b = o2 ? S(String(t2)) : S(MakeError(String(t2)));
        switch (vx::pick("operation", 3)) { case 0: a = b; break; case 1: a = std::move(b); break; default: { S c(b); b = a; a = std::move(c); b = c = a; } }
        sym_check(a.HasValue() == o2 && vx::eq((o2 ? a.Get() : a.GetError()).str(), t2), "the text that was assigned");
        sym_cover("assigned");
    }
    sym_check(sym_live() == live, "everything allocated is released");
}
