#include "vxlib.h"
#include "Caitlyn/__Core/Memory.h"
using namespace Caitlyn;
#ifndef OPS
#define OPS 3
#endif

// objects that know how many of them are alive, in a table that says which
enum { kMax = 2 * OPS + 6 };
static int gAlive[kMax], gNew;
static uint32_t gValue[kMax];
template <class Link>
struct NodeT
{
    uint32_t magic, id, v;
    Link next;
    NodeT* self;
    NodeT() : magic(0xA11FE), id((uint32_t)gNew++), v(sym_u32("value")), self(this) { ++gAlive[id]; gValue[id] = v; }
    NodeT(const NodeT&) = delete;
    ~NodeT() { sym_check(magic == 0xA11FE && self == this && gAlive[id] == 1, "destroyed once"); magic = 0xDEAD; --gAlive[id]; }
};
struct Shared;
struct SharedLinks { SharedPtr<Shared> p; };
struct Shared : NodeT<SharedLinks> { ~Shared(); };
static WeakPtr<Shared>* gWatch;
static bool gWatched;
static int gWatchId;
Shared::~Shared()
{
    if (gWatch && gWatched && (int)id == gWatchId) { gWatched = false; sym_check(gWatch->expired() && gWatch->lock() == nullptr, "expired while the object goes"); }
}

// model: which object each pointer and each object's link refers to (-1: none)
enum { S = 3 };
struct World
{
    SharedPtr<Shared> p[S];
    int m[S], link[kMax];
    Shared* addr[kMax];
    World() { for (int i = 0; i < S; ++i) m[i] = -1; for (int i = 0; i < kMax; ++i) link[i] = -1; }
    Shared* make() { Shared* n = new Shared; addr[n->id] = n; return n; }
    bool reaches(int a, int b) const { for (; a >= 0; a = link[a]) if (a == b) return true; return false; }
    bool alive(int o) const { for (int i = 0; i < S; ++i) if (reaches(m[i], o)) return true; return false; }
    template <class P> static void same(const P& q, int o, Shared* a)
    {
        sym_check(q.Get() == (o < 0 ? nullptr : a), "refers to its object");
        sym_check((q == nullptr) == (o < 0) && (q != nullptr) == (o >= 0), "null exactly when empty");
        bool threw = false; uint32_t v = 0, w = 0;
        try { v = (*q).v; } catch (const std::runtime_error&) { threw = true; }
        sym_check(threw == (o < 0), "dereferencing throws exactly when empty");
        threw = false;
        try { w = q->v; } catch (const std::runtime_error&) { threw = true; }
        sym_check(threw == (o < 0), "member access throws exactly when empty");
        if (o >= 0) sym_check(v == gValue[o] && w == gValue[o], "the object keeps its content");
    }
    void check() const
    {
        for (int o = 0; o < gNew; ++o) sym_check(gAlive[o] == (alive(o) ? 1 : 0), "alive exactly while it has an owner");
        for (int i = 0; i < S; ++i)
        {
            same(p[i], m[i], m[i] < 0 ? nullptr : addr[m[i]]);
            for (int j = 0; j < S; ++j) sym_check((p[i] == p[j]) == (m[i] == m[j]) && (p[i] != p[j]) == (m[i] != m[j]), "equal exactly when they share");
        }
    }
    // slots are interchangeable: an empty pointer is only used when all pointers before it were
    int slot(const char* n) { return vx::pick(n, S); }
    void step()
    {
        unsigned op = vx::pick("operation", 9);
        int t = slot("target");
        SharedPtr<Shared>& D = p[t];
        switch (op)
        {
            case 0: { Shared* n = make(); D = SharedPtr<Shared>(n); m[t] = n->id; break; }
            case 1: { int u = slot("source"); D = p[u]; m[t] = m[u]; break; }
            case 2: { int u = slot("source"); D = std::move(p[u]); if (u != t) { m[t] = m[u]; m[u] = -1; } break; }
            case 3: if (vx::flip("with")) { Shared* n = make(); D.Reset(n); m[t] = n->id; } else { D.Reset(); m[t] = -1; } break;
            case 4: if (vx::flip("with")) { Shared* n = make(); D = n; m[t] = n->id; } else { D.Reset(D.Get()); } break;
            case 5:
                if (m[t] < 0) sym_end();
                if (vx::flip("move")) { int o = m[t]; D = std::move(D->next.p); int l = link[o]; link[o] = -1; m[t] = l; }
                else { D = D->next.p; m[t] = link[m[t]]; }
                break;
            case 6:
            {
                int u = slot("source");
                if (m[t] < 0 || reaches(m[u], m[t])) sym_end();      // no cycles
                D->next.p = p[u]; link[m[t]] = m[u];
                break;
            }
            case 7: { int u = slot("source"); SharedPtr<Shared> q(p[u]); same(q, m[u], m[u] < 0 ? nullptr : addr[m[u]]); int k = m[u]; D.Reset(); m[t] = -1; if (k >= 0) sym_check(gAlive[k] == 1, "kept alive by a copy"); break; }
            default: { SharedPtr<Shared> q(std::move(D)); int k = m[t]; same(q, k, k < 0 ? nullptr : addr[k]); same(D, -1, nullptr); m[t] = -1; }
        }
    }
};
static void begin() { gNew = 0; for (int i = 0; i < kMax; ++i) gAlive[i] = 0; }
// where a history starts: an object with or without a linked one, shared or not
static void start(World& w)
{
    unsigned k = vx::pick("start", 4);
    if (k == 0) return;
    Shared* a = w.make(); w.p[0] = SharedPtr<Shared>(a); w.m[0] = a->id;
    if (k >= 2) { Shared* b = w.make(); a->next.p = SharedPtr<Shared>(b); w.link[a->id] = b->id; if (k == 3) { w.p[1] = a->next.p; w.m[1] = b->id; } }
}
VX_HARNESS(mem_shared)
{
    begin();
    int64_t live = sym_live();
    {
        World w;
        start(w);
        w.check();
        for (int i = 0; i < OPS; ++i) { w.step(); w.check(); }
        sym_cover("histories");
    }
    for (int o = 0; o < gNew; ++o) sym_check(gAlive[o] == 0, "destroyed when the last owner goes");
    sym_check(sym_live() == live, "no memory is left behind");
    sym_out(gNew);
}

// weak pointers: two owners, two observers
VX_HARNESS(mem_weak)
{
    begin();
    int64_t live = sym_live();
    {
        SharedPtr<Shared> p[2];
        WeakPtr<Shared> w[2];
        gWatch = nullptr;
        int m[2] = {-1, -1}, n[2] = {-1, -1};
        Shared* addr[kMax];
        auto make = [&]() { Shared* s = new Shared; addr[s->id] = s; return s; };
        auto alive = [&](int o) { return o >= 0 && (m[0] == o || m[1] == o); };
        if (vx::flip("start")) { Shared* s = make(); p[0] = SharedPtr<Shared>(s); m[0] = s->id; w[0] = p[0]; n[0] = m[0]; }
        for (int i = 0; i < OPS; ++i)
        {
            int t = vx::pick("target", 2), u = vx::pick("source", 2);
            unsigned op = vx::pick("operation", 11);
            gWatch = nullptr;
            if (m[t] >= 0) for (int k = 0; k < 2; ++k) if (n[k] == m[t]) { gWatch = &w[k]; gWatchId = m[t]; }
            gWatched = true;
            switch (op)
            {
                case 0: { Shared* s = make(); p[t] = SharedPtr<Shared>(s); m[t] = s->id; break; }
                case 1: p[t] = p[u]; m[t] = m[u]; break;
                case 2: p[t].Reset(); m[t] = -1; break;
                case 3: gWatch = nullptr; w[t] = p[u]; n[t] = m[u]; break;
                case 4: gWatch = nullptr; w[t] = w[u]; n[t] = n[u]; break;
                case 5: gWatch = nullptr; w[t] = std::move(w[u]); if (t != u) { n[t] = n[u]; n[u] = -1; } else { sym_check((w[t] == nullptr) == !alive(n[t]) || w[t].expired(), "self move"); if (w[t].expired()) n[t] = -1; } break;
                case 6: p[t] = w[u].lock(); m[t] = alive(n[u]) ? n[u] : -1; break;
                case 7: gWatch = nullptr; { WeakPtr<Shared> x(p[u]); sym_check(x.expired() == (m[u] < 0), "made from an owner"); WeakPtr<Shared> y(x), z(std::move(x)); sym_check(y == z && y.lock() == p[u] && x.expired(), "copied and moved"); w[t] = z; n[t] = m[u]; } break;
                case 8: gWatch = nullptr; { int nu = n[u]; WeakPtr<Shared> x(w[u]); w[t] = WeakPtr<Shared>(); n[t] = -1; if (t != u) sym_check(x == w[u], "copy"); w[t] = x; n[t] = nu; } break;
                case 9: { SharedPtr<Shared> q = w[u].lock(); int k = alive(n[u]) ? n[u] : -1; p[0].Reset(); p[1].Reset(); m[0] = m[1] = -1; sym_check(q.Get() == (k < 0 ? nullptr : addr[k]), "locking gives an owner"); if (k >= 0) sym_check(gAlive[k] == 1, "a locked pointer keeps the object"); break; }
                default: p[t] = std::move(p[u]); if (t != u) { m[t] = m[u]; m[u] = -1; }
            }
            for (int o = 0; o < gNew; ++o) sym_check(gAlive[o] == (alive(o) ? 1 : 0), "alive exactly while it has an owner");
            for (int k = 0; k < 2; ++k)
            {
                bool a = alive(n[k]);
                sym_check(w[k].expired() == !a, "expired exactly when the object is gone");
                sym_check((w[k] == nullptr) == !a && (w[k] != nullptr) == a, "null exactly when expired");
                sym_check(w[k].lock().Get() == (a ? addr[n[k]] : nullptr), "locks the object it observes");
                World::same(p[k], m[k], m[k] < 0 ? nullptr : addr[m[k]]);
                bool threw = false; uint32_t v = 0, x = 0;
                try { v = (*w[k]).v; x = w[k]->v; } catch (const std::runtime_error&) { threw = true; }
                sym_check(threw == !a, "access throws exactly when expired");
                if (a) sym_check(v == gValue[n[k]] && x == v, "sees the object");
            }
            if (alive(n[0]) || alive(n[1])) sym_check((w[0] == w[1]) == (n[0] == n[1]) && (w[0] != w[1]) == (n[0] != n[1]), "equal exactly when they observe the same");
        }
        gWatch = nullptr;
        sym_cover("histories");
    }
    for (int o = 0; o < gNew; ++o) sym_check(gAlive[o] == 0, "destroyed when the last owner goes");
    sym_check(sym_live() == live, "no memory is left behind");
    sym_out(gNew);
}

// unique pointers
struct Own;
struct OwnLink { UniquePtr<Own> p; };
struct Own : NodeT<OwnLink> {};
template <class P> static void sameU(const P& q, int o, Own* a)
{
    sym_check(q.Get() == a, "refers to its object");
    sym_check((q == nullptr) == (o < 0) && (q != nullptr) == (o >= 0), "null exactly when empty");
    bool threw = false; uint32_t v = 0, w = 0;
    try { v = (*q).v; } catch (const std::runtime_error&) { threw = true; }
    sym_check(threw == (o < 0), "dereferencing throws exactly when empty");
    threw = false;
    try { w = q->v; } catch (const std::runtime_error&) { threw = true; }
    sym_check(threw == (o < 0), "member access throws exactly when empty");
    if (o >= 0) sym_check(v == gValue[o] && w == gValue[o], "the object keeps its content");
}
VX_HARNESS(mem_unique)
{
    begin();
    int64_t live = sym_live();
    {
        UniquePtr<Own> p[2];
        int m[2] = {-1, -1}, link[kMax];
        Own* addr[kMax];
        for (int i = 0; i < kMax; ++i) link[i] = -1;
        auto make = [&]() { Own* n = new Own; addr[n->id] = n; return n; };
        auto owned = [&](int o) { for (int i = 0; i < 2; ++i) for (int k = m[i]; k >= 0; k = link[k]) if (k == o) return true; return false; };
        unsigned st = vx::pick("start", 3);
        if (st) { Own* a = make(); p[0].Reset(a); m[0] = a->id; if (st == 2) { Own* b = make(); a->next.p = UniquePtr<Own>(b); link[a->id] = b->id; } }
        for (int i = 0; i < OPS; ++i)
        {
            unsigned op = vx::pick("operation", 10);
            int t = vx::pick("target", 2), u = 1 - t;
            UniquePtr<Own>& D = p[t];
            switch (op)
            {
                case 0: { Own* n = make(); D = UniquePtr<Own>(n); m[t] = n->id; break; }
                case 1: D = std::move(p[u]); m[t] = m[u]; m[u] = -1; break;
                case 2: { UniquePtr<Own>& self = D; D = std::move(self); break; }
                case 3: if (vx::flip("with")) { Own* n = make(); D.Reset(n); m[t] = n->id; } else { D.Reset(); m[t] = -1; } break;
                case 4: if (vx::flip("with")) { Own* n = make(); D = n; m[t] = n->id; } else { D = D.Get(); D.Reset(D.Get()); } break;
                case 5:
                    if (m[t] < 0) sym_end();
                    { int k = m[t]; D = std::move(D->next.p); m[t] = link[k]; }
                    break;
                case 6:
                    if (m[t] < 0) sym_end();
                    D->next.p = std::move(p[u]); link[m[t]] = m[u]; m[u] = -1;
                    break;
                case 7:
                {
                    Own* r = D.Release();
                    sym_check(r == (m[t] < 0 ? nullptr : addr[m[t]]) && D.Get() == nullptr, "released");
                    if (m[t] >= 0) sym_check(gAlive[m[t]] == 1, "releasing does not destroy");
                    if (vx::flip("adopt")) { p[u] = r; m[u] = m[t]; } else delete r;
                    m[t] = -1;
                    break;
                }
                case 8: std::swap(p[0], p[1]); std::swap(m[0], m[1]); break;
                default: { UniquePtr<Own> q(std::move(D)); sameU(q, m[t], m[t] < 0 ? nullptr : addr[m[t]]); sameU(D, -1, nullptr); m[t] = -1; }
            }
            for (int o = 0; o < gNew; ++o) sym_check(gAlive[o] == (owned(o) ? 1 : 0), "alive exactly while it is owned");
            for (int k = 0; k < 2; ++k) sameU(p[k], m[k], m[k] < 0 ? nullptr : addr[m[k]]);
            sym_check((p[0] == p[1]) == (m[0] == m[1]) && (p[0] != p[1]) == (m[0] != m[1]), "equal exactly when both are empty");
        }
        sym_cover("histories");
    }
    for (int o = 0; o < gNew; ++o) sym_check(gAlive[o] == 0, "destroyed with its owner");
    sym_check(sym_live() == live, "no memory is left behind");
    sym_out(gNew);
}
// the raw wrapper: never owns, deletes when told to
VX_HARNESS(mem_raw)
{
    begin();
    int64_t live = sym_live();
    {
        Ptr<Own> p[2];
        int m[2] = {-1, -1};
        Own* addr[kMax];
        auto make = [&]() { Own* n = new Own; addr[n->id] = n; return n; };
        bool gone[kMax] = {};
        if (vx::flip("start")) { Own* n = make(); p[0] = Ptr<Own>(n); m[0] = n->id; }
        for (int i = 0; i < OPS; ++i)
        {
            unsigned op = vx::pick("operation", 6);
            int t = vx::pick("target", 2), u = 1 - t;
            switch (op)
            {
                case 0: { Own* n = make(); p[t] = n; m[t] = n->id; break; }
                case 1: p[t] = p[u]; m[t] = m[u]; break;
                case 2: { Own* n = make(); int k = m[t]; p[t].Reset(n); m[t] = n->id; if (k >= 0) { gone[k] = true; if (m[u] == k) { p[u] = nullptr; m[u] = -1; } } break; }
                case 3: p[t].Reset(p[t].Get()); break;
                case 4: { int k = m[t]; if (vx::flip("reset")) p[t].Reset(); else p[t].Destroy(); m[t] = -1; if (k >= 0) { gone[k] = true; if (m[u] == k) { p[u] = nullptr; m[u] = -1; } } break; }
                default: { Ptr<Own> q(p[t]); sameU(q, m[t], m[t] < 0 ? nullptr : addr[m[t]]); }
            }
            for (int o = 0; o < gNew; ++o) sym_check(gAlive[o] == (gone[o] ? 0 : 1), "destroyed exactly when told");
            for (int k = 0; k < 2; ++k) sameU(p[k], m[k], m[k] < 0 ? nullptr : addr[m[k]]);
            sym_check((p[0] == p[1]) == (m[0] == m[1]), "equal exactly when they refer to the same object");
        }
        for (int o = 0; o < gNew; ++o) if (!gone[o]) delete addr[o];
        sym_cover("histories");
    }
    sym_check(sym_live() == live, "no memory is left behind");
    sym_out(gNew);
}
// many owners and observers of one object, all but one given up in one of three orders
#ifndef DEEP
#define DEEP 0
#endif
VX_HARNESS(mem_many)
{
    static const unsigned counts[] = {3, 257, 65536};
    begin();
    unsigned n = counts[vx::pick("count", DEEP ? 3 : 2)], how = vx::pick("made by", 4), watchers = vx::pick("observers", 2) * n, at = vx::pick("kept", 3), order = vx::pick("order", 2);
    if (n > 1000 && (how | watchers | at)) sym_end();
    int64_t live = sym_live();
    {
        WeakPtr<Shared> w;
        std::vector<WeakPtr<Shared>> x(watchers);
        std::vector<SharedPtr<Shared>> v(n);
        uint32_t value;
        {
            SharedPtr<Shared> p(new Shared);
            value = p->v;
            w = p;
            for (unsigned i = 0; i < watchers; ++i) { if (i % 2) x[i] = w; else x[i] = p; }
            for (unsigned i = 0; i < n; ++i) switch (how)
            {
                case 0: v[i] = p; break;
                case 1: { SharedPtr<Shared> q(i ? v[i - 1] : p); v[i] = std::move(q); break; }
                case 2: v[i] = w.lock(); break;
                default: if (watchers) v[i] = x[i].lock(); else v[i] = p; break;
            }
        }
        sym_check(gAlive[0] == 1, "alive while it has an owner");
        unsigned keep = at == 0 ? 0 : at == 1 ? n - 1 : n / 2;
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned k = order ? n - 1 - i : i;
            if (k == keep) continue;
            if (k % 2) v[k].Reset(); else v[k] = SharedPtr<Shared>();
            if (gAlive[0] != 1) break;
        }
        sym_check(gAlive[0] == 1 && v[keep]->v == value && !w.expired() && w.lock() == v[keep], "alive while it has one owner");
        if (watchers && order) x.clear();
        sym_check(gAlive[0] == 1 && !w.expired(), "observers do not matter");
        v[keep].Reset();
        sym_check(gAlive[0] == 0 && w.expired() && w.lock() == nullptr, "destroyed with the last owner");
        for (auto& o : x) if (!o.expired()) sym_check(false, "every observer knows");
        sym_cover("given up");
    }
    sym_check(sym_live() == live, "no memory is left behind");
}
// every number of owners and observers up to a bound
#ifndef SIZES
#define SIZES 70
#endif
VX_HARNESS(mem_sizes)
{
    begin();
    const unsigned n = 1 + vx::pick("owners", SIZES), keep = (unsigned)sym_below("kept", 2) ? n - 1 : n / 2;
    int64_t live = sym_live();
    {
        std::vector<SharedPtr<Shared>> v(n);
        std::vector<WeakPtr<Shared>> o(n % 5 ? n : 0);
        v[0] = SharedPtr<Shared>(new Shared);
        for (unsigned i = 1; i < n; ++i) v[i] = v[i - 1];
        for (auto& x : o) x = v[n / 3];
        for (unsigned i = 0; i < n; ++i) { if (i != keep) v[i].Reset(); sym_check(gAlive[0] == 1, "alive while it has an owner"); }
        bool all = true;
        for (auto& x : o) all = all && !x.expired() && x.lock() == v[keep];
        sym_check(all, "observers see it");
        if (n % 2) o.clear();
        v[keep].Reset();
        sym_check(gAlive[0] == 0, "destroyed with the last owner");
        for (auto& x : o) all = all && x.expired();
        sym_check(all, "observers see that it is gone");
        sym_cover("given up");
    }
    sym_check(sym_live() == live, "no memory is left behind");
}
