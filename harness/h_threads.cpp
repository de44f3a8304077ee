#include "vxlib.h"
#include "Caitlyn/__Core/Memory.h"
using namespace Caitlyn;
#ifndef OPS
#define OPS 1
#endif
#ifndef THREADS
#define THREADS 2
#endif
// one object, its owners spread over threads; each thread does what its script says with its own pointers
static int gAlive;
struct Object
{
    uint32_t v;
    explicit Object(uint32_t x) : v(x) { ++gAlive; }
    ~Object() { v = 0; --gAlive; }
};
struct Script { SharedPtr<Object> mine; WeakPtr<Object> weak; unsigned op[OPS]; uint32_t v; bool keepOwner; };
static void act(void* p)
{
    Script& s = *(Script*)p;
    for (int i = 0; i < OPS; ++i)
        switch (s.op[i])
        {
            case 0: { SharedPtr<Object> c(s.mine); if (c != nullptr) sym_check(c->v == s.v, "a copy sees the object"); break; }
            case 1: if (s.mine != nullptr) sym_check((*s.mine).v == s.v, "an owner sees the object"); break;
            case 2: { SharedPtr<Object> c; c = s.mine; s.mine.Reset(); if (c != nullptr) sym_check(c->v == s.v, "handed over"); s.mine = std::move(c); break; }
            case 3: s.mine.Reset(); break;
#ifdef WEAK
            case 4: { SharedPtr<Object> c = s.weak.lock(); if (c != nullptr) sym_check(c->v == s.v, "a locked pointer sees the object"); else sym_check(s.mine == nullptr, "locking fails only without an owner"); break; }
            case 5: { WeakPtr<Object> w(s.weak); s.weak = WeakPtr<Object>(); s.mine = w.lock(); if (s.mine != nullptr) sym_check(s.mine->v == s.v, "locked"); break; }
            case 6: { s.weak = WeakPtr<Object>(s.mine); break; }
            case 7: { bool e = s.weak.expired(); s.mine.Reset(); if (e) sym_check(s.weak.lock() == nullptr, "expired for good"); break; }
#endif
        }
    s.mine.Reset();
#ifdef WEAK
    s.weak = WeakPtr<Object>();
#endif
}
VX_HARNESS(thr_shared)
{
    gAlive = 0;
    int64_t live = sym_live();
    {
        uint32_t v = sym_u32("value");
        Script s[THREADS];
        SharedPtr<Object> first(new Object(v));
#ifdef WEAK
        const unsigned kinds = 8;
#else
        const unsigned kinds = 4;
#endif
        unsigned code[THREADS];
        for (int t = 0; t < THREADS; ++t)
        {
            code[t] = 0;
            for (int i = 0; i < OPS; ++i) { s[t].op[i] = vx::pick("operation", kinds); code[t] = code[t] * kinds + s[t].op[i]; }
            s[t].v = v;
            if (t && code[t] < code[t - 1]) sym_end();          // threads are interchangeable
        }
        for (int t = 0; t < THREADS; ++t)
        {
#ifdef WEAK
            s[t].weak = WeakPtr<Object>(first);
            if (t == 0) s[t].mine = first;
#else
            s[t].mine = first;
#endif
        }
        for (int t = 0; t < THREADS; ++t) sym_spawn(act, &s[t]);
        first.Reset();
        sym_join_all();
        sym_check(gAlive == 0, "destroyed exactly once, with the last owner");
        sym_cover("schedules");
    }
    sym_check(sym_live() == live, "no memory is left behind");
    sym_out(gAlive);
}
