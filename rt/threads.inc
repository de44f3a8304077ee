// Native replay of threads: included by replay.cpp when VX_THREADS is set.  The harness is compiled with
// -fsanitize=thread but not linked with its runtime: the calls the compiler puts at every memory access and
// atomic operation come here.  One thread runs at a time and the recorded "schedule" inputs say which; every access
// is checked against the happens-before order and against freed memory.
#include <condition_variable>
#include <mutex>
#include <pthread.h>
namespace vxt {
enum { kMax = 4 };
typedef std::array<uint32_t, kMax> Clock;
struct Cell { Clock w{}, r{}, aw{}, ar{}; };
struct Sched
{
    std::mutex m; std::condition_variable cv;
    int n = 1, current = 0, joining = -1;
    bool finished[kMax] = {}, decided = false;
    Clock vc[kMax] = {}, rel[kMax] = {}, acq[kMax] = {};
    std::map<uintptr_t, Cell> cells;
    std::map<uintptr_t, Clock> released;
    std::map<uintptr_t, std::pair<size_t, bool>> blocks;      // heap blocks: size, freed
    std::vector<std::thread*> threads;
};
static Sched* S;
static thread_local int me = 0;
static thread_local int inside = 0;
static thread_local uintptr_t stackLo = 0, stackHi = 0;
static bool active() { return S && S->n > 1 && !inside; }
struct In { In() { ++inside; } ~In() { --inside; } };
static void wait(std::unique_lock<std::mutex>& l) { S->cv.wait(l, [] { return S->current == me; }); }
static std::vector<int> runnable() { std::vector<int> r; for (int i = 0; i < S->n; ++i) if (i != me && i != S->joining && !S->finished[i]) r.push_back(i); return r; }
static void point()
{
    if (!active()) return;
    In in;
    std::unique_lock<std::mutex> l(S->m);
    if (S->decided) { S->decided = false; return; }
    if (runnable().empty()) return;
    int t = (int)next("schedule");
    if (t == me) return;
    S->decided = true; S->current = t; S->cv.notify_all();
    wait(l);
    S->decided = false;
}
static void leave(bool joining)     // the current thread stops or waits
{
    std::vector<int> r = runnable();
    if (r.empty()) { if (S->joining >= 0) S->current = S->joining; }
    else if (r.size() == 1) S->current = r[0];
    else { S->current = (int)next("schedule"); S->decided = true; }
    (void)joining;
    S->cv.notify_all();
}
static void bounds()
{
    if (stackHi) return;
    pthread_attr_t a; void* lo; size_t n;
    pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
    stackLo = (uintptr_t)lo; stackHi = stackLo + n;
}
enum { Read = 0, Write = 1, Atomic = 2 };
static void touch(const void* p, size_t n, int k)
{
    if (!S || inside) return;
    In in;
    uintptr_t a = (uintptr_t)p;
    auto b = S->blocks.upper_bound(a);
    if (b != S->blocks.begin()) { --b; if (a < b->first + b->second.first && b->second.second) finish("memory access to freed memory\n"); }
    if (S->n < 2) return;
    bounds();
    if (a >= stackLo && a < stackHi) return;
    const Clock& c = S->vc[me];
    auto before = [&](const Clock& x) { for (int i = 0; i < kMax; ++i) if (x[i] > c[i]) return false; return true; };
    for (size_t i = 0; i < n; ++i)
    {
        Cell& e = S->cells[a + i];
        bool ok = before(e.w);
        if (!(k & Atomic)) ok = ok && before(e.aw);
        if (k & Write) { ok = ok && before(e.r); if (!(k & Atomic)) ok = ok && before(e.ar); }
        if (!ok) finish("race data race\n");
        Clock& x = k & Atomic ? (k & Write ? e.aw : e.ar) : (k & Write ? e.w : e.r);
        x[me] = c[me];
    }
}
static void join(Clock& a, const Clock& b) { for (int i = 0; i < kMax; ++i) a[i] = std::max(a[i], b[i]); }
static bool acqO(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool relO(int o) { return o == 3 || o == 4 || o == 5; }
static void sync(const volatile void* p, bool load, bool store, bool rmw, int o)
{
    if (!active()) return;
    In in;
    auto it = S->released.find((uintptr_t)p);
    if (load && it != S->released.end()) join(acqO(o) ? S->vc[me] : S->acq[me], it->second);
    if (store)
    {
        Clock c = relO(o) ? S->vc[me] : S->rel[me];
        if (rmw && it != S->released.end()) join(c, it->second);
        S->released[(uintptr_t)p] = c;
        ++S->vc[me][me];
    }
}
static void fence(int o)
{
    if (!active()) return;
    In in;
    if (acqO(o)) join(S->vc[me], S->acq[me]);
    if (relO(o)) { S->rel[me] = S->vc[me]; ++S->vc[me][me]; }
}
static void freed(void* p)
{
    if (!p) return;
    if (!S || inside) { free(p); return; }
    bool doubled = false; size_t n = 0; bool known = false;
    { In in; auto it = S->blocks.find((uintptr_t)p); known = it != S->blocks.end(); if (known) { doubled = it->second.second; n = it->second.first; } }
    if (!known) { free(p); return; }
    if (doubled) finish("memory double free\n");
    touch(p, n, Write);
    { In in; S->blocks[(uintptr_t)p].second = true; }       // kept: the address is never used again
    --gLive;
}
static void* made(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    if (S && !inside) { In in; S->blocks[(uintptr_t)p] = {n, false}; ++gLive; }
    return p;
}
}
void* operator new(size_t n) { return vxt::made(n); }
void* operator new[](size_t n) { return vxt::made(n); }
void operator delete(void* p) noexcept { vxt::freed(p); }
void operator delete[](void* p) noexcept { vxt::freed(p); }
void operator delete(void* p, size_t) noexcept { vxt::freed(p); }
void operator delete[](void* p, size_t) noexcept { vxt::freed(p); }
extern "C" {
void sym_yield() { vxt::point(); }
void sym_spawn(void (*f)(void*), void* a)
{
    vxt::In in;
    vxt::Sched* S = vxt::S;
    std::unique_lock<std::mutex> l(S->m);
    int t = S->n++;
    if (t == 1) S->vc[0][0] = 1;
    S->vc[t] = S->vc[vxt::me]; S->vc[t][t] = 1; ++S->vc[vxt::me][vxt::me];
    S->threads.push_back(new std::thread([f, a, t] {
        { vxt::In in2; vxt::me = t; vxt::bounds(); std::unique_lock<std::mutex> l2(vxt::S->m); vxt::wait(l2); }
        f(a);
        { vxt::In in2; std::unique_lock<std::mutex> l2(vxt::S->m); vxt::S->finished[t] = true; vxt::leave(false); }
    }));
}
void sym_join_all()
{
    vxt::In in;
    vxt::Sched* S = vxt::S;
    if (S->n < 2) return;
    std::unique_lock<std::mutex> l(S->m);
    if (!vxt::runnable().empty())
    {
        S->joining = vxt::me;
        vxt::leave(true);
        vxt::wait(l);
        S->joining = -1;
    }
    for (int i = 0; i < S->n; ++i) vxt::join(S->vc[vxt::me], S->vc[i]);
    S->decided = false;
    l.unlock();
    for (auto* t : S->threads) t->join();
    S->threads.clear();
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { vxt::touch(p, N, 0); } void __tsan_write##N(void* p) { vxt::touch(p, N, 1); } \
  void __tsan_unaligned_read##N(void* p) { vxt::touch(p, N, 0); } void __tsan_unaligned_write##N(void* p) { vxt::touch(p, N, 1); } \
  void __tsan_volatile_read##N(void* p) { vxt::touch(p, N, 0); } void __tsan_volatile_write##N(void* p) { vxt::touch(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { vxt::touch(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { vxt::touch(p, n, 1); }
void __tsan_vptr_update(void** p, void*) { vxt::touch(p, 8, 1); }
void __tsan_vptr_read(void** p) { vxt::touch(p, 8, 0); }
void __tsan_atomic_thread_fence(int o) { vxt::fence(o); }
void __tsan_atomic_signal_fence(int) {}
#define AT(T, N) \
  T __tsan_atomic##N##_load(const volatile T* p, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 2); T v = *p; vxt::sync(p, true, false, false, o); return v; } \
  void __tsan_atomic##N##_store(volatile T* p, T v, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 3); *p = v; vxt::sync(p, false, true, false, o); } \
  static T rmw##N(volatile T* p, T n, int o) { T v = *p; *p = n; vxt::sync(p, true, true, true, o); return v; } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 3); return rmw##N(p, v, o); } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 3); return rmw##N(p, (T)(*p + v), o); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 3); return rmw##N(p, (T)(*p - v), o); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 3); return rmw##N(p, (T)(*p & v), o); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 3); return rmw##N(p, (T)(*p | v), o); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int o) { vxt::point(); vxt::touch((const void*)p, sizeof(T), 3); return rmw##N(p, (T)(*p ^ v), o); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int fo) { vxt::point(); bool ok = *p == *c; vxt::touch((const void*)p, sizeof(T), ok ? 3 : 2); \
    if (ok) { rmw##N(p, v, o); return 1; } *c = *p; vxt::sync(p, true, false, false, fo); return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int fo) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, o, fo); }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
}
