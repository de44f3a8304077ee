// Native meaning of the harness interface: replays recorded input vectors
// against the real build.  usage: replay HARNESS VECTORS TIMEOUT
// VECTORS: lines "v" (start of a vector), "i NAME VALUE", "." (end).
// Every vector runs in a forked child; one result line per vector on stdout.
#include "vxlib.h"
#include <array>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>

static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
VxReg::VxReg(const char* n, void (*f)()) { reg()[n] = f; }

typedef std::vector<std::pair<std::string, uint64_t>> Vec;
static std::map<std::string, std::deque<uint64_t>>* gIn;
static int gOut = 1;
static std::atomic<long> gLive{0};
static bool gCount = false;
static std::string* gOuts;

#if !defined VX_NO_LIVE && !defined VX_THREADS
// live-object accounting for sym_live (the engine counts the same events)
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++gLive; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++gLive; return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++gLive; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++gLive; return p; }
void operator delete(void* p) noexcept { if (p) { --gLive; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --gLive; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --gLive; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --gLive; free(p); } }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) { --gLive; free(p); } }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) { --gLive; free(p); } }
#endif

static void say(const std::string& s) { ssize_t r = write(gOut, s.data(), s.size()); (void)r; }
static void finish(const std::string& s) { say(s); _exit(0); }
static uint64_t next(const char* n)
{
    long keep = gLive;
    auto& q = (*gIn)[n];
    uint64_t v = 0;
    if (!q.empty()) { v = q.front(); q.pop_front(); }
    gLive = keep;
    return v;
}
extern "C" {
uint8_t sym_u8(const char* n) { return (uint8_t)next(n); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n); }
uint64_t sym_u64(const char* n) { return next(n); }
uint64_t sym_below(const char* n, uint64_t k) { return k < 2 ? 0 : next(n); }
void sym_assume(bool b) { if (!b) finish("assume\n"); }
void sym_check(bool b, const char* l) { if (!b) finish(std::string("check ") + l + "\n"); }
void sym_cover(const char*) {}
void sym_out(uint64_t v) { long keep = gLive; char b[32]; snprintf(b, sizeof b, " %llu", (unsigned long long)v); *gOuts += b; gLive = keep; }
void sym_note(const char*, uint64_t) {}
uint64_t sym_concretize(uint64_t v) { return v; }
bool sym_decide(bool b) { return b; }
int64_t sym_live() { return gLive; }
int sym_engine() { return 0; }
void sym_fail(const char* l) { finish(std::string("check ") + l + "\n"); }
void sym_violation(const char* k, const char* l) { finish(std::string(k) + " " + l + "\n"); }
void sym_unsupported(const char* m) { finish(std::string("unsupported ") + m + "\n"); }
void sym_end() { finish("end\n"); }
bool sym_is_valid_ptr(const void*, size_t) { return true; }
#ifndef VX_THREADS
void sym_yield() {}
void sym_spawn(void (*)(void*), void*) { finish("unsupported threads\n"); }
void sym_join_all() {}
#endif
void sym_fmt_double(char* b, size_t c, double v, char conv, int prec) { char f[16]; snprintf(f, sizeof f, "%%.*%c", conv); snprintf(b, c, f, prec, v); }
double sym_parse_double(const char* s, size_t* u, int* er) { char* e; errno = 0; double v = strtod(s, &e); *u = e - s; *er = errno == ERANGE; return v; }
float sym_parse_float(const char* s, size_t* u, int* er) { char* e; errno = 0; float v = strtof(s, &e); *u = e - s; *er = errno == ERANGE; return v; }
// files: real ones, in a scratch directory that is the working directory
void vx_file_set(const char* n, const char* d, size_t len) { std::ofstream f(n, std::ios::binary | std::ios::trunc); f.write(d, (std::streamsize)len); }
void vx_clock_stop() {}
long vx_file_get(const char* n, char* d, size_t cap)
{
    int fd = open(n, O_RDONLY); if (fd < 0) return -1;
    long r = 0, k; char b[4096];
    while ((k = read(fd, b, sizeof b)) > 0) { for (long i = 0; i < k; ++i) if ((size_t)(r + i) < cap) d[r + i] = b[i]; r += k; }
    close(fd); return r;
}
const char* __asan_default_options() { return "exitcode=98:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=0:alloc_dealloc_mismatch=1"; }
const char* __ubsan_default_options() { return "halt_on_error=0:print_stacktrace=0"; }
}

#ifdef VX_THREADS
#include "threads.inc"
#endif

int main(int argc, char** argv)
{
    if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
    if (!strcmp(argv[1], "--list")) { for (auto& r : reg()) puts(r.first.c_str()); return 0; }
    auto it = reg().find(argv[1]);
    if (it == reg().end()) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    int limit = atoi(argv[3]);
    std::ifstream f(argv[2]);
    std::vector<Vec> vs;
    std::string l;
    while (std::getline(f, l))
    {
        std::istringstream is(l); std::string k; is >> k;
        if (k == "v") vs.emplace_back();
        else if (k == "i") { uint64_t v; is >> v; std::string n; is.get(); std::getline(is, n); vs.back().push_back({n, v}); }
    }
    char dir[] = "/tmp/vxreplayXXXXXX";
    if (!mkdtemp(dir) || chdir(dir)) return 2;
    for (size_t i = 0; i < vs.size(); ++i)
    {
        if (DIR* dd = opendir(".")) { while (dirent* e = readdir(dd)) unlink(e->d_name); closedir(dd); }      // every vector starts in an empty directory
        int p[2]; if (pipe(p)) return 2;
        fflush(stdout);
        pid_t c = fork();
        if (!c)
        {
            close(p[0]); gOut = p[1];
            int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1);
            if (!getenv("VX_SHOW")) { int e = open("stderr.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(e, 2); }
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = limit; setitimer(ITIMER_REAL, &tv, nullptr);
            gIn = new std::map<std::string, std::deque<uint64_t>>;
            gOuts = new std::string; gOuts->reserve(1 << 18);
            for (auto& x : vs[i]) (*gIn)[x.first].push_back(x.second);
            gLive = 0;
#ifdef VX_THREADS
            vxt::S = new vxt::Sched;
#endif
            it->second();
            finish("ok" + *gOuts + "\n");
        }
        close(p[1]);
        std::string r; char b[4096]; ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)k);
        close(p[0]);
        int st; waitpid(c, &st, 0);
        size_t nl = r.find('\n');
        if (nl != std::string::npos) r.resize(nl);
        if (r.empty())
        {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) r = "timeout";
            else if (WIFSIGNALED(st)) r = "signal " + std::to_string(WTERMSIG(st));
            else r = "exit " + std::to_string(WEXITSTATUS(st));
            std::ifstream e("stderr.txt"); std::string s; std::string first;
            while (std::getline(e, s)) if (s.find("ERROR: AddressSanitizer") != std::string::npos || s.find("terminate called") != std::string::npos || s.find("ssertion") != std::string::npos || s.find("== ") != std::string::npos) { first = s; break; }
            r += " " + first;
        }
        printf("%zu %s\n", i, r.c_str()); fflush(stdout);
    }
    if (chdir("/")) return 2;
    std::string cmd = std::string("/bin/rm -rf ") + dir;
    return system(cmd.c_str()) ? 2 : 0;
}
