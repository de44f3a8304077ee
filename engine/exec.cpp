// Symbolic executor for LLVM IR.  See DESIGN.md.
#include "exec.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ configuration
static std::string gEntry = "harness";
static std::string gOutPrefix = "/tmp/symx";
static unsigned gJobs = 8;
static double gTimeLimit = 600;
static uint64_t gMaxSteps = 20000000;
static unsigned gMaxViol = 10;
static unsigned gSamples = 8;
static bool gVerbose = false;
static bool gMerge = true;
static std::string gPasses;
static std::vector<uint64_t> gConcrete;   // --concrete: run with these input values
static bool gConcreteMode = false;
static std::string gRepoPrefix = "/repo";
static uint64_t gMaxObj = 1 << 22;
static uint64_t gSeed = 1;

struct Shared
{
    volatile int active;
    volatile int stop;
    volatile int timeout;
    volatile int procs;
    volatile uint64_t violations;
};
static Shared* gSh;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double gStart;

struct PathEnd {};                 // current path is finished (reported already, if need be)
struct Unsupported { std::string msg; };

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> gFns;
static std::unordered_map<uint64_t, FnInfo*> gFnByAddr;
static std::unordered_map<const GlobalValue*, uint64_t> gGlobalAddr;
static std::unordered_map<uint64_t, const GlobalVariable*> gGlobalByAddr;
static std::vector<StateP>* gWork;   // current worklist

// ------------------------------------------------------------------ statistics and results
struct Viol { std::string kind, label, where, stack; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::pair<std::string, uint64_t>> notes; uint64_t cnt = 1; };
static std::map<std::string, Viol> gViol;
static std::map<std::string, uint64_t> gIncomplete;
static std::map<std::string, uint64_t> gCover;
struct Sample { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<uint64_t> outs; };
static std::vector<Sample> gSamplesV;
static uint64_t gPaths = 0, gForks = 0, gSteps = 0, gChecks = 0, gChecksConst = 0, gChecksSolved = 0, gAssumed = 0, gMerges = 0, gMaxDepth = 0;
static uint64_t gRng = 88172645463325252ull;
static uint64_t rnd() { gRng ^= gRng << 13; gRng ^= gRng >> 7; gRng ^= gRng << 17; return gRng; }

static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static inline Val fromE(E e) { Val r; if (isC(e)) r.v = e->val; else r.e = e; return r; }

// ------------------------------------------------------------------ memory
static const unsigned ASH = 24;
static inline uint64_t idOf(uint64_t a) { return a >> ASH; }
static inline uint64_t baseOf(uint64_t id) { return id << ASH; }

static Obj* getObj(State& s, uint64_t id)
{
    uint64_t c = id >> 6;
    if (c >= s.mem.size() || !s.mem[c]) return nullptr;
    return s.mem[c]->o[id & 63].get();
}
static Obj* wrObj(State& s, uint64_t id)
{
    auto& ch = s.mem[id >> 6];
    if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
    auto& o = ch->o[id & 63];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
}
static uint64_t newObj(State& s, uint64_t size, ObjKind k, const char* name, bool undef)
{
    uint64_t id = s.nextId++;
    uint64_t c = id >> 6;
    if (s.mem.size() <= c) s.mem.resize(c + 1);
    if (!s.mem[c]) s.mem[c] = std::make_shared<Chunk>();
    else if (s.mem[c].use_count() > 1) s.mem[c] = std::make_shared<Chunk>(*s.mem[c]);
    auto o = std::make_shared<Obj>();
    o->size = size; o->kind = k; o->name = name;
    o->cb.assign(size, 0);
    if (undef && size) o->undef.assign(size, true);
    s.mem[c]->o[id & 63] = o;
    return baseOf(id);
}
static void freeObj(State& s, uint64_t id)
{
    auto& ch = s.mem[id >> 6];
    if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
    ch->o[id & 63].reset();
    for (auto& p : ch->o) if (p) return;
    if (s.nextId >> 6 != id >> 6) ch.reset();
}

// ------------------------------------------------------------------ reporting
static std::string locOf(const Instruction* I)
{
    if (!I) return "?";
    if (auto* L = I->getDebugLoc().get())
    {
        std::string f = L->getFilename().str();
        return f + ":" + std::to_string(L->getLine());
    }
    return "?";
}
static std::string demangled(const std::string& n) { return llvm::demangle(n); }
static const Instruction* curInst(Frame& f) { return f.pc < f.fn->code.size() ? f.fn->code[f.pc].I : nullptr; }
static std::string whereOf(State& s)
{
    // innermost frame located in the repository, else innermost frame with a location
    for (int i = (int)s.stk().size() - 1; i >= 0; --i)
    {
        Frame& f = *s.stk()[i];
        const Instruction* I = curInst(f);
        if (!I) continue;
        auto* L = I->getDebugLoc().get();
        // innermost inlined location within the repo
        for (const DILocation* d = L; d; d = d->getInlinedAt())
        {
            std::string fn = d->getFilename().str();
            if (fn.rfind(gRepoPrefix, 0) == 0)
            {
                std::string sub = d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "";
                return fn + ":" + std::to_string(d->getLine()) + " (" + sub + ")";
            }
        }
    }
    for (int i = (int)s.stk().size() - 1; i >= 0; --i)
    {
        std::string l = locOf(curInst(*s.stk()[i]));
        if (l != "?") return l;
    }
    return "?";
}
static std::string stackOf(State& s)
{
    std::string r;
    for (int i = (int)s.stk().size() - 1; i >= 0 && i > (int)s.stk().size() - 14; --i)
    {
        Frame& f = *s.stk()[i];
        std::string n = demangled(f.fn->name);
        if (n.size() > 140) n = n.substr(0, 140) + "...";
        r += "#" + std::to_string(s.stk().size() - 1 - i) + " " + n + " at " + locOf(curInst(f)) + "\n";
    }
    return r;
}
static std::vector<std::pair<std::string, uint64_t>> inputsOf(State& s, const std::vector<uint64_t>& m)
{
    std::vector<std::pair<std::string, uint64_t>> r;
    for (auto& p : s.inputs) r.push_back({p.second, p.first < m.size() ? m[p.first] & maskw(gVars[p.first].w) : 0});
    return r;
}
static void report(State& s, const std::string& kind, const std::string& label, const std::vector<uint64_t>& model)
{
    std::string where = whereOf(s);
    std::string key = kind + "|" + label + "|" + where;
    auto it = gViol.find(key);
    if (it != gViol.end()) { ++it->second.cnt; return; }
    if (gViol.size() >= 64) return;
    Viol v; v.kind = kind; v.label = label; v.where = where; v.stack = stackOf(s); v.inputs = inputsOf(s, model);
    for (auto& n : s.notes) v.notes.push_back({n.first, evalE(n.second, model)});
    gViol[key] = v;
    if (__sync_add_and_fetch(&gSh->violations, 1) >= gMaxViol) gSh->stop = 1;
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& label)
{
    report(s, kind, label, *s.model);
    throw PathEnd();
}
static void incomplete(State& s, const std::string& why)
{
    std::string w = why + " at " + whereOf(s);
    if (gIncomplete.size() < 200 || gIncomplete.count(w)) ++gIncomplete[w];
}

// ------------------------------------------------------------------ path condition
static std::vector<uint64_t>& wrModel(State& s)
{
    if (s.model.use_count() > 1) s.model = std::make_shared<std::vector<uint64_t>>(*s.model);
    return *s.model;
}
static void addPc(State& s, E c)
{
    if (isC(c)) return;
    if (c->k == AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
    if (c->k == XOR && isC(c->b) && c->a->k == OR) { addPc(s, mkNot(c->a->a)); addPc(s, mkNot(c->a->b)); return; }
    s.pc.push_back(c);
}
static bool inPc(State& s, E c)
{
    for (size_t i = s.pc.size(), n = 0; i-- > 0 && n < 24; ++n) if (s.pc[i] == c) return true;
    return false;
}
static StateP cloneState(State& s)
{
    StateP n = std::make_unique<State>(s);
    ++gForks;
    ++n->depth; ++s.depth;
    return n;
}
static Frame& top(State& s)
{
    auto& p = s.stk().back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
}
static void checkUninit(State& s, E c);

// Decide a 1-bit expression, forking when both values are possible. The alternative state re-executes the
// current instruction.
static bool decide(State& s, E c)
{
    if (isC(c)) return c->val;
    if (inPc(s, c)) return true;
    E nc = mkNot(c);
    if (inPc(s, nc)) return false;
    if (c->hasUninit) checkUninit(s, c);
    bool side = evalE(c, *s.model) & 1;
    E other = side ? nc : c;
    std::vector<uint64_t> m2 = *s.model;
    Res r = solveWith(s.pc, other, m2, gSolverTimeoutMs);
    if (r == Res::Unknown) incomplete(s, "solver gave up on a branch");
    if (r == Res::Sat)
    {
        ++s.stk().back()->fn->forks;
        StateP alt = cloneState(s);
        alt->model = std::make_shared<std::vector<uint64_t>>(std::move(m2));
        addPc(*alt, other);
        gWork->push_back(std::move(alt));
    }
    if (r != Res::Unsat || true) addPc(s, side ? c : nc);
    return side;
}
// make an expression concrete, forking over its feasible values
static uint64_t concretize(State& s, const Val& v)
{
    if (!v.e) return v.v;
    E e = v.e;
    if (e->k == ITE && e->w <= 64)
    {
        // follow the structure: fewer, more meaningful forks
        return concretize(s, fromE(decide(s, e->a) ? e->b : e->c));
    }
    uint64_t x = evalE(e, *s.model);
    decide(s, mkEq(e, mkConst(x, e->w)));
    return x;
}
static void checkUninit(State& s, E c)
{
    // does the value depend on uninitialised storage? rename the uninitialised variables and compare
    std::map<uint32_t, E> ren;
    std::unordered_map<E, E> memo;
    std::function<E(E)> sub = [&](E e) -> E {
        if (!e || !e->hasUninit) return e;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        E r;
        if (e->k == VAR) { auto& x = ren[(uint32_t)e->val]; if (!x) x = mkVar(e->w, true, "u'"); r = x; }
        else if (e->k == XOR && e->w == 1 && isC(e->b)) r = mkNot(sub(e->a));
        else r = mk(e->k, e->w, sub(e->a), e->b ? sub(e->b) : nullptr, e->c ? sub(e->c) : nullptr, e->val);
        memo[e] = r;
        return r;
    };
    E c2 = sub(c);
    E diff = mk(XOR, 1, c, c2);
    if (isC(diff)) { if (!diff->val) return; }
    std::vector<uint64_t> m = *s.model;
    if (solveWith(s.pc, diff, m, gSolverTimeoutMs) == Res::Sat)
    {
        report(s, "uninitialised", "a decision depends on uninitialised memory", m);
        throw PathEnd();
    }
}

// ------------------------------------------------------------------ memory access
static E uninitByte(State& s)
{
    static std::vector<E> vars;
    uint32_t i = s.nuninit++;
    while (vars.size() <= i) vars.push_back(mkVar(8, true, "uninit" + std::to_string(vars.size())));
    return vars[i];
}
static void memErr(State& s, uint64_t addr, uint64_t n, const char* what)
{
    uint64_t id = idOf(addr);
    std::string k;
    if (id == 0) k = "null-pointer access";
    else if (id >= s.nextId) k = "wild pointer access";
    else if (!getObj(s, id)) k = "use after free or out of scope";
    else k = "out-of-bounds access";
    fail(s, "memory", std::string(k) + " (" + what + ")");
}
// resolve a possibly symbolic address to one object; returns object id and either a concrete or a symbolic in-bounds offset
static uint64_t resolve(State& s, const Val& p, uint64_t n, const char* what, uint64_t& off, E& symOff)
{
    symOff = nullptr;
    if (!p.e)
    {
        uint64_t id = idOf(p.v);
        Obj* o = getObj(s, id);
        off = p.v & ((1ull << ASH) - 1);
        if (!o || off + n > o->size || o->kind == OFunc) memErr(s, p.v, n, what);
        return id;
    }
    E e = p.e;
    if (e->k == ITE && e->w == 64) { Val t = fromE(decide(s, e->a) ? e->b : e->c); return resolve(s, t, n, what, off, symOff); }
    if (e->hasUninit)
    {
        // a pointer read from uninitialised storage
        checkUninit(s, mkEq(e, mkConst(evalE(e, *s.model), 64)));
    }
    uint64_t a = evalE(e, *s.model);
    uint64_t id = idOf(a);
    Obj* o = getObj(s, id);
    if (!o || (a & ((1ull << ASH) - 1)) + n > o->size || o->kind == OFunc) memErr(s, a, n, what);
    // in bounds of this object?
    E rel = mk(SUB, 64, e, mkConst(baseOf(id), 64));
    E inb = mk(ULE, 1, rel, mkConst(o->size - n, 64));
    decide(s, inb);   // the model makes it true; the alternative state re-executes with it false
    off = a & ((1ull << ASH) - 1);
    if (isC(rel)) { off = rel->val; return id; }
    // still several offsets?
    std::vector<uint64_t> m = *s.model;
    if (solveWith(s.pc, mkNot(mkEq(rel, mkConst(off, 64))), m, gSolverTimeoutMs) == Res::Unsat) return id;
    symOff = rel;
    return id;
}
static inline E byteE(State& s, Obj* o, uint64_t i) { (void)s; return (!o->sb.empty() && o->sb[i]) ? o->sb[i] : mkConst(o->cb[i], 8); }
static void defineUndef(State& s, uint64_t id, uint64_t off, uint64_t n)
{
    Obj* o = getObj(s, id);
    if (o->undef.empty()) return;
    bool any = false;
    for (uint64_t i = 0; i < n; ++i) if (o->undef[off + i]) { any = true; break; }
    if (!any) return;
    o = wrObj(s, id);
    if (o->sb.empty()) o->sb.assign(o->size, nullptr);
    for (uint64_t i = 0; i < n; ++i) if (o->undef[off + i]) { o->undef[off + i] = false; o->sb[off + i] = uninitByte(s); }
}
// a byte that is uninitialised only on some of the merged paths: drop the alternatives the path condition excludes
static E settle(State& s, E e)
{
    for (int i = 0; i < 16 && e->k == ITE && e->hasUninit && !e->a->hasUninit; ++i)
    {
        if (inPc(s, e->a)) { e = e->b; continue; }
        E nc = mkNot(e->a);
        if (inPc(s, nc)) { e = e->c; continue; }
        bool side = evalE(e->a, *s.model) & 1;
        std::vector<uint64_t> m2 = *s.model;
        if (solveWith(s.pc, side ? nc : e->a, m2, gSolverTimeoutMs) != Res::Unsat)
        {
            E x = settle(s, e->b), y = settle(s, e->c);
            return x == e->b && y == e->c ? e : mkIte(e->a, x, y);
        }
        e = side ? e->b : e->c;
    }
    return e;
}
static Val readConcrete(State& s, uint64_t id, uint64_t off, unsigned w)
{
    Obj* o = getObj(s, id);
    uint64_t n = (w + 7) / 8;
    if (!o->undef.empty()) { defineUndef(s, id, off, n); o = getObj(s, id); }
    bool sym = false;
    if (!o->sb.empty()) for (uint64_t i = 0; i < n; ++i) if (o->sb[off + i]) { sym = true; break; }
    if (!sym && w <= 64)
    {
        Val r; uint64_t v = 0;
        memcpy(&v, &o->cb[off], n);
        r.v = v & maskw(w);
        return r;
    }
    for (uint64_t i = 0; i < n; ++i)
    {
        E b = o->sb.empty() ? nullptr : o->sb[off + i];
        if (!b || !b->hasUninit || b->k != ITE) continue;
        E b2 = settle(s, b);
        if (b2 == b) continue;
        o = wrObj(s, id);
        if (isC(b2)) { o->cb[off + i] = (uint8_t)b2->val; o->sb[off + i] = nullptr; } else o->sb[off + i] = b2;
    }
    E e = byteE(s, o, off);
    for (uint64_t i = 1; i < n; ++i) e = mkConcat(byteE(s, o, off + i), e);
    if (e->w != w) e = mkExtract(e, 0, w);
    Val r; if (isC(e)) r.v = e->val; else r.e = e;
    return r;
}
static unsigned trailingZeros(E e)
{
    if (isC(e)) return e->val ? __builtin_ctzll(e->val) : 64;
    switch (e->k)
    {
        case CONCAT: { unsigned l = trailingZeros(e->b); return l >= e->b->w ? e->b->w + std::min(trailingZeros(e->a), (unsigned)e->a->w) : l; }
        case ZEXT: case SEXT: return std::min(trailingZeros(e->a), (unsigned)e->a->w);
        case ADD: case SUB: return std::min(trailingZeros(e->a), trailingZeros(e->b));
        case MUL: return std::min(64u, trailingZeros(e->a) + trailingZeros(e->b));
        case ITE: return std::min(trailingZeros(e->b), trailingZeros(e->c));
        case AND: return std::max(trailingZeros(e->a), trailingZeros(e->b));
        default: return 0;
    }
}
static Val loadMem(State& s, const Val& p, unsigned w, const char* what = "read")
{
    uint64_t off; E so;
    uint64_t n = (w + 7) / 8;
    uint64_t id = resolve(s, p, n, what, off, so);
    if (!so) return readConcrete(s, id, off, w);
    Obj* o = getObj(s, id);
    unsigned tz = std::min(trailingZeros(so), 6u);
    uint64_t stride = 1ull << tz;
    uint64_t cnt = (o->size - n) / stride + 1;
    if (cnt > 2048)
    {
        Val ov; ov.e = so;
        uint64_t c = concretize(s, ov);
        return readConcrete(s, id, c, w);
    }
    // build an ite chain, grouping equal values
    E acc = nullptr;
    for (uint64_t i = cnt; i-- > 0;)
    {
        uint64_t f = i * stride;
bool un = false;
        for (uint64_t j = 0; j < n; ++j) un = un || (!o->undef.empty() && o->undef[f + j]) || (!o->sb.empty() && o->sb[f + j] && o->sb[f + j]->hasUninit);
        if (un)
        {
            // an uninitialised slot the offset cannot take is left out
            std::vector<uint64_t> m2 = *s.model;
            if (solveWith(s.pc, mkEq(so, mkConst(f, 64)), m2, gSolverTimeoutMs) == Res::Unsat) continue;
            if (!o->undef.empty()) { defineUndef(s, id, f, n); o = getObj(s, id); }
        }
        E v = toE(readConcrete(s, id, f, w), w);
        if (!acc) acc = v;
        else if (acc != v) acc = mkIte(mk(ULE, 1, so, mkConst(f, 64)), v, acc);   // ordered chain
    }
    if (!acc) throw PathEnd();
    return fromE(acc);
}
static void writeConcrete(State& s, uint64_t id, uint64_t off, const Val& v, unsigned w)
{
    Obj* o = wrObj(s, id);
    uint64_t n = (w + 7) / 8;
    if (!o->undef.empty()) for (uint64_t i = 0; i < n; ++i) o->undef[off + i] = false;
    if (!v.e)
    {
        uint64_t x = v.v & maskw(w);
        memcpy(&o->cb[off], &x, n);
        if (!o->sb.empty()) for (uint64_t i = 0; i < n; ++i) o->sb[off + i] = nullptr;
        return;
    }
    E e = v.e;
    if (e->w != n * 8) e = mkZext(e, n * 8);
    for (uint64_t i = 0; i < n; ++i)
    {
        E b = mkExtract(e, i * 8, 8);
        if (isC(b)) { o->cb[off + i] = b->val; if (!o->sb.empty()) o->sb[off + i] = nullptr; }
        else { if (o->sb.empty()) o->sb.assign(o->size, nullptr); o->sb[off + i] = b; }
    }
}
static void storeMem(State& s, const Val& p, const Val& v, unsigned w, const char* what = "write")
{
    uint64_t off; E so;
    uint64_t n = (w + 7) / 8;
    uint64_t id = resolve(s, p, n, what, off, so);
    Obj* o = getObj(s, id);
    if (o->ro) fail(s, "memory", "write to constant memory");
    if (so)
    {
        unsigned tz = std::min(trailingZeros(so), 6u);
        uint64_t stride = 1ull << tz;
        uint64_t cnt = (o->size - n) / stride + 1;
        if (cnt <= 64)
        {
            for (uint64_t i = 0; i < cnt; ++i)
            {
                uint64_t f = i * stride;
                Val old = readConcrete(s, id, f, w);
                E ne = mkIte(mkEq(so, mkConst(f, 64)), toE(v, w), toE(old, w));
                writeConcrete(s, id, f, fromE(ne), w);
            }
            return;
        }
        Val ov; ov.e = so;
        off = concretize(s, ov);
    }
    writeConcrete(s, id, off, v, w);
}
static Val readByte(State& s, uint64_t addr)
{
    Val p; p.v = addr;
    return loadMem(s, p, 8);
}

// ------------------------------------------------------------------ constants
static uint64_t globalAddr(const GlobalValue* g)
{
    if (auto* ga = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
    auto it = gGlobalAddr.find(g);
    if (it == gGlobalAddr.end()) throw Unsupported{"address of unknown global " + g->getName().str()};
    return it->second;
}
static unsigned typeBits(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static void flatTypes(Type* t, uint64_t off, std::vector<std::pair<uint32_t, uint16_t>>& out)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) flatTypes(st->getElementType(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); ++i) flatTypes(at->getElementType(), off + i * es, out);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t))
    {
        unsigned eb = typeBits(vt->getElementType());
        uint64_t es = (eb + 7) / 8;
        for (unsigned i = 0; i < vt->getNumElements(); ++i) flatTypes(vt->getElementType(), off + i * es, out);
        return;
    }
    unsigned b = typeBits(t);
    if (!b) { if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return; std::string s; raw_string_ostream os(s); t->print(os); throw Unsupported{"type " + s}; }
    out.push_back({(uint32_t)off, (uint16_t)b});
}
static Val evalConst(const Constant* c);
static int64_t constGep(const GEPOperator* g, uint64_t base)
{
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
    return base + off.getSExtValue();
}
static Val evalConst(const Constant* c)
{
    Val r;
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() <= 64) r.v = ci->getZExtValue();
        else if (ci->getBitWidth() <= 128) r.e = mkConcat(mkConst(ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64), ci->getBitWidth() - 64), mkConst(ci->getValue().extractBitsAsZExtValue(64, 0), 64));
        else throw Unsupported{"wide integer constant"};
        return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        if (c->getType()->isX86_FP80Ty()) { bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); r.v = f.bitcastToAPInt().getZExtValue(); return r; }
        r.v = cf->getValueAPF().bitcastToAPInt().getZExtValue();
        return r;
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return r;
    if (auto* gv = dyn_cast<GlobalValue>(c)) { r.v = globalAddr(gv); return r; }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
            case Instruction::GetElementPtr: r.v = constGep(cast<GEPOperator>(ce), evalConst(ce->getOperand(0)).v); return r;
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                r = evalConst(ce->getOperand(0)); r.v &= maskw(typeBits(ce->getType())); return r;
            case Instruction::Trunc: r.v = evalConst(ce->getOperand(0)).v & maskw(typeBits(ce->getType())); return r;
            case Instruction::Add: r.v = (evalConst(ce->getOperand(0)).v + evalConst(ce->getOperand(1)).v) & maskw(typeBits(ce->getType())); return r;
            case Instruction::Sub: r.v = (evalConst(ce->getOperand(0)).v - evalConst(ce->getOperand(1)).v) & maskw(typeBits(ce->getType())); return r;
            case Instruction::ICmp:
            {
                uint64_t a = evalConst(ce->getOperand(0)).v, b = evalConst(ce->getOperand(1)).v;
                switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r.v = a == b; return r; case CmpInst::ICMP_NE: r.v = a != b; return r; default: break; }
                break;
            }
            default: break;
        }
        std::string s; raw_string_ostream os(s); ce->print(os);
        throw Unsupported{"constant expression " + s};
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw Unsupported{"constant " + s};
}
static void flatConst(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i)
        {
            Constant* el = c->getAggregateElement(i);
            if (!el) throw Unsupported{"aggregate constant"};
            flatConst(el, out);
        }
        return;
    }
    out.push_back(evalConst(c));
}
static void initGlobal(Obj* o, const Constant* c, uint64_t off)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef raw = cd->getRawDataValues();
        memcpy(&o->cb[off], raw.data(), raw.size());
        return;
    }
    Type* t = c->getType();
    if (t->isStructTy())
    {
        const StructLayout* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); ++i) initGlobal(o, c->getAggregateElement(i), off + sl->getElementOffset(i));
        return;
    }
    if (t->isArrayTy())
    {
        uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
        for (unsigned i = 0; i < t->getArrayNumElements(); ++i) initGlobal(o, c->getAggregateElement(i), off + i * es);
        return;
    }
    Val v = evalConst(c);
    uint64_t n = DL->getTypeStoreSize(t);
    if (n > 8) throw Unsupported{"wide global initialiser"};
    memcpy(&o->cb[off], &v.v, n);
}

// ------------------------------------------------------------------ decoding
static int nativeId(const std::string& name);
static FnInfo* fnInfo(const Function* F)
{
    auto it = gFns.find(F);
    if (it != gFns.end()) return it->second;
    FnInfo* f = new FnInfo;
    f->F = F; f->name = F->getName().str(); f->decl = F->isDeclaration();
    gFns[F] = f;
    return f;
}
static void decode(FnInfo* f)
{
    if (f->decoded) return;
    f->decoded = true;
    const Function& F = *f->F;
    if (auto* sp = F.getSubprogram())
    {
        std::string fn = sp->getFilename().str();
        f->repo = fn.rfind(gRepoPrefix, 0) == 0;
    }
    std::unordered_map<const Value*, std::pair<uint32_t, uint32_t>> slots;
    uint32_t ns = 0;
    for (auto& A : F.args())
    {
        std::vector<std::pair<uint32_t, uint16_t>> fl; flatTypes(A.getType(), 0, fl);
        if (fl.size() != 1) throw Unsupported{"aggregate argument"};
        slots[&A] = {ns, 1}; f->argSlots.push_back(ns++); f->argWidths.push_back(fl[0].second);
    }
    std::unordered_map<const BasicBlock*, uint32_t> bbn;
    uint32_t nb = 0;
    for (auto& BB : F) bbn[&BB] = nb++;
    for (auto& BB : F)
        for (auto& I : BB)
            if (!I.getType()->isVoidTy())
            {
                std::vector<std::pair<uint32_t, uint16_t>> fl; flatTypes(I.getType(), 0, fl);
                slots[&I] = {ns, (uint32_t)fl.size()}; ns += fl.size();
            }
    f->nslots = ns;
    f->bbs.resize(nb);
    auto addOp = [&](DInst& d, const Value* v) {
        d.starts.push_back(d.ops.size());
        if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return;
        std::vector<std::pair<uint32_t, uint16_t>> fl; flatTypes(v->getType(), 0, fl);
        if (auto* c = dyn_cast<Constant>(v))
        {
            std::vector<Val> vs; flatConst(c, vs);
            for (size_t i = 0; i < vs.size(); ++i) { Opnd o; o.c = true; o.v = vs[i]; d.ops.push_back(o); d.widths.push_back(fl[i].second); }
            return;
        }
        auto it = slots.find(v);
        if (it == slots.end()) throw Unsupported{"operand"};
        for (uint32_t i = 0; i < it->second.second; ++i) { Opnd o; o.c = false; o.slot = it->second.first + i; d.ops.push_back(o); d.widths.push_back(fl[i].second); }
    };
    for (auto& BB : F)
    {
        BBInfo& bi = f->bbs[bbn[&BB]];
        bi.bb = &BB;
        bi.start = f->code.size();
        for (auto& I : BB)
        {
            if (auto* phi = dyn_cast<PHINode>(&I))
            {
                for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
                {
                    DInst tmp; addOp(tmp, phi->getIncomingValue(i));
                    auto& v = bi.phis[bbn[phi->getIncomingBlock(i)]];
                    auto sl = slots[phi];
                    // a predecessor may be listed several times (switch)
                    bool dup = false;
                    for (auto& pc : v) if (pc.dst == sl.first) dup = true;
                    if (dup) continue;
                    for (uint32_t j = 0; j < sl.second; ++j) v.push_back({sl.first + j, tmp.ops[j]});
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            DInst d; d.I = &I; d.opc = I.getOpcode();
            if (auto it = slots.find(&I); it != slots.end()) { d.dst = it->second.first; d.ndst = it->second.second; }
            if (!I.getType()->isVoidTy() && !I.getType()->isAggregateType()) d.w = typeBits(I.getType());
            if (auto* gep = dyn_cast<GetElementPtrInst>(&I))
            {
                addOp(d, gep->getPointerOperand());
                int64_t off = 0;
                for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi)
                {
                    Value* idx = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * sz; continue; }
                    addOp(d, idx);
                    d.gepIdx.push_back({(uint32_t)d.ops.size() - 1, sz});
                }
                d.gepOff = off;
            }
            else if (auto* al = dyn_cast<AllocaInst>(&I))
            {
                d.a0 = DL->getTypeAllocSize(al->getAllocatedType());
                addOp(d, al->getArraySize());
            }
            else if (auto* ev = dyn_cast<ExtractValueInst>(&I))
            {
                addOp(d, ev->getAggregateOperand());
                Type* t = ev->getAggregateOperand()->getType(); unsigned pos = 0;
                for (unsigned ix : ev->indices()) { for (unsigned j = 0; j < ix; ++j) { std::vector<std::pair<uint32_t, uint16_t>> fl; flatTypes(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType(), 0, fl); pos += fl.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
                d.a0 = pos;
            }
            else if (auto* iv = dyn_cast<InsertValueInst>(&I))
            {
                addOp(d, iv->getAggregateOperand()); addOp(d, iv->getInsertedValueOperand());
                Type* t = iv->getAggregateOperand()->getType(); unsigned pos = 0;
                for (unsigned ix : iv->indices()) { for (unsigned j = 0; j < ix; ++j) { std::vector<std::pair<uint32_t, uint16_t>> fl; flatTypes(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType(), 0, fl); pos += fl.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
                d.a0 = pos;
            }
            else if (auto* br = dyn_cast<BranchInst>(&I))
            {
                if (br->isConditional()) { addOp(d, br->getCondition()); d.bb0 = bbn[br->getSuccessor(0)]; d.bb1 = bbn[br->getSuccessor(1)]; }
                else { d.bb0 = bbn[br->getSuccessor(0)]; }
            }
            else if (auto* sw = dyn_cast<SwitchInst>(&I))
            {
                addOp(d, sw->getCondition());
                d.bb0 = bbn[sw->getDefaultDest()];
                for (auto& cs : sw->cases()) d.cases.push_back({cs.getCaseValue()->getZExtValue(), bbn[cs.getCaseSuccessor()]});
            }
            else if (auto* cb = dyn_cast<CallBase>(&I))
            {
                for (auto& a : cb->args()) addOp(d, a.get());
                d.starts.push_back(d.ops.size());
                const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (isa<InlineAsm>(cv)) { d.native = nativeId("!asm"); }
                else if (auto* cf = dyn_cast<Function>(cv)) { d.callee = fnInfo(cf); }
                else addOp(d, cb->getCalledOperand());
                if (auto* inv = dyn_cast<InvokeInst>(&I)) { d.bb0 = bbn[inv->getNormalDest()]; d.bb1 = bbn[inv->getUnwindDest()]; }
            }
            else if (isa<LandingPadInst>(&I)) {}
            else
            {
                for (auto& o : I.operands()) addOp(d, o.get());
                if (auto* ci = dyn_cast<CmpInst>(&I)) d.pred = ci->getPredicate();
                if (isa<LoadInst>(&I)) flatTypes(I.getType(), 0, d.lay);
                if (auto* st = dyn_cast<StoreInst>(&I)) flatTypes(st->getValueOperand()->getType(), 0, d.lay);
                if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) d.a0 = rmw->getOperation();
                if (I.getNumOperands() && !I.getOperand(0)->getType()->isAggregateType() && !I.getOperand(0)->getType()->isLabelTy() && !I.getOperand(0)->getType()->isMetadataTy()) d.w2 = typeBits(I.getOperand(0)->getType());
            }
            d.starts.push_back(d.ops.size());
            f->code.push_back(std::move(d));
        }
    }
}

// ------------------------------------------------------------------ control
static inline Val opv(Frame& f, const Opnd& o) { return o.c ? o.v : f.regs[o.slot]; }
static void setDst(State& s, const DInst& d, const Val& v) { top(s).regs[d.dst] = v; }

static void jump(State& s, uint32_t to)
{
    Frame& f = top(s);
    BBInfo& b = f.fn->bbs[to];
    if (!b.phis.empty())
    {
        auto it = b.phis.find(f.bb);
        if (it != b.phis.end())
        {
            auto& v = it->second;
            if (v.size() == 1) f.regs[v[0].dst] = opv(f, v[0].src);
            else
            {
                static std::vector<Val> tmp; tmp.clear();
                for (auto& c : v) tmp.push_back(opv(f, c.src));
                for (size_t i = 0; i < v.size(); ++i) f.regs[v[i].dst] = tmp[i];
            }
        }
    }
    f.bb = to;
    f.pc = b.start;
}
static void advance(State& s, const DInst& d)
{
    if (d.opc == Instruction::Invoke) jump(s, d.bb0);
    else ++top(s).pc;
}
static void pushFrame(State& s, FnInfo* fn, const std::vector<Val>& args, const DInst* call)
{
    decode(fn);
    if (s.stk().size() > 4000) fail(s, "stack", "call depth exceeds 4000 (unbounded recursion)");
    auto fr = std::make_shared<Frame>();
    fr->fn = fn; fr->regs.resize(fn->nslots); fr->call = call;
    ++fn->calls; fn->executed = true;
    for (size_t i = 0; i < fn->argSlots.size() && i < args.size(); ++i) fr->regs[fn->argSlots[i]] = args[i];
    for (size_t i = fn->argSlots.size(); i < args.size(); ++i) fr->varargs.push_back(args[i]);
    fr->pc = fn->bbs[0].start; fr->bb = 0;
    s.stk().push_back(fr);
}
static void popFrame(State& s)
{
    FrameP f = s.stk().back();
    for (uint64_t id : f->allocas) if (getObj(s, id)) freeObj(s, id);
    s.stk().pop_back();
}

// ------------------------------------------------------------------ exceptions and RTTI
static std::string typeName(uint64_t ti)
{
    auto it = gGlobalByAddr.find(ti);
    if (it == gGlobalByAddr.end()) return "?";
    std::string n = it->second->getName().str();
    if (n.rfind("_ZTI", 0) == 0) return demangled("_ZTS" + n.substr(4)).substr(strlen("typeinfo name for "));
    return n;
}
struct BaseT { uint64_t ti; int64_t off; };
static std::vector<BaseT> basesOf(uint64_t ti)
{
    std::vector<BaseT> r;
    auto it = gGlobalByAddr.find(ti);
    if (it == gGlobalByAddr.end() || !it->second->hasInitializer()) return r;
    auto* cs = dyn_cast<ConstantStruct>(it->second->getInitializer());
    if (!cs) return r;
    std::string vt;
    const Value* v0 = cs->getOperand(0);
    if (auto* ce = dyn_cast<ConstantExpr>(v0)) v0 = ce->getOperand(0);
    vt = v0->getName().str();
    if (vt.find("__si_class_type_info") != std::string::npos) r.push_back({evalConst(cs->getOperand(2)).v, 0});
    else if (vt.find("__vmi_class_type_info") != std::string::npos)
        for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
        {
            int64_t fl = (int64_t)evalConst(cs->getOperand(i + 1)).v;
            r.push_back({evalConst(cs->getOperand(i)).v, fl >> 8});
        }
    return r;
}
static bool isPtrTi(uint64_t ti)
{
    auto it = gGlobalByAddr.find(ti);
    return it != gGlobalByAddr.end() && it->second->getName().starts_with("_ZTIP");
}
static bool derives(uint64_t ti, uint64_t base, int64_t off, int64_t& outOff)
{
    if (ti == base) { outOff = off; return true; }
    for (auto& b : basesOf(ti)) if (derives(b.ti, base, off + b.off, outOff)) return true;
    return false;
}
static int selectorOf(uint64_t ti) { return ti == 0 ? 1 : (int)(idOf(ti) + 16); }

// local: the instruction of the current frame that throws, when its own handlers come first
static void unwind(State& s, uint64_t exc, const DInst* local = nullptr)
{
    uint64_t ti = s.excs[exc].ti;
    while (true)
    {
        FrameP f = s.stk().back();
        const DInst* call = local ? local : f->call;
        bool here = local != nullptr;
        local = nullptr;
        if (here && call->opc != Instruction::Invoke) continue;
        if (f->special == 1 && !here) { popFrame(s); throw Unsupported{"exception out of a merged function"}; }
        if (!here) popFrame(s);
        if (s.stk().empty() || !call)
        {
            // restore nothing: report with the type
            report(s, "exception", "uncaught exception of type " + typeName(ti), *s.model);
            throw PathEnd();
        }
        Frame& c = top(s);
        (void)c;
        if (call->opc != Instruction::Invoke) continue;
        uint32_t ub = call->bb1;
        // find the landing pad
        Frame& fr = top(s);
        jump(s, ub);
        Frame& fr2 = top(s); (void)fr;
        const DInst& lp = fr2.fn->code[fr2.pc];
        if (lp.opc != Instruction::LandingPad) throw Unsupported{"no landing pad"};
        auto* L = cast<LandingPadInst>(lp.I);
        int sel = -1; int64_t adj = 0;
        for (unsigned i = 0; i < L->getNumClauses(); ++i)
        {
            if (L->isCatch(i))
            {
                uint64_t cti = evalConst(L->getClause(i)).v;
                if (cti == 0) { sel = selectorOf(0); break; }
                if (derives(ti, cti, 0, adj)) { sel = selectorOf(cti); break; }
            }
            else
            {
                // filter: entered when the type is not in the list
                auto* arr = L->getClause(i);
                bool in = false;
                unsigned n = cast<ArrayType>(arr->getType())->getNumElements();
                for (unsigned j = 0; j < n; ++j) { int64_t a; if (derives(ti, evalConst(arr->getAggregateElement(j)).v, 0, a)) in = true; }
                if (!in) { sel = -2; break; }
            }
        }
        if (sel == -1 && L->isCleanup()) sel = 0;
        if (sel == -1) continue;
        Val a, b; a.v = exc; b.v = (uint32_t)sel;
        fr2.regs[lp.dst] = a; fr2.regs[lp.dst + 1] = b;
        ++fr2.pc;
        return;
    }
}

// ------------------------------------------------------------------ natives
typedef void (*NativeFn)(State& s, const DInst& d, std::vector<Val>& a);
static std::vector<std::pair<std::string, NativeFn>> gNatives;
static std::unordered_map<std::string, int> gNativeIdx;
static int nativeId(const std::string& n)
{
    auto it = gNativeIdx.find(n);
    return it == gNativeIdx.end() ? -1 : it->second;
}
static void ret(State& s, const DInst& d, const Val& v) { if (d.ndst) top(s).regs[d.dst] = v; }
static Val cv(uint64_t x) { Val v; v.v = x; return v; }
static std::string readCStr(State& s, uint64_t a, size_t max = 400)
{
    std::string r;
    while (r.size() < max) { Val b = readByte(s, a + r.size()); if (b.e) { r += '?'; continue; } if (!b.v) break; r += (char)b.v; }
    return r;
}
static const char* internStr(const std::string& x) { static std::set<std::string> p; return p.insert(x).first->c_str(); }

// a fresh input of w bits; with mx, one of 0..mx as a 64-bit value
static void newInput(State& s, const DInst& d, unsigned w, const std::string& name, uint64_t mx = ~0ull)
{
    static std::map<std::tuple<uint32_t, unsigned, uint64_t>, E> vars;
    uint32_t i = s.nin++;
    if (gConcreteMode) { ret(s, d, cv(i < gConcrete.size() ? gConcrete[i] & maskw(w) : 0)); return; }
    E& e = vars[std::make_tuple(i, w, mx)];
    if (!e) e = mkVar(w, false, name + "#" + std::to_string(i), mx);
    s.inputs.push_back({(uint32_t)e->val, internStr(name)});
    auto& m = *s.model;
    if (m.size() > e->val && m[e->val]) wrModel(s)[e->val] = 0;
    if (mx < maskw(w)) s.pc.push_back(mkBound(e));
    Val v; v.e = mx == ~0ull ? e : mkZext(e, 64);
    ret(s, d, v);
}
static void endSchedIfDone(State& s);

static void doAlloc(State& s, const DInst& d, const Val& sz, ObjKind k)
{
    uint64_t n = concretize(s, sz);
    if (n > gMaxObj) throw Unsupported{"allocation of " + std::to_string(n) + " bytes"};
    uint64_t a = newObj(s, n, k, "heap", true);
    ++s.heapLive;
    ret(s, d, cv(a));
}
// data races: every access of a thread to memory other threads can reach, checked against the
// happens-before order that spawn, join and atomic operations of the given strength establish
enum { AccRead = 0, AccWrite = 1, AccAtomic = 2 };
static void touch(State& s, uint64_t a, uint64_t n, int kind)
{
    if (s.threads.size() < 2 || !s.races) return;
    uint64_t id = idOf(a);
    Obj* o = getObj(s, id);
    if (!o || o->ro || (o->kind == OStack && id >= s.firstShared)) return;
    if (s.races.use_count() > 1) s.races = std::make_shared<Races>(*s.races);
    Races& R = *s.races;
    const Clock& me = R.vc[s.cur];
    auto before = [&](const Clock& c) { for (int i = 0; i < kMaxThreads; ++i) if (c[i] > me[i]) return false; return true; };
    for (uint64_t i = 0; i < n; ++i)
    {
        RaceCell& c = R.cells[a + i];
        bool ok = before(c.w);
        if (!(kind & AccAtomic)) ok = ok && before(c.aw);
        if (kind & AccWrite) { ok = ok && before(c.r); if (!(kind & AccAtomic)) ok = ok && before(c.ar); }
        if (!ok) fail(s, "race", std::string("data race: an unordered conflicting access to ") + (o->kind == OGlobal ? "a global object" : o->kind == OStack ? "a stack object" : "a heap object"));
        Clock& k = kind & AccAtomic ? (kind & AccWrite ? c.aw : c.ar) : (kind & AccWrite ? c.w : c.r);
        k[s.cur] = me[s.cur];
    }
}
static void join(Clock& a, const Clock& b) { for (int i = 0; i < kMaxThreads; ++i) a[i] = std::max(a[i], b[i]); }
static void syncAtomic(State& s, uint64_t a, bool load, bool store, bool rmw, AtomicOrdering o)
{
    if (s.threads.size() < 2 || !s.races) return;
    if (s.races.use_count() > 1) s.races = std::make_shared<Races>(*s.races);
    Races& R = *s.races;
    int t = s.cur;
    auto it = R.released.find(a);
    if (load && it != R.released.end())
    {
        if (isAcquireOrStronger(o)) join(R.vc[t], it->second); else join(R.acqFence[t], it->second);
    }
    if (store)
    {
        Clock c = isReleaseOrStronger(o) ? R.vc[t] : R.relFence[t];
        if (rmw && it != R.released.end()) join(c, it->second);     // continues the release sequence
        R.released[a] = c;
        ++R.vc[t][t];
    }
}
static void syncFence(State& s, AtomicOrdering o)
{
    if (s.threads.size() < 2 || !s.races) return;
    if (s.races.use_count() > 1) s.races = std::make_shared<Races>(*s.races);
    Races& R = *s.races;
    if (isAcquireOrStronger(o)) join(R.vc[s.cur], R.acqFence[s.cur]);
    if (isReleaseOrStronger(o)) { R.relFence[s.cur] = R.vc[s.cur]; ++R.vc[s.cur][s.cur]; }
}
static void doFree(State& s, const Val& p, ObjKind k, const char* what)
{
    uint64_t a = concretize(s, p);
    if (!a) return;
    uint64_t id = idOf(a);
    Obj* o = getObj(s, id);
    if (!o) fail(s, "memory", id < s.nextId ? std::string("double free (") + what + ")" : std::string("free of a wild pointer (") + what + ")");
    if (a != baseOf(id) || o->kind > OMalloc) fail(s, "memory", std::string("free of a pointer that is not an allocation (") + what + ")");
    if (o->kind != k) fail(s, "memory", std::string("mismatched allocation and release (") + what + ")");
    touch(s, a, o->size, AccWrite);
    freeObj(s, id);
    --s.heapLive;
}
static void copyBytes(State& s, uint64_t dst, uint64_t src, uint64_t n)
{
    if (!n) return;
    Val pd, ps; pd.v = dst; ps.v = src; uint64_t so, dо; E e;
    uint64_t sid = resolve(s, ps, n, "memcpy source", so, e);
    uint64_t did = resolve(s, pd, n, "memcpy destination", dо, e);
    if (getObj(s, did)->ro) fail(s, "memory", "write to constant memory");
    ObjP keep = s.mem[sid >> 6]->o[sid & 63];
    Obj* d = wrObj(s, did);
    Obj* r = sid == did ? d : getObj(s, sid);
    bool rs = !r->sb.empty(), ru = !r->undef.empty();
    if (rs && d->sb.empty()) d->sb.assign(d->size, nullptr);
    if (ru && d->undef.empty()) d->undef.assign(d->size, false);
    auto one = [&](uint64_t i) {
        d->cb[dо + i] = r->cb[so + i];
        if (!d->sb.empty()) d->sb[dо + i] = rs ? r->sb[so + i] : nullptr;
        if (!d->undef.empty()) d->undef[dо + i] = ru ? (bool)r->undef[so + i] : false;
    };
    if (sid == did && so < dо) for (uint64_t i = n; i-- > 0;) one(i);
    else for (uint64_t i = 0; i < n; ++i) one(i);
}
static uint64_t sizeArg(State& s, const Val& v) { return concretize(s, v); }
static uint64_t ptrArg(State& s, const Val& v) { return concretize(s, v); }
static E cmpBytes(State& s, uint64_t a, uint64_t b, uint64_t n)   // memcmp result as 32-bit expression in {-1,0,1}
{
    E r = mkConst(0, 32);
    std::vector<std::pair<E, E>> bs;
    for (uint64_t i = 0; i < n; ++i)
    {
        Val x = readByte(s, a + i), y = readByte(s, b + i);
        E ex = toE(x, 8), ey = toE(y, 8);
        bs.push_back({ex, ey});
        if (isC(ex) && isC(ey) && ex->val != ey->val) break;
    }
    for (size_t i = bs.size(); i-- > 0;)
        r = mkIte(mkEq(bs[i].first, bs[i].second), r, mkIte(mk(ULT, 1, bs[i].first, bs[i].second), mkConst(0xffffffffu, 32), mkConst(1, 32)));
    return r;
}

static void finishDtorFree(State& s, uint64_t exc) { s.excs.erase(exc); if (getObj(s, idOf(exc))) freeObj(s, idOf(exc)); }


static double asDbl(uint64_t v) { double x; memcpy(&x, &v, 8); return x; }
static uint64_t ofDbl(double x) { uint64_t v; memcpy(&v, &x, 8); return v; }

static void defNative(const std::string& n, NativeFn f) { gNativeIdx[n] = gNatives.size(); gNatives.push_back({n, f}); }
#define N(name) defNative(name, [](State& s, const DInst& d, std::vector<Val>& a) { (void)s; (void)d; (void)a;
#define EN })

static void setupNatives()
{
    // --- harness intrinsics
    N("sym_u8") newInput(s, d, 8, readCStr(s, a[0].v)); EN;
    N("sym_u16") newInput(s, d, 16, readCStr(s, a[0].v)); EN;
    N("sym_u32") newInput(s, d, 32, readCStr(s, a[0].v)); EN;
    N("sym_u64") newInput(s, d, 64, readCStr(s, a[0].v)); EN;
    N("sym_below")
        uint64_t n = concretize(s, a[1]);
        if (n < 2) { ret(s, d, cv(0)); return; }
        newInput(s, d, 64 - __builtin_clzll(n - 1), readCStr(s, a[0].v), n - 1);
    EN;
    N("sym_assume")
        if (!a[0].e) { if (!(a[0].v & 1)) { ++gAssumed; throw PathEnd(); } return; }
        E c = a[0].e;
        if (c->w != 1) c = mkNot(mkEq(c, mkConst(0, c->w)));
        if (isC(c)) { if (!c->val) { ++gAssumed; throw PathEnd(); } return; }
        std::vector<uint64_t> m = *s.model;
        Res r = solveWith(s.pc, c, m, gSolverTimeoutMs);
        if (r == Res::Unknown) { incomplete(s, "solver gave up on an assumption"); throw PathEnd(); }
        if (r == Res::Unsat) { ++gAssumed; throw PathEnd(); }
        s.model = std::make_shared<std::vector<uint64_t>>(std::move(m));
        addPc(s, c);
    EN;
    N("sym_check")
        ++gChecks;
        std::string label = readCStr(s, a[1].v);
        if (!a[0].e) { ++gChecksConst; if (!(a[0].v & 1)) fail(s, "check", label); return; }
        E c = a[0].e;
        if (c->w != 1) c = mkNot(mkEq(c, mkConst(0, c->w)));
        if (isC(c)) { ++gChecksConst; if (!c->val) fail(s, "check", label); return; }
        if (c->hasUninit) checkUninit(s, c);
        std::vector<uint64_t> m = *s.model;
        Res r = solveWith(s.pc, mkNot(c), m, gSolverTimeoutMs, true);
        ++gChecksSolved;
        if (r == Res::Unknown) { incomplete(s, "solver gave up on assertion '" + label + "'"); }
        if (r == Res::Sat)
        {
            report(s, "check", label, m);
            std::vector<uint64_t> m2 = *s.model;
            if (solveWith(s.pc, c, m2, gSolverTimeoutMs) != Res::Sat) throw PathEnd();
            s.model = std::make_shared<std::vector<uint64_t>>(std::move(m2));
        }
        addPc(s, c);
    EN;
    N("sym_cover") ++gCover[readCStr(s, a[0].v)]; EN;
    N("sym_out") if (s.outs.size() < 4096) s.outs.push_back(toE(a[0], 64)); EN;
    N("sym_note") s.notes.push_back({readCStr(s, a[0].v), toE(a[1], 64)}); EN;
    N("sym_concretize") ret(s, d, cv(concretize(s, a[0]))); EN;
    N("sym_decide") E c = toE(a[0], 1); if (c->w != 1) c = mkNot(mkEq(c, mkConst(0, c->w))); ret(s, d, cv(decide(s, c))); EN;
    N("sym_live") ret(s, d, cv((uint64_t)s.heapLive)); EN;
    N("sym_engine") ret(s, d, cv(1)); EN;
    N("sym_fail") fail(s, "check", readCStr(s, a[0].v)); EN;
    N("sym_violation") fail(s, readCStr(s, a[0].v), readCStr(s, a[1].v)); EN;
    N("sym_unsupported") throw Unsupported{readCStr(s, a[0].v)}; EN;
    N("sym_end") throw PathEnd(); EN;
    N("sym_dump") fprintf(stderr, "dump %s = %s\n", readCStr(s, a[0].v).c_str(), a[1].e ? dumpE(a[1].e, 20).c_str() : std::to_string(a[1].v).c_str()); EN;
    N("sym_is_valid_ptr") // 1 when [p, p+n) is live memory
        uint64_t p = ptrArg(s, a[0]); Obj* o = getObj(s, idOf(p)); ret(s, d, cv(o && (p & ((1ull << ASH) - 1)) + a[1].v <= o->size)); EN;
    N("sym_spawn")
        uint64_t fa = ptrArg(s, a[0]);
        auto it = gFnByAddr.find(fa);
        if (it == gFnByAddr.end()) throw Unsupported{"thread entry"};
        int me = s.cur;
        if (s.threads.size() >= kMaxThreads) throw Unsupported{"too many threads"};
        if (!s.races) { s.races = std::make_shared<Races>(); s.races->vc[0][0] = 1; s.firstShared = s.nextId; }
        if (s.races.use_count() > 1) s.races = std::make_shared<Races>(*s.races);
        { Races& R = *s.races; int t = s.threads.size(); R.vc[t] = R.vc[me]; R.vc[t][t] = 1; ++R.vc[me][me]; }
        s.threads.emplace_back();
        s.cur = s.threads.size() - 1;
        pushFrame(s, it->second, {a[1]}, nullptr);
        s.cur = me;
        ret(s, d, cv(s.threads.size() - 1));
    EN;
    N("sym_yield") EN;
    // --- allocation
    N("_Znwm") doAlloc(s, d, a[0], OHeapNew); EN;
    N("_Znam") doAlloc(s, d, a[0], OHeapNewArr); EN;
    N("_ZnwmRKSt9nothrow_t") doAlloc(s, d, a[0], OHeapNew); EN;
    N("_ZnamRKSt9nothrow_t") doAlloc(s, d, a[0], OHeapNewArr); EN;
    N("_ZdlPv") doFree(s, a[0], OHeapNew, "delete"); EN;
    N("_ZdaPv") doFree(s, a[0], OHeapNewArr, "delete[]"); EN;
    N("_ZdlPvm") doFree(s, a[0], OHeapNew, "delete"); EN;
    N("_ZdaPvm") doFree(s, a[0], OHeapNewArr, "delete[]"); EN;
    N("malloc") doAlloc(s, d, a[0], OMalloc); EN;
    N("free") doFree(s, a[0], OMalloc, "free"); EN;
    N("calloc")
        uint64_t n = sizeArg(s, a[0]) * sizeArg(s, a[1]);
        if (n > gMaxObj) throw Unsupported{"large calloc"};
        uint64_t p = newObj(s, n, OMalloc, "heap", false); ++s.heapLive; ret(s, d, cv(p));
    EN;
    // --- memory and strings
    N("memcpy") uint64_t n = sizeArg(s, a[2]), x = ptrArg(s, a[0]), y = ptrArg(s, a[1]); copyBytes(s, x, y, n); ret(s, d, cv(x)); EN;
    N("memmove") uint64_t n = sizeArg(s, a[2]), x = ptrArg(s, a[0]), y = ptrArg(s, a[1]); copyBytes(s, x, y, n); ret(s, d, cv(x)); EN;
    N("memset")
        uint64_t n = sizeArg(s, a[2]), x = ptrArg(s, a[0]);
        Val b = a[1].e ? fromE(mkExtract(a[1].e, 0, 8)) : cv(a[1].v & 255);
        if (n) { uint64_t off; E so; uint64_t id = resolve(s, cv(x), n, "memset", off, so); if (getObj(s, id)->ro) fail(s, "memory", "write to constant memory"); for (uint64_t i = 0; i < n; ++i) writeConcrete(s, id, off + i, b, 8); }
        ret(s, d, cv(x));
    EN;
    N("memcmp") uint64_t n = sizeArg(s, a[2]), x = ptrArg(s, a[0]), y = ptrArg(s, a[1]); ret(s, d, fromE(cmpBytes(s, x, y, n))); EN;
    N("bcmp") uint64_t n = sizeArg(s, a[2]), x = ptrArg(s, a[0]), y = ptrArg(s, a[1]); ret(s, d, fromE(cmpBytes(s, x, y, n))); EN;
    N("strlen")
        uint64_t p = ptrArg(s, a[0]), i = 0;
        while (true) { Val b = readByte(s, p + i); if (decide(s, mkEq(toE(b, 8), mkConst(0, 8)))) break; ++i; }
        ret(s, d, cv(i));
    EN;
    N("memchr")
        uint64_t n = sizeArg(s, a[2]), p = ptrArg(s, a[0]);
        E c = mkExtract(toE(a[1], 32), 0, 8);
        E any = mkConst(0, 1), at = mkConst(p, 64);
        for (uint64_t i = n; i-- > 0;) { E q = mkEq(toE(readByte(s, p + i), 8), c); any = mkOr(any, q); at = mkIte(q, mkConst(p + i, 64), at); }
        if (n == 0 || !decide(s, any)) { ret(s, d, cv(0)); return; }
        ret(s, d, fromE(at));
    EN;
    N("strcmp")
        uint64_t x = ptrArg(s, a[0]), y = ptrArg(s, a[1]);
        for (uint64_t i = 0;; ++i)
        {
            E p = toE(readByte(s, x + i), 8), q = toE(readByte(s, y + i), 8);
            if (!decide(s, mkEq(p, q))) { ret(s, d, fromE(mkIte(mk(ULT, 1, p, q), mkConst(0xffffffffu, 32), mkConst(1, 32)))); return; }
            if (decide(s, mkEq(p, mkConst(0, 8)))) { ret(s, d, cv(0)); return; }
        }
    EN;
    // --- exceptions
    N("__cxa_allocate_exception") uint64_t n = sizeArg(s, a[0]); ret(s, d, cv(newObj(s, n ? n : 1, OExc, "exception", true))); EN;
    N("__cxa_free_exception") uint64_t p = ptrArg(s, a[0]); if (getObj(s, idOf(p))) freeObj(s, idOf(p)); EN;
    N("__cxa_throw")
        uint64_t p = ptrArg(s, a[0]); ExcInfo e; e.ti = a[1].v; e.dtor = a[2].v; s.excs[p] = e;
        unwind(s, p, &d); EN;
    N("__cxa_begin_catch")
        uint64_t p = ptrArg(s, a[0]); auto& e = s.excs[p];
        if (e.handlers < 0) e.handlers = -e.handlers;
        ++e.handlers;
        if (s.caught.empty() || s.caught.back() != p) s.caught.push_back(p);
        if (isPtrTi(e.ti)) ret(s, d, loadMem(s, cv(p), 64)); else ret(s, d, cv(p));
    EN;
    N("__cxa_get_exception_ptr") ret(s, d, a[0]); EN;
    N("__cxa_end_catch")
        if (s.caught.empty()) return;
        uint64_t p = s.caught.back(); auto& e = s.excs[p];
        if (e.handlers < 0) { if (++e.handlers == 0) s.caught.pop_back(); return; }
        if (--e.handlers == 0)
        {
            s.caught.pop_back();
            if (e.dtor)
            {
                FnInfo* fn = gFnByAddr.at(e.dtor);
                if (!fn->decl)
                {
                    // run the destructor, then free: the frame returns to the instruction after this one
                    advance(s, d);
                    pushFrame(s, fn, {cv(p)}, nullptr);
                    top(s).special = 2; top(s).specialArg = p;
                    throw 1;   // already advanced
                }
            }
            finishDtorFree(s, p);
        }
    EN;
    N("__cxa_rethrow")
        if (s.caught.empty()) fail(s, "exception", "rethrow without an exception");
        uint64_t p = s.caught.back(); s.excs[p].handlers = -s.excs[p].handlers;
        unwind(s, p, &d); EN;
    N("_Unwind_Resume") unwind(s, ptrArg(s, a[0])); EN;
    N("_ZSt9terminatev") fail(s, "exception", "std::terminate"); EN;
    N("__cxa_call_unexpected") fail(s, "exception", "std::unexpected"); EN;
    N("__cxa_pure_virtual") fail(s, "memory", "pure virtual call"); EN;
    N("_ZSt18uncaught_exceptionv") ret(s, d, cv(0)); EN;
    N("_ZSt19uncaught_exceptionsv") ret(s, d, cv(0)); EN;
    N("abort") fail(s, "abort", "abort called"); EN;
    N("exit") fail(s, "abort", "exit called"); EN;
    N("__assert_fail") fail(s, "abort", "assertion failed: " + readCStr(s, a[0].v)); EN;
    N("_ZSt21__glibcxx_assert_failPKciS0_S0_") fail(s, "memory", "standard library precondition violated: " + readCStr(s, a[3].v)); EN;
    N("__cxa_atexit") ret(s, d, cv(0)); EN;
    N("__cxa_thread_atexit") ret(s, d, cv(0)); EN;
    N("__cxa_guard_acquire") Val g = loadMem(s, a[0], 8); ret(s, d, cv(g.v == 0)); EN;
    N("__cxa_guard_release") storeMem(s, a[0], cv(1), 8); EN;
    N("__cxa_guard_abort") EN;
    N("__dynamic_cast")
        uint64_t p = ptrArg(s, a[0]);
        uint64_t vp = loadMem(s, cv(p), 64).v;
        uint64_t ti = loadMem(s, cv(vp - 8), 64).v;
        int64_t ott = (int64_t)loadMem(s, cv(vp - 16), 64).v;
        int64_t off = 0;
        if (derives(ti, a[2].v, 0, off)) ret(s, d, cv(p + ott + off)); else ret(s, d, cv(0));
    EN;
    // --- libm style helpers on concrete doubles
#define FD1(nm, ex) N(nm) double x = asDbl(concretize(s, a[0])); ret(s, d, cv(ofDbl(ex))); EN
    FD1("floor", std::floor(x)); FD1("ceil", std::ceil(x)); FD1("sqrt", std::sqrt(x)); FD1("fabs", std::fabs(x)); FD1("log", std::log(x)); FD1("log10", std::log10(x)); FD1("log2", std::log2(x)); FD1("trunc", std::trunc(x)); FD1("round", std::round(x));
    N("pow") double x = asDbl(concretize(s, a[0])), y = asDbl(concretize(s, a[1])); ret(s, d, cv(ofDbl(std::pow(x, y)))); EN;
    N("fmod") double x = asDbl(concretize(s, a[0])), y = asDbl(concretize(s, a[1])); ret(s, d, cv(ofDbl(std::fmod(x, y)))); EN;
    // text <-> floating point, on concrete text (the runtime model concretizes)
    N("sym_fmt_double")   // (char* buf, size, double, char conv, int prec)
        char buf[512]; char f[16]; snprintf(f, sizeof f, "%%.*%c", (char)concretize(s, a[3]));
        double x = asDbl(concretize(s, a[2])); int prec = (int)concretize(s, a[4]);
        int n = snprintf(buf, sizeof buf, f, prec, x); uint64_t p = ptrArg(s, a[0]), cap = sizeArg(s, a[1]);
        for (int i = 0; i <= n && (uint64_t)i < cap; ++i) storeMem(s, cv(p + i), cv((uint8_t)buf[i]), 8);
        ret(s, d, cv((uint32_t)n));
    EN;
    N("sym_parse_double") // (const char* zero-terminated concrete, size_t* consumed, int* erange) -> double
        uint64_t p = ptrArg(s, a[0]); std::string t;
        while (true) { uint64_t c = concretize(s, readByte(s, p + t.size())); if (!c) break; t += (char)c; if (t.size() > 300) break; }
        char* e; errno = 0; double x = strtod(t.c_str(), &e); int er = errno == ERANGE;
        storeMem(s, a[1], cv(e - t.c_str()), 64); storeMem(s, a[2], cv(er), 32);
        ret(s, d, cv(ofDbl(x)));
    EN;
    N("sym_parse_float")
        uint64_t p = ptrArg(s, a[0]); std::string t;
        while (true) { uint64_t c = concretize(s, readByte(s, p + t.size())); if (!c) break; t += (char)c; if (t.size() > 300) break; }
        char* e; errno = 0; float x = strtof(t.c_str(), &e); int er = errno == ERANGE;
        storeMem(s, a[1], cv(e - t.c_str()), 64); storeMem(s, a[2], cv(er), 32);
        uint32_t u; memcpy(&u, &x, 4); ret(s, d, cv(u));
    EN;
    N("__cxa_bad_cast") fail(s, "exception", "bad cast"); EN;
    N("!asm") EN;
    N("pthread_mutex_lock") ret(s, d, cv(0)); EN;
    N("pthread_mutex_unlock") ret(s, d, cv(0)); EN;
    N("__libc_single_threaded_stub") EN;
}

// ------------------------------------------------------------------ intrinsics
static bool intrinsic(State& s, const DInst& d, const Function* F, std::vector<Val>& a)
{
    Intrinsic::ID id = F->getIntrinsicID();
    unsigned w = d.ndst ? d.w : 0;
    auto A = [&](int i, unsigned ww) { return toE(a[i], ww); };
    switch (id)
    {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect:
            return true;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { uint64_t n = sizeArg(s, a[2]), x = ptrArg(s, a[0]), y = ptrArg(s, a[1]); copyBytes(s, x, y, n); return true; }
        case Intrinsic::memset:
        {
            static int k = nativeId("memset");
            std::vector<Val> b(a.begin(), a.begin() + 3);
            DInst dd; dd.ndst = 0;
            gNatives[k].second(s, dd, b);
            return true;
        }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: case Intrinsic::annotation:
            ret(s, d, a[0]); return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "abort", "trap");
        case Intrinsic::is_constant: ret(s, d, cv(0)); return true;
        case Intrinsic::objectsize: ret(s, d, cv(maskw(w))); return true;
        case Intrinsic::stacksave: ret(s, d, cv(0)); return true;
        case Intrinsic::stackrestore: return true;
        case Intrinsic::eh_typeid_for: ret(s, d, cv((uint32_t)selectorOf(a[0].v))); return true;
        case Intrinsic::umax: ret(s, d, fromE(mkIte(mk(ULT, 1, A(0, w), A(1, w)), A(1, w), A(0, w)))); return true;
        case Intrinsic::umin: ret(s, d, fromE(mkIte(mk(ULT, 1, A(0, w), A(1, w)), A(0, w), A(1, w)))); return true;
        case Intrinsic::smax: ret(s, d, fromE(mkIte(mk(SLT, 1, A(0, w), A(1, w)), A(1, w), A(0, w)))); return true;
        case Intrinsic::smin: ret(s, d, fromE(mkIte(mk(SLT, 1, A(0, w), A(1, w)), A(0, w), A(1, w)))); return true;
        case Intrinsic::abs: ret(s, d, fromE(mkIte(mk(SLT, 1, A(0, w), mkConst(0, w)), mk(SUB, w, mkConst(0, w), A(0, w)), A(0, w)))); return true;
        case Intrinsic::usub_sat: ret(s, d, fromE(mkIte(mk(ULT, 1, A(0, w), A(1, w)), mkConst(0, w), mk(SUB, w, A(0, w), A(1, w))))); return true;
        case Intrinsic::uadd_sat: { E r = mk(ADD, w, A(0, w), A(1, w)); ret(s, d, fromE(mkIte(mk(ULT, 1, r, A(0, w)), mkConst(maskw(w), w), r))); return true; }
        case Intrinsic::ctpop: { E x = A(0, w), r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mk(ADD, w, r, mkZext(mkExtract(x, i, 1), w)); ret(s, d, fromE(r)); return true; }
        case Intrinsic::ctlz: { E x = A(0, w), r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); ret(s, d, fromE(r)); return true; }
        case Intrinsic::cttz: { E x = A(0, w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); ret(s, d, fromE(r)); return true; }
        case Intrinsic::bswap: { E x = A(0, w), r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); ret(s, d, fromE(r)); return true; }
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            E sh = mk(UREM, w, A(2, w), mkConst(w, w));
            E r;
            if (id == Intrinsic::fshl) r = mkIte(mkEq(sh, mkConst(0, w)), A(0, w), mkOr(mk(SHL, w, A(0, w), sh), mk(LSHR, w, A(1, w), mk(SUB, w, mkConst(w, w), sh))));
            else r = mkIte(mkEq(sh, mkConst(0, w)), A(1, w), mkOr(mk(LSHR, w, A(1, w), sh), mk(SHL, w, A(0, w), mk(SUB, w, mkConst(w, w), sh))));
            ret(s, d, fromE(r)); return true;
        }
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        {
            unsigned n = d.widths[0];
            bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
            K k = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? MUL : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD : SUB;
            Val r, o;
            if (!a[0].e && !a[1].e && n <= 64)
            {
                __int128 x = sg ? (__int128)sext64(a[0].v, n) : (__int128)a[0].v, y = sg ? (__int128)sext64(a[1].v, n) : (__int128)a[1].v;
                __int128 z = k == MUL ? x * y : k == ADD ? x + y : x - y;
                r.v = (uint64_t)z & maskw(n);
                o.v = sg ? z != (__int128)sext64(r.v, n) : (unsigned __int128)z != (unsigned __int128)r.v;
            }
            else
            {
                unsigned ww = k == MUL ? 2 * n : n + 1;
                if (ww > 128) throw Unsupported{"wide overflow arithmetic"};
                auto X = [&](E e) { return sg ? mkSext(e, ww) : mkZext(e, ww); };
                E z = mk(k, ww, X(A(0, n)), X(A(1, n)));
                E lo = mkExtract(z, 0, n);
                r = fromE(lo); o = fromE(mkNot(mkEq(z, X(lo))));
            }
            Frame& f = top(s); f.regs[d.dst] = r; f.regs[d.dst + 1] = o;
            return true;
        }
        case Intrinsic::fabs: { E x = A(0, w); ret(s, d, fromE(mk(AND, w, x, mkConst(maskw(w) >> 1, w)))); return true; }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:
        {
            uint64_t v = concretize(s, a[0]);
            double x; if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); x = f; } else x = asDbl(v);
            switch (id) { case Intrinsic::floor: x = std::floor(x); break; case Intrinsic::ceil: x = std::ceil(x); break; case Intrinsic::sqrt: x = std::sqrt(x); break; case Intrinsic::trunc: x = std::trunc(x); break; case Intrinsic::round: x = std::round(x); break; default: x = std::rint(x); }
            if (w == 32) { float f = x; uint32_t u; memcpy(&u, &f, 4); ret(s, d, cv(u)); } else ret(s, d, cv(ofDbl(x)));
            return true;
        }
        case Intrinsic::fmuladd: case Intrinsic::fma: ret(s, d, fromE(mk(FADD, w, mk(FMUL, w, A(0, w), A(1, w)), A(2, w)))); return true;
        case Intrinsic::threadlocal_address: ret(s, d, a[0]); return true;
        case Intrinsic::vastart:
        {   // x86-64 va_list with every argument in the overflow area
            Frame& f = top(s);
            std::vector<Val> va = f.varargs;
            uint64_t o = newObj(s, va.size() * 8, OStack, "varargs", false);
            top(s).allocas.push_back(o);
            for (size_t i = 0; i < va.size(); ++i) storeMem(s, cv(o + 8 * i), va[i], va[i].e ? va[i].e->w : 64);
            uint64_t p = ptrArg(s, a[0]);
            storeMem(s, cv(p), cv(48), 32); storeMem(s, cv(p + 4), cv(176), 32); storeMem(s, cv(p + 8), cv(o), 64); storeMem(s, cv(p + 16), cv(0), 64);
            return true;
        }
        case Intrinsic::vaend: return true;
        case Intrinsic::vacopy: copyBytes(s, ptrArg(s, a[0]), ptrArg(s, a[1]), 24); return true;
        default: return false;
    }
}

// ------------------------------------------------------------------ instruction execution
static K binKind(unsigned opc)
{
    switch (opc)
    {
        case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL;
        case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
        case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
        case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
        case Instruction::FAdd: return FADD; case Instruction::FSub: return FSUB; case Instruction::FMul: return FMUL; case Instruction::FDiv: return FDIV;
    }
    return CONST;
}
static E cmpE(unsigned pred, E a, E b)
{
    switch (pred)
    {
        case CmpInst::ICMP_EQ: return mkEq(a, b);
        case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
        case CmpInst::ICMP_ULT: return mk(ULT, 1, a, b);
        case CmpInst::ICMP_ULE: return mk(ULE, 1, a, b);
        case CmpInst::ICMP_UGT: return mk(ULT, 1, b, a);
        case CmpInst::ICMP_UGE: return mk(ULE, 1, b, a);
        case CmpInst::ICMP_SLT: return mk(SLT, 1, a, b);
        case CmpInst::ICMP_SLE: return mk(SLE, 1, a, b);
        case CmpInst::ICMP_SGT: return mk(SLT, 1, b, a);
        case CmpInst::ICMP_SGE: return mk(SLE, 1, b, a);
    }
    abort();
}
static E fcmpE(unsigned pred, E a, E b)
{
    E uno = mk(FUNO, 1, a, b);
    auto o = [&](E x) { return mkAnd(mkNot(uno), x); };
    auto u = [&](E x) { return mkOr(uno, x); };
    E eq = mk(FOEQ, 1, a, b);
    switch (pred)
    {
        case CmpInst::FCMP_FALSE: return mkConst(0, 1);
        case CmpInst::FCMP_TRUE: return mkConst(1, 1);
        case CmpInst::FCMP_OEQ: return eq;
        case CmpInst::FCMP_ONE: return o(mkNot(eq));
        case CmpInst::FCMP_OLT: return mk(FOLT, 1, a, b);
        case CmpInst::FCMP_OLE: return mk(FOLE, 1, a, b);
        case CmpInst::FCMP_OGT: return mk(FOLT, 1, b, a);
        case CmpInst::FCMP_OGE: return mk(FOLE, 1, b, a);
        case CmpInst::FCMP_ORD: return mkNot(uno);
        case CmpInst::FCMP_UNO: return uno;
        case CmpInst::FCMP_UEQ: return u(eq);
        case CmpInst::FCMP_UNE: return u(mkNot(eq));
        case CmpInst::FCMP_ULT: return u(mk(FOLT, 1, a, b));
        case CmpInst::FCMP_ULE: return u(mk(FOLE, 1, a, b));
        case CmpInst::FCMP_UGT: return u(mk(FOLT, 1, b, a));
        case CmpInst::FCMP_UGE: return u(mk(FOLE, 1, b, a));
    }
    abort();
}

static unsigned rssMb()
{
    unsigned long total = 0, res = 0;
    if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%lu %lu", &total, &res) != 2) res = 0; fclose(f); }
    return (unsigned)(res / 256);
}
static bool explore(std::vector<StateP>& work, const std::function<void(State&, const Val&)>* onSummaryRet, uint64_t limit);
static bool gInMerge = false;

// Execute all paths of a side-effect-free function and merge them into one value.
static bool tryMerge(State& s, const DInst& d, FnInfo* fn, std::vector<Val>& a)
{
    if (!fn->mergeable || gInMerge || gConcreteMode) return false;
    decode(fn);
    bool anySym = false;
    for (auto& v : a) if (v.e) anySym = true;
    (void)anySym;
    size_t basePc = s.pc.size();
    StateP sub = std::make_unique<State>(s);
    pushFrame(*sub, fn, a, &d);
    top(*sub).special = 1;
    std::vector<std::pair<E, E>> results;
    std::vector<std::vector<E>> conds;
    std::vector<Val> vals;
    std::function<void(State&, const Val&)> onRet = [&](State& r, const Val& v) {
        std::vector<E> c(r.pc.begin() + basePc, r.pc.end());
        conds.push_back(c); vals.push_back(v);
    };
    std::vector<StateP> work;
    work.push_back(std::move(sub));
    auto* saveWork = gWork;
    gWork = &work;
    gInMerge = true;
    uint64_t pathsBefore = gPaths;
    auto violBefore = gViol.size();
    bool ok;
    try { ok = explore(work, &onRet, 600); } catch (...) { gWork = saveWork; gInMerge = false; throw; }
    gWork = saveWork;
    gInMerge = false;
    gPaths = pathsBefore;
    if (!ok) return false;
    if (conds.empty()) { throw PathEnd(); }
    ++gMerges;
    bool died = gViol.size() != violBefore;
    unsigned w = d.ndst ? d.w : 0;
    auto conj = [](const std::vector<E>& c) { E r = mkConst(1, 1); for (E e : c) r = mkAnd(r, e); return r; };
    if (w)
    {
        E r = toE(vals[0], w);
        for (size_t i = 1; i < conds.size(); ++i) r = mkIte(conj(conds[i]), toE(vals[i], w), r);
        ret(s, d, fromE(r));
    }
    if (died)
    {
        E any = mkConst(0, 1);
        for (auto& c : conds) any = mkOr(any, conj(c));
        std::vector<uint64_t> m = *s.model;
        if (solveWith(s.pc, any, m, gSolverTimeoutMs) != Res::Sat) throw PathEnd();
        s.model = std::make_shared<std::vector<uint64_t>>(std::move(m));
        addPc(s, any);
    }
    return true;
}

// threads: the scheduler's choices are inputs named "schedule"
static std::vector<int> runnable(State& s, bool withCur)
{
    std::vector<int> r;
    for (size_t i = 0; i < s.threads.size(); ++i) if (((int)i != s.cur || withCur) && (int)i != s.joining && !s.threads[i].empty()) r.push_back(i);
    return r;
}
static void chooseThread(State& s, const std::vector<int>& from, bool curPending)
{
    static std::map<uint32_t, E> vars;
    uint32_t i = s.nin++;
    E& e = vars[i];
    if (!e) e = mkVar(8, false, "schedule#" + std::to_string(i));
    s.inputs.push_back({(uint32_t)e->val, "schedule"});
    auto take = [&](State& x, int t)
    {
        addPc(x, mkEq(e, mkConst(t, 8)));
        auto& m = wrModel(x); if (m.size() <= e->val) m.resize(e->val + 1, 0); m[e->val] = t;
        if (!(curPending && t == x.cur)) x.schedPoint = true;   // the thread switched to goes on with its operation
        x.cur = t;
    };
    for (size_t k = 1; k < from.size(); ++k) { StateP alt = cloneState(s); take(*alt, from[k]); gWork->push_back(std::move(alt)); }
    take(s, from[0]);
}
// true when another thread was switched to
static bool schedPoint(State& s)
{
    if (s.threads.size() < 2) return false;
    if (s.schedPoint) { s.schedPoint = false; return false; }
    std::vector<int> c = runnable(s, false);
    if (c.empty()) return false;
    int me = s.cur;
    c.insert(c.begin(), me);
    chooseThread(s, c, true);
    return false;
}

static void call(State& s, const DInst& d, FnInfo* fn, std::vector<Val>& a)
{
    if (fn->native == -2)
    {
        fn->native = nativeId(fn->name);
    }
    if (fn->native >= 0)
    {
        fn->executed = true;
        size_t depth = s.stk().size(); (void)depth;
        uint32_t th = s.cur; (void)th;
        bool throwing = fn->name == "__cxa_throw" || fn->name == "__cxa_rethrow" || fn->name == "_Unwind_Resume";
        try { gNatives[fn->native].second(s, d, a); } catch (int) { return; }
        if (!throwing) advance(s, d);
        return;
    }
    if (fn->F->isIntrinsic())
    {
        if (intrinsic(s, d, fn->F, a)) { advance(s, d); return; }
        throw Unsupported{"intrinsic " + fn->name};
    }
    if (fn->decl) throw Unsupported{"external function " + demangled(fn->name)};
    if (gMerge && tryMerge(s, d, fn, a)) { advance(s, d); return; }
    pushFrame(s, fn, a, &d);
}

// returns false when the path finished
static bool step(State& s, const std::function<void(State&, const Val&)>* onSummaryRet)
{
    auto& stack = s.stk();
    Frame* fp = stack.back().get();
    const DInst& d = fp->fn->code[fp->pc];
    ++s.steps; ++gSteps;
    switch (d.opc)
    {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        {
            if (d.ndst != 1)
            {
                K k = binKind(d.opc); uint32_t n = d.ndst;
                for (uint32_t i = 0; i < n; ++i) { Frame& f = top(s); unsigned w = d.widths[i]; f.regs[d.dst + i] = fromE(mk(k, w, toE(opv(f, d.ops[i]), w), toE(opv(f, d.ops[n + i]), w))); }
                ++top(s).pc;
                return true;
            }
            Val a = opv(*fp, d.ops[0]), b = opv(*fp, d.ops[1]);
            K k = binKind(d.opc);
            if (k >= UDIV && k <= SREM)
            {
                if (!b.e) { if (!b.v) fail(s, "arithmetic", "division by zero"); }
                else if (decide(s, mkEq(b.e, mkConst(0, d.w)))) fail(s, "arithmetic", "division by zero");
            }
            Val r;
            if (!a.e && !b.e && d.w <= 64) r.v = k >= FADD ? foldFp(k, d.w, d.w, a.v, b.v) : foldBin(k, d.w, a.v, b.v, d.w);
            else r = fromE(mk(k, d.w, toE(a, d.w), toE(b, d.w)));
            if (d.w == 80) throw Unsupported{"long double arithmetic"};
            Frame& f = top(s); f.regs[d.dst] = r; ++f.pc;
            return true;
        }
        case Instruction::FRem:
        {
            Val a = opv(*fp, d.ops[0]), b = opv(*fp, d.ops[1]);
            if (d.w != 64) throw Unsupported{"frem"};
            double x = asDbl(concretize(s, a)), y = asDbl(concretize(s, b));
            Frame& f = top(s); f.regs[d.dst] = cv(ofDbl(std::fmod(x, y))); ++f.pc; return true;
        }
        case Instruction::FNeg:
        {
            Val a = opv(*fp, d.ops[0]);
            Frame& f = top(s); f.regs[d.dst] = fromE(mk(XOR, d.w, toE(a, d.w), mkConst(1ull << (d.w - 1), d.w))); ++f.pc; return true;
        }
        case Instruction::ICmp:
        {
            if (d.ndst != 1) { uint32_t n = d.ndst; for (uint32_t i = 0; i < n; ++i) { Frame& f = top(s); unsigned w = d.widths[i]; f.regs[d.dst + i] = fromE(cmpE(d.pred, toE(opv(f, d.ops[i]), w), toE(opv(f, d.ops[n + i]), w))); } ++top(s).pc; return true; }
            Val a = opv(*fp, d.ops[0]), b = opv(*fp, d.ops[1]);
            unsigned w = d.widths[0];
            Val r;
            if (!a.e && !b.e && w <= 64)
            {
                uint64_t x = a.v, y = b.v; int64_t sx = sext64(x, w), sy = sext64(y, w); bool t = false;
                switch (d.pred)
                {
                    case CmpInst::ICMP_EQ: t = x == y; break; case CmpInst::ICMP_NE: t = x != y; break;
                    case CmpInst::ICMP_ULT: t = x < y; break; case CmpInst::ICMP_ULE: t = x <= y; break; case CmpInst::ICMP_UGT: t = x > y; break; case CmpInst::ICMP_UGE: t = x >= y; break;
                    case CmpInst::ICMP_SLT: t = sx < sy; break; case CmpInst::ICMP_SLE: t = sx <= sy; break; case CmpInst::ICMP_SGT: t = sx > sy; break; case CmpInst::ICMP_SGE: t = sx >= sy; break;
                }
                r.v = t;
            }
            else r = fromE(cmpE(d.pred, toE(a, w), toE(b, w)));
            Frame& f = top(s); f.regs[d.dst] = r; ++f.pc;
            return true;
        }
        case Instruction::FCmp:
        {
            unsigned w = d.widths[0];
            if (w == 80) throw Unsupported{"long double comparison"};
            E r = fcmpE(d.pred, toE(opv(*fp, d.ops[0]), w), toE(opv(*fp, d.ops[1]), w));
            Frame& f = top(s); f.regs[d.dst] = fromE(r); ++f.pc;
            return true;
        }
        case Instruction::Select:
        {
            Val c = opv(*fp, d.ops[0]);
            uint32_t n = d.ndst;
            if (d.starts[1] != 1) throw Unsupported{"vector select"};
            if (c.e && !c.e->hasUninit)
            {
                // do not carry uninitialised storage along inside a conditional value
                bool un = false;
                for (uint32_t i = 0; i < 2 * n; ++i) { const Val& x = opv(*fp, d.ops[1 + i]); un = un || (x.e && x.e->hasUninit); }
                if (un) { uint64_t t = decide(s, c.e); c = Val(); c.v = t; }
            }
            Frame& f = top(s);
            for (uint32_t i = 0; i < n; ++i)
            {
                Val a = opv(f, d.ops[1 + i]), b = opv(f, d.ops[1 + n + i]);
                unsigned w = d.widths[1 + i];
                if (!c.e) f.regs[d.dst + i] = (c.v & 1) ? a : b;
                else f.regs[d.dst + i] = fromE(mkIte(c.e, toE(a, w), toE(b, w)));
            }
            ++f.pc;
            return true;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
        {
            if (d.ndst != 1)
            {
                if (d.opc == Instruction::Freeze || (d.ops.size() == d.ndst))
                {
                    for (uint32_t i = 0; i < d.ndst; ++i) { Frame& f = top(s); if (d.opc == Instruction::Freeze || d.opc == Instruction::BitCast) f.regs[d.dst + i] = opv(f, d.ops[i]); else throw Unsupported{"vector cast"}; }
                    ++top(s).pc; return true;
                }
                throw Unsupported{"vector cast"};
            }
            if (d.ops.size() != 1) throw Unsupported{"vector cast"};
            Val a = opv(*fp, d.ops[0]); unsigned w = d.widths[0];
            Val r;
            if (!a.e && d.w <= 64 && w <= 64) r.v = d.opc == Instruction::SExt ? ((uint64_t)sext64(a.v, w) & maskw(d.w)) : (a.v & maskw(d.w));
            else
            {
                E e = toE(a, w);
                if (d.opc == Instruction::SExt) e = mkSext(e, d.w);
                else if (d.w > w) e = mkZext(e, d.w);
                else if (d.w < w) e = mkExtract(e, 0, d.w);
                r = fromE(e);
            }
            Frame& f = top(s); f.regs[d.dst] = r; ++f.pc;
            return true;
        }
        case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
        {
            unsigned w = d.widths[0];
            if (d.w == 80 || w == 80) throw Unsupported{"long double conversion"};
            K k = d.opc == Instruction::SIToFP ? SITOFP : d.opc == Instruction::UIToFP ? UITOFP : d.opc == Instruction::FPToSI ? FPTOSI : d.opc == Instruction::FPToUI ? FPTOUI : FCVT;
            Val r = fromE(mk(k, d.w, toE(opv(*fp, d.ops[0]), w)));
            Frame& f = top(s); f.regs[d.dst] = r; ++f.pc;
            return true;
        }
        case Instruction::GetElementPtr:
        {
            Val p = opv(*fp, d.ops[0]);
            if (!p.e)
            {
                uint64_t x = p.v + d.gepOff; E e = nullptr;
                for (auto& g : d.gepIdx)
                {
                    Val i = opv(*fp, d.ops[g.first]); unsigned w = d.widths[g.first];
                    if (!i.e) { int64_t t = sext64(i.v, w) * g.second; if (e) e = mk(ADD, 64, e, mkConst(t, 64)); else x += t; }
                    else { E t = mk(MUL, 64, mkSext(i.e, 64), mkConst(g.second, 64)); e = e ? mk(ADD, 64, e, t) : mk(ADD, 64, t, mkConst(x, 64)); if (e) x = 0; }
                }
                Frame& f = top(s);
                if (e) f.regs[d.dst] = fromE(e); else f.regs[d.dst] = cv(x);
                ++f.pc;
                return true;
            }
            E e = mk(ADD, 64, p.e, mkConst(d.gepOff, 64));
            for (auto& g : d.gepIdx) { Val i = opv(*fp, d.ops[g.first]); unsigned w = d.widths[g.first]; e = mk(ADD, 64, e, mk(MUL, 64, mkSext(toE(i, w), 64), mkConst(g.second, 64))); }
            Frame& f = top(s); f.regs[d.dst] = fromE(e); ++f.pc;
            return true;
        }
        case Instruction::Alloca:
        {
            uint64_t n = concretize(s, opv(*fp, d.ops[0])) * d.a0;
            if (n > gMaxObj) throw Unsupported{"large alloca"};
            uint64_t a = newObj(s, n, OStack, "stack", true);
            Frame& f = top(s); f.allocas.push_back(idOf(a)); f.regs[d.dst] = cv(a); ++f.pc;
            return true;
        }
        case Instruction::Load:
        {
            if (cast<LoadInst>(d.I)->isAtomic() && schedPoint(s)) return true;
            Val p = opv(*fp, d.ops[0]);
            if (d.lay.size() == 1)
            {
                if (d.lay[0].second == 80) throw Unsupported{"long double load"};
                if (s.threads.size() > 1)
                {
                    auto* li = cast<LoadInst>(d.I); uint64_t a = concretize(s, p);
                    loadMem(s, cv(a), d.lay[0].second);
                    touch(s, a, (d.lay[0].second + 7) / 8, AccRead | (li->isAtomic() ? AccAtomic : 0));
                    if (li->isAtomic()) syncAtomic(s, a, true, false, false, li->getOrdering());
                }
                Val v = loadMem(s, p, d.lay[0].second);
                Frame& f = top(s); f.regs[d.dst] = v; ++f.pc; return true;
            }
            uint64_t b = concretize(s, p);
            for (size_t i = 0; i < d.lay.size(); ++i) { Val v = loadMem(s, cv(b + d.lay[i].first), d.lay[i].second); top(s).regs[d.dst + i] = v; }
            ++top(s).pc;
            return true;
        }
        case Instruction::Store:
        {
            if (cast<StoreInst>(d.I)->isAtomic() && schedPoint(s)) return true;
            size_t n = d.lay.size();
            Val p = opv(*fp, d.ops[n]);
            if (n == 1) { if (d.lay[0].second == 80) throw Unsupported{"long double store"}; storeMem(s, p, opv(*fp, d.ops[0]), d.lay[0].second);
                if (s.threads.size() > 1)
                {
                    auto* si = cast<StoreInst>(d.I); uint64_t a = concretize(s, p);
                    touch(s, a, (d.lay[0].second + 7) / 8, AccWrite | (si->isAtomic() ? AccAtomic : 0));
                    if (si->isAtomic()) syncAtomic(s, a, false, true, false, si->getOrdering());
                }
                ++top(s).pc; return true; }
            uint64_t b = concretize(s, p);
            for (size_t i = 0; i < n; ++i) storeMem(s, cv(b + d.lay[i].first), opv(*s.stk().back(), d.ops[i]), d.lay[i].second);
            ++top(s).pc;
            return true;
        }
        case Instruction::Fence: syncFence(s, cast<FenceInst>(d.I)->getOrdering()); ++top(s).pc; return true;
        case Instruction::AtomicRMW:
        {
            if (schedPoint(s)) return true;
            Val p = opv(*fp, d.ops[0]), x = opv(*fp, d.ops[1]);
            unsigned w = d.widths[1];
            Val old = loadMem(s, p, w);
            E o = toE(old, w), v = toE(x, w), r;
            switch (d.a0)
            {
                case AtomicRMWInst::Add: r = mk(ADD, w, o, v); break;
                case AtomicRMWInst::Sub: r = mk(SUB, w, o, v); break;
                case AtomicRMWInst::Xchg: r = v; break;
                case AtomicRMWInst::And: r = mkAnd(o, v); break;
                case AtomicRMWInst::Or: r = mkOr(o, v); break;
                case AtomicRMWInst::Xor: r = mk(XOR, w, o, v); break;
                default: throw Unsupported{"atomicrmw"};
            }
            storeMem(s, p, fromE(r), w);
            if (s.threads.size() > 1) { uint64_t a = concretize(s, p); touch(s, a, w / 8, AccWrite | AccAtomic); syncAtomic(s, a, true, true, true, cast<AtomicRMWInst>(d.I)->getOrdering()); }
            Frame& f = top(s); f.regs[d.dst] = old; ++f.pc;
            return true;
        }
        case Instruction::AtomicCmpXchg:
        {
            if (schedPoint(s)) return true;
            Val p = opv(*fp, d.ops[0]), c = opv(*fp, d.ops[1]), n = opv(*fp, d.ops[2]);
            unsigned w = d.widths[1];
            Val old = loadMem(s, p, w);
            E eq = mkEq(toE(old, w), toE(c, w));
            if (s.threads.size() > 1)
            {
                auto* ci = cast<AtomicCmpXchgInst>(d.I); uint64_t a = concretize(s, p);
                bool ok = decide(s, eq);
                eq = mkConst(ok, 1);
                touch(s, a, w / 8, (ok ? AccWrite : AccRead) | AccAtomic);
                if (ok) syncAtomic(s, a, true, true, true, ci->getSuccessOrdering()); else syncAtomic(s, a, true, false, false, ci->getFailureOrdering());
            }
            storeMem(s, p, fromE(mkIte(eq, toE(n, w), toE(old, w))), w);
            Frame& f = top(s); f.regs[d.dst] = old; f.regs[d.dst + 1] = fromE(eq); ++f.pc;
            return true;
        }
        case Instruction::ExtractValue:
        {
            Frame& f = top(s);
            for (uint32_t i = 0; i < d.ndst; ++i) f.regs[d.dst + i] = opv(f, d.ops[d.a0 + i]);
            ++f.pc; return true;
        }
        case Instruction::InsertValue:
        {
            Frame& f = top(s);
            uint32_t n = d.ndst, m = d.ops.size() - n;
            static std::vector<Val> t; t.clear();
            for (uint32_t i = 0; i < n; ++i) t.push_back(opv(f, d.ops[i]));
            for (uint32_t i = 0; i < m; ++i) t[d.a0 + i] = opv(f, d.ops[n + i]);
            for (uint32_t i = 0; i < n; ++i) f.regs[d.dst + i] = t[i];
            ++f.pc; return true;
        }
        case Instruction::ExtractElement:
        {
            uint32_t n = d.starts[1];
            uint64_t i = concretize(s, opv(*fp, d.ops[n]));
            Frame& f = top(s); f.regs[d.dst] = i < n ? opv(f, d.ops[i]) : cv(0); ++f.pc; return true;
        }
        case Instruction::InsertElement:
        {
            uint32_t n = d.ndst;
            uint64_t i = concretize(s, opv(*fp, d.ops[n + 1]));
            Frame& f = top(s);
            std::vector<Val> t; for (uint32_t j = 0; j < n; ++j) t.push_back(opv(f, d.ops[j]));
            if (i < n) t[i] = opv(f, d.ops[n]);
            for (uint32_t j = 0; j < n; ++j) f.regs[d.dst + j] = t[j];
            ++f.pc; return true;
        }
        case Instruction::ShuffleVector:
        {
            auto* sv = cast<ShuffleVectorInst>(d.I);
            Frame& f = top(s);
            std::vector<Val> t;
            for (int m : sv->getShuffleMask()) t.push_back(m < 0 ? cv(0) : opv(f, d.ops[m]));
            for (uint32_t j = 0; j < d.ndst; ++j) f.regs[d.dst + j] = t[j];
            ++f.pc; return true;
        }
        case Instruction::Br:
        {
            if (d.ops.empty()) { jump(s, d.bb0); return true; }
            Val c = opv(*fp, d.ops[0]);
            bool t = c.e ? decide(s, c.e) : (c.v & 1);
            jump(s, t ? d.bb0 : d.bb1);
            return true;
        }
        case Instruction::Switch:
        {
            Val c = opv(*fp, d.ops[0]); unsigned w = d.widths[0];
            if (!c.e)
            {
                uint32_t t = d.bb0;
                for (auto& cs : d.cases) if (cs.first == c.v) { t = cs.second; break; }
                jump(s, t);
                return true;
            }
            if (c.e->k == ITE && (isC(c.e->b) || isC(c.e->c)))
            {
                // decide per target anyway
            }
            // one decision per distinct target
            std::vector<std::pair<uint32_t, E>> tg;
            for (auto& cs : d.cases)
            {
                if (cs.second == d.bb0) continue;
                E eq = mkEq(c.e, mkConst(cs.first, w));
                bool found = false;
                for (auto& t : tg) if (t.first == cs.second) { t.second = mkOr(t.second, eq); found = true; break; }
                if (!found) tg.push_back({cs.second, eq});
            }
            for (auto& t : tg) if (decide(s, t.second)) { jump(s, t.first); return true; }
            jump(s, d.bb0);
            return true;
        }
        case Instruction::Ret:
        {
            std::vector<Val> rv;
            for (auto& o : d.ops) rv.push_back(opv(*fp, o));
            const DInst* cl = fp->call; uint8_t sp = fp->special; uint64_t sa = fp->specialArg;
            popFrame(s);
            if (sp == 1) { (*onSummaryRet)(s, rv.empty() ? Val() : rv[0]); return false; }
            if (sp == 2) { finishDtorFree(s, sa); return true; }
            if (s.stk().empty())
            {
                // thread finished
                std::vector<int> run = runnable(s, false);
                if (run.empty()) { if (s.joining < 0) return false; s.cur = s.joining; return true; }
                if (run.size() == 1) { s.cur = run[0]; return true; }
                chooseThread(s, run, false);
                return true;
            }
            if (!cl) return true;   // continue the frame below as it stands
            {
                Frame& f = top(s);
                for (size_t i = 0; i < rv.size() && i < cl->ndst; ++i) f.regs[cl->dst + i] = rv[i];
            }
            advance(s, *cl);
            return true;
        }
        case Instruction::Call: case Instruction::Invoke:
        {
            if (d.native >= 0) { advance(s, d); return true; }
            size_t na = cast<CallBase>(d.I)->arg_size();
            std::vector<Val> a;
            a.reserve(na);
            size_t nflat = d.starts[na];
            for (size_t i = 0; i < nflat; ++i) a.push_back(opv(*fp, d.ops[i]));
            FnInfo* fn = d.callee;
            if (!fn)
            {
                uint64_t fa = concretize(s, opv(*fp, d.ops[nflat]));
                auto it = gFnByAddr.find(fa);
                if (it == gFnByAddr.end()) fail(s, "memory", "call through an invalid function pointer");
                fn = it->second;
            }
            if (fn->name == "sym_yield") { if (schedPoint(s)) return true; advance(s, d); return true; }
            if (fn->name == "sym_join_all")
            {
                // the calling thread waits until every other one is finished
                s.joining = -1;
                std::vector<int> run = runnable(s, false);
                if (run.empty())
                {
                    if (s.races)
                    {
                        if (s.races.use_count() > 1) s.races = std::make_shared<Races>(*s.races);
                        for (size_t i = 0; i < s.threads.size(); ++i) join(s.races->vc[s.cur], s.races->vc[i]);
                    }
                    s.schedPoint = false; advance(s, d); return true;
                }
                s.joining = s.cur;
                if (run.size() == 1) s.cur = run[0]; else chooseThread(s, run, false);
                return true;
            }
            if (s.threads.size() > 1 && fn->name.compare(0, 14, "pthread_mutex_") == 0) throw Unsupported{"mutex between threads"};
            call(s, d, fn, a);
            return true;
        }
        case Instruction::Resume: { uint64_t p = concretize(s, opv(*fp, d.ops[0])); unwind(s, p); return true; }
        case Instruction::Unreachable: fail(s, "control", "control reached a point the compiler proved unreachable (undefined behaviour)");
        case Instruction::LandingPad: throw Unsupported{"landingpad reached"};
        default: throw Unsupported{std::string("instruction ") + d.I->getOpcodeName()};
    }
}

// ------------------------------------------------------------------ exploration
static void finishPath(State& s)
{
    ++gPaths;
    gMaxDepth = std::max(gMaxDepth, s.depth);
    // reservoir sample of finished paths for validation against the native build
    Sample sm;
    auto take = [&]() {
        sm.inputs = inputsOf(s, *s.model);
        for (E e : s.outs) sm.outs.push_back(evalE(e, *s.model));
    };
    bool uninit = false;
    for (E e : s.outs) if (e->hasUninit) uninit = true;
    if (uninit) return;
    if (gSamplesV.size() < gSamples) { take(); gSamplesV.push_back(sm); }
    else { uint64_t j = rnd() % gPaths; if (j < gSamples) { take(); gSamplesV[j] = sm; } }
}
static void maybeSplit(std::vector<StateP>& work);
static std::string gMyOut;

static bool explore(std::vector<StateP>& work, const std::function<void(State&, const Val&)>* onSummaryRet, uint64_t limit)
{
    bool nested = onSummaryRet != nullptr;
    uint64_t done = 0, lastCheck = 0, lastQueries = 0, lastForks = 0, nestedSteps = 0;
    while (!work.empty())
    {
        if (!nested) { maybeSplit(work); if (work.empty()) break; }
        StateP s = std::move(work.back());
        work.pop_back();
        uint64_t startSteps = s->steps;
        try
        {
            while (true)
            {
                if (!step(*s, onSummaryRet)) { if (!nested) finishPath(*s); break; }
                if (nested && ++nestedSteps > 400000) return false;
                if (s->steps > gMaxSteps)
                {
                    report(*s, "nontermination", "execution exceeds the step bound", *s->model);
                    incomplete(*s, "step bound");
                    break;
                }
                if (!nested && ((gSteps - lastCheck) > 200000 || gStats.z3Queries + gStats.domainDecided - lastQueries > 200 || gForks - lastForks > 200))
                {
                    lastCheck = gSteps; lastQueries = gStats.z3Queries + gStats.domainDecided; lastForks = gForks;
                    if (gSh->stop) return true;
                    if (now() - gStart > gTimeLimit || rssMb() > 3300) { if (getenv("VX_STACK")) report(*s, "slow", "where the time went", *s->model); gSh->timeout = 1; gSh->stop = 1; return true; }
                    if (exprCount() > 40000000) { incomplete(*s, "expression memory bound"); break; }
                }
            }
        }
        catch (PathEnd&) { if (!nested) ++gPaths; else if (false) return false; }
        catch (Unsupported& u)
        {
            if (nested) return false;
            incomplete(*s, "unsupported: " + u.msg);
        }
        (void)startSteps;
        if (nested && ++done > limit) return false;
        if (!nested && gSh->stop) return true;
        if (!nested && now() - gStart > gTimeLimit) { gSh->timeout = 1; gSh->stop = 1; return true; }
    }
    return true;
}

static std::string jstr(const std::string& x)
{
    std::string r = "\"";
    for (unsigned char c : x)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string jpairs(const std::vector<std::pair<std::string, uint64_t>>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::string("[") + jstr(v[i].first) + "," + std::to_string(v[i].second) + "]";
    return r + "]";
}
static void writeResults(const std::string& file, bool complete)
{
    std::ofstream o(file);
    o << "{\"paths\":" << gPaths << ",\"forks\":" << gForks << ",\"steps\":" << gSteps << ",\"checks\":" << gChecks << ",\"checks_const\":" << gChecksConst << ",\"checks_solved\":" << gChecksSolved
      << ",\"assumed_out\":" << gAssumed << ",\"merges\":" << gMerges << ",\"max_depth\":" << gMaxDepth
      << ",\"z3_queries\":" << gStats.z3Queries << ",\"z3_sat\":" << gStats.z3Sat << ",\"z3_unsat\":" << gStats.z3Unsat << ",\"z3_unknown\":" << gStats.z3Unknown
      << ",\"z3_seconds\":" << gStats.z3Seconds << ",\"z3_max\":" << gStats.z3Max << ",\"domain_decided\":" << gStats.domainDecided << ",\"cache_hits\":" << gStats.cacheHits << ",\"model_hits\":" << gStats.modelHits
      << ",\"exprs\":" << exprCount() << ",\"crosscheck_failed\":" << (gCrossCheckFailed ? "true" : "false")
      << ",\"complete\":" << (complete ? "true" : "false");
    o << ",\"incomplete\":[";
    bool first = true;
    for (auto& p : gIncomplete) { o << (first ? "" : ",") << "[" << jstr(p.first) << "," << p.second << "]"; first = false; }
    o << "],\"cover\":{"; first = true;
    for (auto& p : gCover) { o << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
    o << "},\"violations\":["; first = true;
    for (auto& p : gViol)
    {
        auto& v = p.second;
        o << (first ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"label\":" << jstr(v.label) << ",\"where\":" << jstr(v.where) << ",\"stack\":" << jstr(v.stack) << ",\"count\":" << v.cnt
          << ",\"inputs\":" << jpairs(v.inputs) << ",\"notes\":" << jpairs(v.notes) << "}";
        first = false;
    }
    o << "],\"samples\":["; first = true;
    for (auto& sm : gSamplesV)
    {
        o << (first ? "" : ",") << "{\"inputs\":" << jpairs(sm.inputs) << ",\"outs\":[";
        for (size_t i = 0; i < sm.outs.size(); ++i) o << (i ? "," : "") << sm.outs[i];
        o << "]}"; first = false;
    }
    o << "],\"functions\":["; first = true;
    for (auto& p : gFns) if (p.second->executed && p.second->repo && !p.second->decl) { o << (first ? "" : ",") << jstr(demangled(p.second->name)); first = false; }
    o << "],\"native\":["; first = true;
    for (auto& p : gFns) if (p.second->executed && p.second->native >= 0) { o << (first ? "" : ",") << jstr(p.second->name); first = false; }
    o << "],\"hot\":["; first = true;
    std::vector<std::pair<uint64_t, std::string>> hot;
    for (auto& p : gFns) if (p.second->forks) hot.push_back({p.second->forks, demangled(p.second->name)});
    std::sort(hot.rbegin(), hot.rend());
    for (size_t i = 0; i < hot.size() && i < 8; ++i) { o << (first ? "" : ",") << "[" << jstr(hot[i].second.substr(0, 160)) << "," << hot[i].first << "]"; first = false; }
    o << "]}\n";
}

static int gProcNo = 0;
static double gLastSplit = 0;
static void resetCounters()
{
    gPaths = gForks = gSteps = gChecks = gChecksConst = gChecksSolved = gAssumed = gMerges = gMaxDepth = 0;
    gStats = SolverStats();
    gViol.clear(); gIncomplete.clear(); gCover.clear(); gSamplesV.clear();
    for (auto& p : gFns) { p.second->forks = 0; }
}
static pid_t gRoot;
static void maybeSplit(std::vector<StateP>& work)
{
    { static unsigned chk = 0; if ((++chk & 255) == 0 && gProcNo && kill(gRoot, 0)) _exit(9); }
    if (work.size() < 2 || gJobs < 2) return;
    static uint64_t tick = 0;
    if ((++tick & 3) != 0 && work.size() < 8) return;
    if (gSh->active >= (int)gJobs) return;
    double t = now();
    if (t - gLastSplit < 0.02) return;
    int a = __sync_add_and_fetch(&gSh->active, 1);
    if (a > (int)gJobs) { __sync_sub_and_fetch(&gSh->active, 1); return; }
    gLastSplit = t;
    int no = __sync_add_and_fetch(&gSh->procs, 1);
    pid_t p = fork();
    if (p < 0) { __sync_sub_and_fetch(&gSh->active, 1); return; }
    // give every other state to the child
    std::vector<StateP> mine, theirs;
    for (size_t i = 0; i < work.size(); ++i) (i % 2 ? mine : theirs).push_back(std::move(work[i]));
    if (p == 0)
    {
        gProcNo = no;
        gMyOut = gOutPrefix + "." + std::to_string(no) + ".json";
        resetCounters();
        gRng = 88172645463325252ull * (no + 1);
        work.swap(theirs);
        gLastSplit = now();
    }
    else work.swap(mine);
}

// ------------------------------------------------------------------ start-up
static void setupGlobals(State& s)
{
    for (auto& F : *M)
    {
        uint64_t a = newObj(s, 1, OFunc, "function", false);
        gGlobalAddr[&F] = a;
        FnInfo* f = fnInfo(&F);
        f->addr = a; gFnByAddr[a] = f;
    }
    std::vector<const GlobalVariable*> gs;
    for (auto& G : M->globals())
    {
        uint64_t n = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8;
        uint64_t a = newObj(s, std::max<uint64_t>(n, 1), OGlobal, "global", false);
        gGlobalAddr[&G] = a; gGlobalByAddr[a] = &G;
        gs.push_back(&G);
    }
    for (auto* G : gs)
    {
        if (!G->hasInitializer()) continue;
        Obj* o = wrObj(s, idOf(gGlobalAddr[G]));
        try { initGlobal(o, G->getInitializer(), 0); }
        catch (Unsupported& u) { if (gVerbose) fprintf(stderr, "global %s: %s\n", G->getName().str().c_str(), u.msg.c_str()); }
        o->ro = G->isConstant();
    }
}

static void runPasses(Module& m, const std::string& pipeline)
{
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto err = PB.parsePassPipeline(MPM, pipeline)) { errs() << "pass pipeline: " << toString(std::move(err)) << "\n"; exit(3); }
    MPM.run(m, MAM);
}

int main(int argc, char** argv)
{
    std::vector<std::string> files;
    std::string out = "/dev/stdout";
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") gEntry = nx();
        else if (a == "--out") gOutPrefix = nx();
        else if (a == "--jobs") gJobs = atoi(nx().c_str());
        else if (a == "--time") gTimeLimit = atof(nx().c_str());
        else if (a == "--max-steps") gMaxSteps = atoll(nx().c_str());
        else if (a == "--max-viol") gMaxViol = atoi(nx().c_str());
        else if (a == "--samples") gSamples = atoi(nx().c_str());
        else if (a == "--solver-timeout") gSolverTimeoutMs = atoi(nx().c_str());
        else if (a == "--crosscheck") gCrossCheck = true;
        else if (a == "--no-merge") gMerge = false;
        else if (a == "--verbose") gVerbose = true;
        else if (a == "--passes") gPasses = nx();
        else if (a == "--repo") gRepoPrefix = nx();
        else if (a == "--seed") gSeed = atoll(nx().c_str());
        else if (a == "--concrete") { gConcreteMode = true; std::stringstream ss(nx()); std::string t; while (std::getline(ss, t, ',')) gConcrete.push_back(strtoull(t.c_str(), nullptr, 0)); }
        else files.push_back(a);
    }
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512ull << 20; setrlimit(RLIMIT_STACK, &rl);
    gRng ^= gSeed * 0x9E3779B97F4A7C15ull;
    LLVMContext C;
    SMDiagnostic err;
    for (auto& f : files)
    {
        auto m = parseIRFile(f, err, C);
        if (!m) { err.print("symx", errs()); return 3; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m), Linker::Flags::None)) { fprintf(stderr, "link failed\n"); return 3; }
    }
    // internalise everything but the entry, then simplify
    for (auto& F : *M)
    {
        if (!F.isDeclaration() && F.getName() != gEntry && !F.hasLocalLinkage())
        { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); F.setDSOLocal(true); }
        F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    }
    for (auto& G : M->globals()) if (G.hasInitializer() && !G.hasLocalLinkage() && !G.getName().starts_with("llvm.")) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); G.setVisibility(GlobalValue::DefaultVisibility); G.setDSOLocal(true); }
    if (gPasses.empty())
        gPasses = "globaldce,function(sroa<modify-cfg>,early-cse,simplifycfg<no-switch-to-lookup;keep-loops>,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup;keep-loops>),cgscc(function-attrs),function(early-cse,simplifycfg<no-switch-to-lookup;keep-loops>),globaldce";
    if (gPasses != "none") runPasses(*M, gPasses);
    DL = &M->getDataLayout();
    setupNatives();
    gSh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)gSh, 0, sizeof *gSh);
    gStart = now();
    StateP s0 = std::make_unique<State>();
    setupGlobals(*s0);
    // functions whose paths may be merged: no writes, no exceptions, small scalar result
    for (auto& F : *M)
    {
        FnInfo* f = fnInfo(&F);
        if (!F.isDeclaration() && F.onlyReadsMemory() && F.doesNotThrow() && F.getReturnType()->isIntegerTy(1)) f->mergeable = true;
    }
    Function* entry = M->getFunction(gEntry);
    if (!entry) { fprintf(stderr, "no entry %s\n", gEntry.c_str()); return 3; }
    s0->threads.emplace_back();
    try
    {
        pushFrame(*s0, fnInfo(entry), {}, nullptr);
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors", true))
        {
            if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
            {
                std::vector<std::pair<uint64_t, const Function*>> cs;
                for (auto& o : arr->operands())
                {
                    auto* st = cast<ConstantStruct>(o.get());
                    cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts())});
                }
                std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
                for (size_t i = cs.size(); i-- > 0;) pushFrame(*s0, fnInfo(cs[i].second), {}, nullptr);
            }
        }
    }
    catch (Unsupported& u) { fprintf(stderr, "start-up: %s\n", u.msg.c_str()); return 3; }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    gMyOut = gOutPrefix + ".0.json";
    gSh->active = 1;
    pid_t root = gRoot = getpid();
    std::vector<StateP> work;
    work.push_back(std::move(s0));
    gWork = &work;
    bool ok = true;
    try { explore(work, nullptr, 0); } catch (Unsupported& u) { fprintf(stderr, "internal: %s\n", u.msg.c_str()); ok = false; }
    ok = ok && work.empty() && !gSh->timeout;
    writeResults(gMyOut, ok);
    __sync_sub_and_fetch(&gSh->active, 1);
    if (getpid() != root) _exit(0);
    // wait for all descendants
    int st, bad = 0;
    while (true)
    {
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { ++bad; fprintf(stderr, "worker %d ended abnormally (status %d)\n", (int)p, st); __sync_sub_and_fetch(&gSh->active, 1); }
    }
    fprintf(stderr, "symx: %d processes, %d lost, %.1fs%s\n", gSh->procs + 1, bad, now() - gStart, gSh->timeout ? " TIMEOUT" : "");
    printf("{\"processes\":%d,\"lost\":%d,\"timeout\":%s,\"stopped\":%s,\"wall\":%.2f}\n", gSh->procs + 1, bad, gSh->timeout ? "true" : "false", gSh->stop ? "true" : "false", now() - gStart);
    fflush(stdout); fflush(stderr);
    _exit(bad ? 4 : 0);
}
