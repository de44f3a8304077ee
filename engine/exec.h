#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <deque>
#include <functional>
#include <map>
#include <set>

struct Val
{
    E e = nullptr;
    uint64_t v = 0;
};

struct Opnd
{
    bool c = true;      // constant
    uint32_t slot = 0;
    Val v;
};

struct FnInfo;
struct DInst
{
    unsigned opc = 0;
    const llvm::Instruction* I = nullptr;
    uint32_t dst = 0;           // first destination slot
    uint32_t ndst = 0;
    uint16_t w = 0;             // result (or stored) width
    uint16_t w2 = 0;            // operand width
    unsigned pred = 0;
    std::vector<Opnd> ops;      // flattened
    std::vector<uint32_t> starts; // start of each original operand in ops (+ end)
    std::vector<uint16_t> widths; // per flattened operand
    // gep
    int64_t gepOff = 0;
    std::vector<std::pair<uint32_t, int64_t>> gepIdx; // op index, scale
    // memory layout of an aggregate load/store: (offset, width)
    std::vector<std::pair<uint32_t, uint16_t>> lay;
    uint32_t bb0 = 0, bb1 = 0;
    std::vector<std::pair<uint64_t, uint32_t>> cases;
    // calls
    FnInfo* callee = nullptr;   // direct
    int native = -1;
    uint64_t a0 = 0, a1 = 0;
    std::vector<int> agg;
};

struct PhiCopy { uint32_t dst; Opnd src; };
struct BBInfo
{
    uint32_t start = 0;
    std::map<uint32_t, std::vector<PhiCopy>> phis;  // by predecessor
    const llvm::BasicBlock* bb = nullptr;
};
struct FnInfo
{
    const llvm::Function* F = nullptr;
    std::string name;
    bool decoded = false, decl = false, executed = false, repo = false;
    bool mergeable = false;
    uint32_t nslots = 0;
    std::vector<DInst> code;
    std::vector<BBInfo> bbs;
    std::vector<uint32_t> argSlots;
    std::vector<uint16_t> argWidths;
    uint64_t addr = 0;
    int native = -2;
    uint64_t calls = 0;
    uint64_t forks = 0;
};

struct Frame
{
    FnInfo* fn = nullptr;
    uint32_t pc = 0;
    uint32_t bb = 0;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    const DInst* call = nullptr;
    uint8_t special = 0;        // 1 summary bottom, 2 free exception object on return
    uint64_t specialArg = 0;
    std::vector<Val> varargs;
};
typedef std::shared_ptr<Frame> FrameP;

enum ObjKind : uint8_t { OHeapNew, OHeapNewArr, OMalloc, OStack, OGlobal, OFunc, OExc };
struct Obj
{
    uint64_t size = 0;
    ObjKind kind = OGlobal;
    bool ro = false;
    std::vector<uint8_t> cb;
    std::vector<E> sb;        // empty: all concrete
    std::vector<bool> undef;  // empty: all defined
    const char* name = "";
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { std::array<ObjP, 64> o; };

struct ExcInfo { uint64_t ti = 0, dtor = 0; int handlers = 0; };

// happens-before order of the threads of one state, and who touched which byte last
enum { kMaxThreads = 4 };
typedef std::array<uint32_t, kMaxThreads> Clock;
struct RaceCell { Clock w{}, r{}, aw{}, ar{}; };
struct Races
{
    Clock vc[kMaxThreads] = {}, relFence[kMaxThreads] = {}, acqFence[kMaxThreads] = {};
    std::map<uint64_t, RaceCell> cells;     // by byte address
    std::map<uint64_t, Clock> released;     // by address of an atomic object
};

struct State
{
    std::vector<std::vector<FrameP>> threads; // empty stack = finished
    int cur = 0;
    std::vector<FrameP>& stk() { return threads[cur]; }
    std::vector<std::shared_ptr<Chunk>> mem;
    uint64_t nextId = 1;
    std::vector<E> pc;
    std::shared_ptr<std::vector<uint64_t>> model = std::make_shared<std::vector<uint64_t>>();
    std::vector<std::pair<uint32_t, const char*>> inputs;   // var index, name
    std::vector<E> outs;
    uint32_t nin = 0, nuninit = 0;
    std::map<uint64_t, ExcInfo> excs;
    std::vector<uint64_t> caught;
    int64_t heapLive = 0;
    uint64_t steps = 0, depth = 0;
    std::vector<std::pair<std::string, E>> notes;
    int joining = -1;          // the thread that waits for all others
    uint64_t firstShared = 0;  // objects from this id on were made while several threads ran
    std::shared_ptr<struct Races> races;
    bool schedPoint = false;   // the scheduling decision for the current instruction has been taken
};
