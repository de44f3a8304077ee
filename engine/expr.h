// Hash-consed bit-vector expressions (with IEEE float operations), constant folding and evaluation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <memory>
#include <array>

enum K : uint8_t
{
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
    CONCAT, EXTRACT, ZEXT, SEXT,
    EQ, ULT, ULE, SLT, SLE, ITE,
    FADD, FSUB, FMUL, FDIV, FOEQ, FOLT, FOLE, FUNO, FCVT, SITOFP, UITOFP, FPTOSI, FPTOUI,
};

typedef std::vector<uint32_t> VarVec;

struct Expr
{
    K k;
    uint16_t w;       // width in bits, 1..128 (CONST and VAR: 1..64)
    uint32_t id;
    Expr* a = nullptr;
    Expr* b = nullptr;
    Expr* c = nullptr;
    uint64_t val = 0; // CONST: value; VAR: variable index; EXTRACT: low bit
    const VarVec* vars = nullptr;
    bool hasUninit = false;
    uint64_t mx = 0;  // upper bound of the unsigned value (all ones when w > 64)
    // evaluation memo
    uint32_t epoch = 0;
    uint64_t ev = 0, evHi = 0;
};
typedef Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

struct VarInfo { unsigned w; bool uninit; std::string name; uint64_t mx; };   // mx: every value above it is excluded where the variable is created
extern std::vector<VarInfo> gVars;
extern std::vector<E> gVarExpr;

E mkConst(uint64_t v, unsigned w);
E mkVar(unsigned w, bool uninit, const std::string& name, uint64_t mx = ~0ull);
E mkBound(E var);           // var <= its upper bound, unsimplified
E mk(K k, unsigned w, E a, E b = nullptr, E c = nullptr, uint64_t val = 0);  // simplifying
static inline bool isC(E e) { return e->k == CONST; }
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E e, unsigned w);
E mkSext(E e, unsigned w);
E mkNot(E e);               // 1-bit
E mkIte(E c, E t, E f);
static inline E mkEq(E a, E b) { return mk(EQ, 1, a, b); }
static inline E mkAnd(E a, E b) { return mk(AND, a->w, a, b); }
static inline E mkOr(E a, E b) { return mk(OR, a->w, a, b); }

// evaluate under assignment (missing variables are 0); width<=64 result
uint64_t evalE(E e, const std::vector<uint64_t>& m);
// single 8-bit-or-less variable: set of values making the 1-bit expression true
const std::array<uint64_t, 4>& truthSet(E e);
uint64_t foldBin(K k, unsigned w, uint64_t a, uint64_t b, unsigned wa);
size_t exprCount();
std::string dumpE(E e, int depth = 8);
uint64_t foldFp(K k, unsigned w, unsigned wa, uint64_t a, uint64_t b);
