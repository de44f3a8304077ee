#include "expr.h"
#include <cmath>
#include <deque>

std::vector<VarInfo> gVars;
std::vector<E> gVarExpr;

namespace {
struct KeyHash { size_t operator()(const Expr* e) const {
    uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0); mix(e->val);
    return h; } };
struct KeyEq { bool operator()(const Expr* x, const Expr* y) const {
    return x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val; } };
std::unordered_set<Expr*, KeyHash, KeyEq> table;
std::deque<Expr> pool;
struct VVHash { size_t operator()(const VarVec& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 + x; return h; } };
std::unordered_set<VarVec, VVHash> varSets;
const VarVec* emptyVars = &*varSets.insert(VarVec()).first;
uint32_t gEpoch = 1;
}
size_t exprCount() { return pool.size(); }

static const VarVec* unionVars(const VarVec* a, const VarVec* b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    VarVec r; r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return &*varSets.insert(std::move(r)).first;
}

static unsigned bitsOf(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 1; }
static uint64_t boundOf(const Expr& e)
{
    if (e.w > 64) return ~0ull;
    uint64_t m = maskw(e.w);
    uint64_t r;
    switch (e.k)
    {
        case CONST: return e.val;
        case VAR: return std::min(m, gVars[e.val].mx);
        case ADD: if (__builtin_add_overflow(e.a->mx, e.b->mx, &r) || r > m) return m; return r;
        case MUL: if (__builtin_mul_overflow(e.a->mx, e.b->mx, &r) || r > m) return m; return r;
        case UDIV: return isC(e.b) && e.b->val ? e.a->mx / e.b->val : m;
        case UREM: return isC(e.b) && e.b->val ? std::min(e.a->mx, e.b->val - 1) : e.a->mx;
        case LSHR: return isC(e.b) ? (e.b->val >= e.w ? 0 : e.a->mx >> e.b->val) : e.a->mx;
        case AND: return std::min(e.a->mx, e.b->mx);
        case OR: case XOR: return maskw(bitsOf(std::max(e.a->mx, e.b->mx)));
        case CONCAT: return (e.a->mx << e.b->w) | e.b->mx;
        case EXTRACT: return e.a->w > 64 ? m : std::min(m, e.a->mx >> e.val) | ((e.a->mx >> e.val) > m ? m : 0);
        case ZEXT: return e.a->mx;
        case SEXT: return e.a->mx <= maskw(e.a->w) >> 1 ? e.a->mx : m;
        case ITE: return std::max(e.b->mx, e.c->mx);
        default: return m;
    }
}
static E intern(K k, unsigned w, E a, E b, E c, uint64_t val)
{
    Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.val = val;
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    t.id = pool.size();
    t.vars = emptyVars;
    if (a) { t.vars = a->vars; t.hasUninit = a->hasUninit; }
    if (b) { t.vars = unionVars(t.vars, b->vars); t.hasUninit |= b->hasUninit; }
    if (c) { t.vars = unionVars(t.vars, c->vars); t.hasUninit |= c->hasUninit; }
    if (k == VAR) { VarVec v{(uint32_t)val}; t.vars = &*varSets.insert(v).first; t.hasUninit = gVars[val].uninit; }
    t.mx = boundOf(t);
    pool.push_back(t);
    E e = &pool.back();
    table.insert(e);
    return e;
}

E mkConst(uint64_t v, unsigned w)
{
    if (w > 64) return intern(CONCAT, w, mkConst(0, w - 64), mkConst(v, 64), nullptr, 0);
    return intern(CONST, w, nullptr, nullptr, nullptr, v & maskw(w));
}
E mkVar(unsigned w, bool uninit, const std::string& name, uint64_t mx)
{
    gVars.push_back({w, uninit, name, mx});
    E e = intern(VAR, w, nullptr, nullptr, nullptr, gVars.size() - 1);
    gVarExpr.push_back(e);
    return e;
}

E mkBound(E var) { return intern(ULE, 1, var, mkConst(gVars[var->val].mx, var->w), nullptr, 0); }

uint64_t foldBin(K k, unsigned w, uint64_t a, uint64_t b, unsigned wa)
{
    uint64_t m = maskw(w);
    switch (k)
    {
        case ADD: return (a + b) & m;
        case SUB: return (a - b) & m;
        case MUL: return (a * b) & m;
        case UDIV: return b ? (a / b) & m : m;
        case UREM: return b ? (a % b) & m : a;
        case SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
        case SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case SHL: return b >= w ? 0 : (a << b) & m;
        case LSHR: return b >= w ? 0 : (a >> b) & m;
        case ASHR: { int64_t x = sext64(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sext64(a, wa) < sext64(b, wa);
        case SLE: return sext64(a, wa) <= sext64(b, wa);
        default: break;
    }
    fprintf(stderr, "foldBin: bad kind %d\n", k);
    abort();
}

static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
static uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t ofF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
uint64_t foldFp(K k, unsigned w, unsigned wa, uint64_t a, uint64_t b)
{
    switch (k)
    {
        case FADD: return w == 64 ? ofD(asD(a) + asD(b)) : ofF(asF(a) + asF(b));
        case FSUB: return w == 64 ? ofD(asD(a) - asD(b)) : ofF(asF(a) - asF(b));
        case FMUL: return w == 64 ? ofD(asD(a) * asD(b)) : ofF(asF(a) * asF(b));
        case FDIV: return w == 64 ? ofD(asD(a) / asD(b)) : ofF(asF(a) / asF(b));
        case FOEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
        case FOLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
        case FOLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
        case FUNO: return wa == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
        case FCVT: return w == wa ? a : (w == 64 ? ofD((double)asF(a)) : ofF((float)asD(a)));
        case SITOFP: { int64_t x = sext64(a, wa); return w == 64 ? ofD((double)x) : ofF((float)x); }
        case UITOFP: return w == 64 ? ofD((double)a) : ofF((float)a);
        case FPTOSI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.2e18)) return 0; return (uint64_t)(int64_t)d & maskw(w); }
        case FPTOUI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -1 && d < 1.84e19)) return 0; return (uint64_t)d & maskw(w); }
        default: abort();
    }
}

E mkNot(E e)
{
    if (isC(e)) return mkConst(!e->val, 1);
    if (e->k == XOR && isC(e->b) && e->b->val == 1) return e->a;
    // !(a<b) == b<=a : keeps path conditions short
    switch (e->k)
    {
        case ULT: return mk(ULE, 1, e->b, e->a);
        case ULE: return mk(ULT, 1, e->b, e->a);
        case SLT: return mk(SLE, 1, e->b, e->a);
        case SLE: return mk(SLT, 1, e->b, e->a);
        default: return intern(XOR, 1, e, mkConst(1, 1), nullptr, 0);
    }
}

E mkIte(E c, E t, E f)
{
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->k == XOR && isC(c->b)) return mkIte(c->a, f, t);
    if (t->w == 1)
    {
        if (isC(t)) return t->val ? mkOr(c, f) : mkAnd(mkNot(c), f);
        if (isC(f)) return f->val ? mkOr(mkNot(c), t) : mkAnd(c, t);
    }
    if (t->k == ITE && t->a == c) return mkIte(c, t->b, f);
    if (f->k == ITE && f->a == c) return mkIte(c, t, f->c);
    if (f->k == ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
    if (t->k == ZEXT && f->k == ZEXT && t->a->w == f->a->w) return mkZext(mkIte(c, t->a, f->a), t->w);
    return intern(ITE, t->w, c, t, f, 0);
}

E mkZext(E e, unsigned w)
{
    if (e->w == w) return e;
    if (isC(e)) { if (w <= 64) return mkConst(e->val, w); return intern(CONCAT, w, mkConst(0, w - e->w), e, nullptr, 0); }
    if (e->k == ZEXT) return mkZext(e->a, w);
    return intern(ZEXT, w, e, nullptr, nullptr, 0);
}
E mkSext(E e, unsigned w)
{
    if (e->w == w) return e;
    if (isC(e) && w <= 64) return mkConst((uint64_t)sext64(e->val, e->w), w);
    if (e->k == ZEXT) return mkZext(e->a, w);
    if (e->k == SEXT) return mkSext(e->a, w);
    if (e->w < 64 && e->mx <= maskw(e->w) >> 1) return mkZext(e, w);
    return intern(SEXT, w, e, nullptr, nullptr, 0);
}
E mkExtract(E e, unsigned lo, unsigned w)
{
    if (lo == 0 && w == e->w) return e;
    switch (e->k)
    {
        case CONST: return mkConst(lo >= 64 ? 0 : e->val >> lo, w);
        case EXTRACT: return mkExtract(e->a, lo + e->val, w);
        case CONCAT:
        {
            unsigned lw = e->b->w;
            if (lo + w <= lw) return mkExtract(e->b, lo, w);
            if (lo >= lw) return mkExtract(e->a, lo - lw, w);
            return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
        }
        case ZEXT:
        {
            unsigned iw = e->a->w;
            if (lo >= iw) return mkConst(0, w);
            if (lo + w <= iw) return mkExtract(e->a, lo, w);
            return mkZext(mkExtract(e->a, lo, iw - lo), w);
        }
        case SEXT:
            if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
            if (lo == 0) return mkSext(e->a, w);
            break;
        case AND: case OR: case XOR:
            return mk(e->k, w, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
        case ADD: case SUB: case MUL:
            if (lo == 0) return mk(e->k, w, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
            break;
        case ITE:
            if ((isC(e->b) || isC(e->c) || e->b->k == CONCAT || e->c->k == CONCAT || e->b->k == ZEXT || e->c->k == ZEXT || e->b->k == ITE || e->c->k == ITE || e->w == 64 || true))
                return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
            break;
        default: break;
    }
    return intern(EXTRACT, w, e, nullptr, nullptr, lo);
}
E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo) && w <= 64) return mkConst((hi->val << lo->w) | lo->val, w);
    if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, lo->val, w);
    if (hi->k == EXTRACT && hi->a == lo && hi->val == lo->w) return mkExtract(hi->a, 0, w);
    if (hi->k == EXTRACT && lo->k == CONCAT && lo->a->k == EXTRACT && lo->a->a == hi->a && hi->val == lo->a->val + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->val, hi->w + lo->a->w), lo->b);
    if (isC(hi) && hi->val == 0) return mkZext(lo, w);
    // both ITE on the same condition
    if (hi->k == ITE && lo->k == ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->k == ITE && isC(lo) && isC(hi->b) && isC(hi->c)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    if (lo->k == ITE && isC(hi) && isC(lo->b) && isC(lo->c)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    return intern(CONCAT, w, hi, lo, nullptr, 0);
}

static bool isCmp(K k) { return k >= EQ && k <= SLE; }
// ITE tree with constant leaves only, small
static int iteConstLeaves(E e, int budget)
{
    if (isC(e)) return 1;
    if (e->k != ITE || budget <= 0) return 1000;
    int l = iteConstLeaves(e->b, budget - 1);
    if (l >= 1000) return 1000;
    return l + iteConstLeaves(e->c, budget - 1);
}

static E narrow(E e, unsigned n) { return n == e->w ? e : mkExtract(e, 0, n); }

uint64_t evalE(E e, const std::vector<uint64_t>& m);
E mk(K k, unsigned w, E a, E b, E c, uint64_t val)
{
    switch (k)
    {
        case EXTRACT: return mkExtract(a, val, w);
        case CONCAT: return mkConcat(a, b);
        case ZEXT: return mkZext(a, w);
        case SEXT: return mkSext(a, w);
        case ITE: return mkIte(a, b, c);
        default: break;
    }
    if (k >= FADD)
    {
        if (isC(a) && (!b || isC(b))) return mkConst(foldFp(k, w, a->w, a->val, b ? b->val : 0), w);
        return intern(k, w, a, b, c, val);
    }
    if (isC(a) && isC(b)) return mkConst(foldBin(k, w, a->val, b->val, a->w), w);
    if (w > 64 || a->w > 64)
    {
        auto cst = [](E e) { return isC(e) || (e->k == CONCAT && isC(e->a) && isC(e->b)); };
        if (cst(a) && b && cst(b) && !c && a->w <= 128 && k != SDIV && k != SREM && k != ASHR && k != SLT && k != SLE)
        {
            E n = intern(k, w, a, b, nullptr, val);
            evalE(n, {});
            if (w <= 64) return mkConst(n->ev, w);
            return mkConcat(mkConst(n->evHi, w - 64), mkConst(n->ev, 64));
        }
    }
    // commutative: constant to the right
    if ((k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    unsigned aw = a->w;
    bool bc = isC(b);
    uint64_t bv = b->val;
    uint64_t m = maskw(aw);
    switch (k)
    {
        case ADD:
            if (bc && bv == 0) return a;
            if (bc && a->k == ADD && isC(a->b)) return mk(ADD, w, a->a, mkConst(a->b->val + bv, w));
            if (aw == 1) return mk(XOR, 1, a, b);
            // zext(x + c1) + c2, the inner sum not wrapping
            if (bc && w <= 64 && a->k == ZEXT && a->a->k == ADD && isC(a->a->b))
            {
                E x = a->a->a; uint64_t c1 = a->a->b->val;
                if (x->mx <= maskw(a->a->w) - c1) return mk(ADD, w, mkZext(x, w), mkConst(c1 + bv, w));
            }
            if (w > 1 && w <= 64)
            {
                uint64_t s;
                if (!__builtin_add_overflow(a->mx, b->mx, &s) && bitsOf(s) < w) { unsigned n = bitsOf(s); return mkZext(mk(ADD, n, narrow(a, n), narrow(b, n)), w); }
            }
            break;
        case SUB:
            if (a == b) return mkConst(0, w);
            if (bc && w <= 64) return mk(ADD, w, a, mkConst(0 - bv, w));
            // (x+c) - x
            if (a->k == ADD && a->a == b) return a->b;
            if (a->k == ADD && a->b == b) return a->a;
            if (a->k == ADD && isC(a->b) && b->k == ADD && isC(b->b) && a->a == b->a && w <= 64) return mkConst(a->b->val - b->b->val, w);
            break;
        case MUL:
            if (bc && bv == 0) return b;
            if (bc && bv == 1) return a;
            if (bc && w <= 64 && bv && !(bv & (bv - 1))) return mk(SHL, w, a, mkConst(__builtin_ctzll(bv), w));
            if (w > 1 && w <= 64)
            {
                uint64_t s;
                if (!__builtin_mul_overflow(a->mx, b->mx, &s) && bitsOf(s) < w) { unsigned n = bitsOf(s); return mkZext(mk(MUL, n, narrow(a, n), narrow(b, n)), w); }
            }
            break;
        case UDIV:
            if (bc && bv == 1) return a;
            if (bc && bv && w <= 64)
            {
                if (a->mx < bv) return mkConst(0, w);
                unsigned n = std::max(bitsOf(a->mx), bitsOf(bv));
                if (n < w) return mkZext(mk(UDIV, n, narrow(a, n), narrow(b, n)), w);
                if (a->mx / bv < 4 && (bv & (bv - 1)))
                {
                    E r = mkConst(0, w);
                    for (uint64_t q = 1; q <= a->mx / bv; ++q) r = mkIte(mk(ULE, 1, mkConst(q * bv, w), a), mkConst(q, w), r);
                    return r;
                }
            }
            if (bc && w <= 64 && bv && !(bv & (bv - 1))) return mk(LSHR, w, a, mkConst(__builtin_ctzll(bv), w));
            break;
        case SDIV:
            if (bc && bv == 1) return a;
            if (bc && w <= 64 && bv && bv <= m >> 1 && a->mx <= m >> 1) return mk(UDIV, w, a, b);
            break;
        case UREM:
            if (bc && bv == 1) return mkConst(0, w);
            if (bc && bv && w <= 64 && (bv & (bv - 1)))
            {
                if (a->mx < bv) return a;
                unsigned n = std::max(bitsOf(a->mx), bitsOf(bv));
                if (n < w) return mkZext(mk(UREM, n, narrow(a, n), narrow(b, n)), w);
                if (a->mx / bv < 4)
                {
                    E r = a;
                    for (uint64_t q = 1; q <= a->mx / bv; ++q) r = mkIte(mk(ULE, 1, mkConst(q * bv, w), a), mk(ADD, w, a, mkConst(0 - q * bv, w)), r);
                    return r;
                }
            }
            if (bc && w <= 64 && bv && !(bv & (bv - 1))) return mk(AND, w, a, mkConst(bv - 1, w));
            break;
        case SREM:
            if (bc && w <= 64 && bv && bv <= m >> 1 && a->mx <= m >> 1) return mk(UREM, w, a, b);
            break;
        case SHL:
            if (bc) { if (bv == 0) return a; if (bv >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - bv), mkConst(0, bv)); }
            break;
        case LSHR:
            if (bc) { if (bv == 0) return a; if (bv >= w) return mkConst(0, w); return mkZext(mkExtract(a, bv, w - bv), w); }
            break;
        case ASHR:
            if (bc) { if (bv == 0) return a; if (bv >= w) bv = w - 1; return mkSext(mkExtract(a, bv, w - bv), w); }
            break;
        case AND:
            if (bc && aw <= 64)
            {
                if (bv == 0) return b;
                if (bv == m) return a;
                if (!(bv & (bv + 1)) && a->mx <= bv) return a;
                if (a->k == AND && isC(a->b)) return mk(AND, w, a->a, mkConst(a->b->val & bv, w));
                if (a->k == ZEXT) { E n = a->a; return mkZext(mk(AND, n->w, n, mkConst(bv, n->w)), w); }
                if (!(bv & (bv + 1))) { unsigned n = __builtin_popcountll(bv); return mkZext(mkExtract(a, 0, n), w); }
                if (a->k == CONCAT && isC(a->b)) { return mkConcat(mk(AND, a->a->w, a->a, mkConst(bv >> a->b->w, a->a->w)), mkConst(a->b->val & bv, a->b->w)); }
            }
            if (a == b) return a;
            if (aw == 1 && (a == mkNot(b))) return mkConst(0, 1);
            // absorption of a repeated conjunct
            if (aw == 1 && a->k == AND && (a->a == b || a->b == b)) return a;
            if (aw == 1 && b->k == AND && (b->a == a || b->b == a)) return b;
            break;
        case OR:
            if (bc && aw <= 64) { if (bv == 0) return a; if (bv == m) return b; }
            if (a == b) return a;
            if (aw == 1 && (a == mkNot(b))) return mkConst(1, 1);
            if (aw > 1)
            {
                for (int s = 0; s < 2; ++s)
                {
                    E x = s ? b : a, y = s ? a : b;
                    if (x->k == CONCAT && isC(x->b) && x->b->val == 0)
                    {
                        if (isC(y) && (y->val & ~maskw(x->b->w)) == 0) return mkConcat(x->a, mkConst(y->val, x->b->w));
                        if (y->k == ZEXT && y->a->w <= x->b->w) return mkConcat(x->a, mkZext(y->a, x->b->w));
                    }
                    if (x->k == ZEXT && x->a->k == CONCAT && isC(x->a->b) && x->a->b->val == 0 && y->k == ZEXT)
                    {
                        E xi = x->a;
                        if (y->a->w <= xi->b->w) return mkZext(mkConcat(xi->a, mkZext(y->a, xi->b->w)), w);
                    }
                }
            }
            break;
        case XOR:
            if (bc && bv == 0) return a;
            if (a == b) return mkConst(0, w);
            if (aw == 1 && bc) return mkNot(a);
            if (bc && a->k == XOR && isC(a->b) && w <= 64) return mk(XOR, w, a->a, mkConst(a->b->val ^ bv, w));
            break;
        case EQ:
            if (a == b) return mkConst(1, 1);
            if (aw == 1 && bc) return bv ? a : mkNot(a);
            if (bc && aw <= 64)
            {
                if (bv > a->mx) return mkConst(0, 1);
                if (a->k == ZEXT) { if (bv & ~maskw(a->a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(bv, a->a->w)); }
                if (a->k == SEXT) { uint64_t t = bv & maskw(a->a->w); if (((uint64_t)sext64(t, a->a->w) & m) != bv) return mkConst(0, 1); return mkEq(a->a, mkConst(t, a->a->w)); }
                if (a->k == CONCAT) { unsigned lw = a->b->w; return mkAnd(mkEq(a->a, mkConst(bv >> lw, a->a->w)), mkEq(a->b, mkConst(bv, lw))); }
                if (a->k == ADD && isC(a->b)) return mkEq(a->a, mkConst(bv - a->b->val, aw));
                if (a->k == XOR && isC(a->b)) return mkEq(a->a, mkConst(bv ^ a->b->val, aw));
                if (a->k == ITE && (iteConstLeaves(a, 12) < 1000 || isC(a->b) || isC(a->c))) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
            }
            if (a->k == ZEXT && b->k == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mkEq(mkZext(a->a, n), mkZext(b->a, n)); }
            if (a->k == ADD && isC(a->b) && b->k == ADD && isC(b->b) && a->a == b->a && aw <= 64) return mkConst(a->b->val == b->b->val, 1);
            break;
        case ULT:
            if (a == b) return mkConst(0, 1);
            if (bc && aw <= 64)
            {
                if (bv == 0) return mkConst(0, 1);
                if (bv == 1) return mkEq(a, mkConst(0, aw));
                if (a->k == ZEXT) { if (bv > maskw(a->a->w)) return mkConst(1, 1); return mk(ULT, 1, a->a, mkConst(bv, a->a->w)); }
            }
            if (isC(a) && aw <= 64)
            {
                if (a->val == m) return mkConst(0, 1);
                if (a->val == 0) return mkNot(mkEq(b, a));
                if (b->k == ZEXT) { if (a->val >= maskw(b->a->w)) return mkConst(0, 1); return mk(ULT, 1, mkConst(a->val, b->a->w), b->a); }
            }
            if (aw <= 64 && isC(a) && a->val > b->mx) return mkConst(0, 1);
            if (aw <= 64 && bc && a->mx < bv) return mkConst(1, 1);
            if (a->k == ZEXT && b->k == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mk(ULT, 1, mkZext(a->a, n), mkZext(b->a, n)); }
            break;
        case ULE:
            if (a == b) return mkConst(1, 1);
            if (bc && aw <= 64)
            {
                if (bv == m) return mkConst(1, 1);
                if (bv == 0) return mkEq(a, b);
                if (a->k == ZEXT) { if (bv >= maskw(a->a->w)) return mkConst(1, 1); return mk(ULE, 1, a->a, mkConst(bv, a->a->w)); }
            }
            if (isC(a) && aw <= 64)
            {
                if (a->val == 0) return mkConst(1, 1);
                if (b->k == ZEXT) { if (a->val > maskw(b->a->w)) return mkConst(0, 1); return mk(ULE, 1, mkConst(a->val, b->a->w), b->a); }
            }
            if (aw <= 64 && isC(a) && a->val > b->mx) return mkConst(0, 1);
            if (aw <= 64 && bc && a->mx < bv) return mkConst(1, 1);
            if (a->k == ZEXT && b->k == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mk(ULE, 1, mkZext(a->a, n), mkZext(b->a, n)); }
            break;
        case SLT: case SLE:
        {
            if (a == b) return mkConst(k == SLE, 1);
            K uk = k == SLT ? ULT : ULE;
            auto nonneg = [&](E x) { return (x->k == ZEXT) || (x->w <= 64 && x->mx <= maskw(x->w) >> 1); };
            if (nonneg(a) && nonneg(b)) return mk(uk, 1, a, b);
            if (bc && aw <= 64 && a->k == ZEXT && sext64(bv, aw) < 0) return mkConst(0, 1);
            if (isC(a) && aw <= 64 && b->k == ZEXT && sext64(a->val, aw) < 0) return mkConst(1, 1);
            if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mk(k, 1, a->a, b->a);
            if (bc && aw <= 64 && a->k == SEXT)
            {
                int64_t x = sext64(bv, aw); unsigned n = a->a->w; int64_t mx = (int64_t)maskw(n - 1), mn = -mx - 1;
                if (x > mx) return mkConst(1, 1);
                if (x < mn) return mkConst(0, 1);
                return mk(k, 1, a->a, mkConst((uint64_t)x, n));
            }
            if (isC(a) && aw <= 64 && b->k == SEXT)
            {
                int64_t x = sext64(a->val, aw); unsigned n = b->a->w; int64_t mx = (int64_t)maskw(n - 1), mn = -mx - 1;
                if (x > mx) return mkConst(0, 1);
                if (x < mn) return mkConst(1, 1);
                return mk(k, 1, mkConst((uint64_t)x, n), b->a);
            }
            break;
        }
        default: break;
    }
    if (isCmp(k) && k != EQ)
    {
        if (bc && a->k == ITE && iteConstLeaves(a, 12) < 1000) return mkIte(a->a, mk(k, 1, a->b, b), mk(k, 1, a->c, b));
        if (isC(a) && b->k == ITE && iteConstLeaves(b, 12) < 1000) return mkIte(b->a, mk(k, 1, a, b->b), mk(k, 1, a, b->c));
    }
    if (bc && w <= 64 && (k == ADD || k == AND || k == OR || k == XOR || k == SUB) && a->k == ITE && iteConstLeaves(a, 6) < 1000)
        return mkIte(a->a, mk(k, w, a->b, b), mk(k, w, a->c, b));
    return intern(k, w, a, b, c, val);
}

typedef unsigned __int128 u128;
static void evalRec(E e, const std::vector<uint64_t>& m)
{
    if (e->epoch == gEpoch) return;
    if (e->a) evalRec(e->a, m);
    if (e->k == ITE)
    {
        E t = (e->a->ev & 1) ? e->b : e->c;
        evalRec(t, m);
        e->ev = t->ev; e->evHi = t->evHi; e->epoch = gEpoch; return;
    }
    if (e->b) evalRec(e->b, m);
    uint64_t r = 0, hi = 0;
    auto get = [](E x) -> u128 { return ((u128)x->evHi << 64) | x->ev; };
    switch (e->k)
    {
        case CONST: r = e->val; break;
        case VAR: r = e->val < m.size() ? m[e->val] & maskw(e->w) : 0; break;
        case CONCAT: { u128 v = (get(e->a) << e->b->w) | get(e->b); r = (uint64_t)v; hi = (uint64_t)(v >> 64); break; }
        case EXTRACT: { u128 v = get(e->a) >> e->val; if (e->w < 64) { r = (uint64_t)v & maskw(e->w); } else { r = (uint64_t)v; if (e->w > 64) hi = (uint64_t)(v >> 64) & maskw(e->w - 64); } break; }
        case ZEXT: r = e->a->ev; hi = e->a->evHi; break;
        case SEXT:
            if (e->w <= 64) r = (uint64_t)sext64(e->a->ev, e->a->w) & maskw(e->w);
            else { int64_t s = sext64(e->a->ev, e->a->w); r = (uint64_t)s; hi = (s < 0 ? ~0ull : 0) & maskw(e->w - 64); }
            break;
        default:
            if (e->k >= FADD) { r = foldFp(e->k, e->w, e->a->w, e->a->ev, e->b ? e->b->ev : 0); break; }
            if (e->a->w > 64)
            {
                u128 x = get(e->a), y = get(e->b), v = 0;
                switch (e->k)
                {
                    case ADD: v = x + y; break; case SUB: v = x - y; break; case MUL: v = x * y; break;
                    case UDIV: v = y ? x / y : ~(u128)0; break; case UREM: v = y ? x % y : x; break;
                    case AND: v = x & y; break; case OR: v = x | y; break; case XOR: v = x ^ y; break;
                    case EQ: v = x == y; break; case ULT: v = x < y; break; case ULE: v = x <= y; break;
                    case SHL: v = y >= e->w ? 0 : x << (unsigned)y; break; case LSHR: v = y >= e->w ? 0 : x >> (unsigned)y; break;
                    default: fprintf(stderr, "eval: wide op %d unsupported\n", e->k); abort();
                }
                r = (uint64_t)v; hi = (uint64_t)(v >> 64);
                if (e->w <= 64) { r &= maskw(e->w); hi = 0; } else hi &= maskw(e->w - 64);
                break;
            }
            r = foldBin(e->k, e->w, e->a->ev, e->b->ev, e->a->w);
    }
    e->ev = r; e->evHi = hi; e->epoch = gEpoch;
}
uint64_t evalE(E e, const std::vector<uint64_t>& m)
{
    if (isC(e)) return e->val;
    ++gEpoch;
    evalRec(e, m);
    return e->ev;
}

static std::unordered_map<E, std::array<uint64_t, 4>> truthCache;
const std::array<uint64_t, 4>& truthSet(E e)
{
    auto it = truthCache.find(e);
    if (it != truthCache.end()) return it->second;
    std::array<uint64_t, 4> s{};
    uint32_t v = (*e->vars)[0];
    std::vector<uint64_t> m(v + 1, 0);
    unsigned n = 1u << gVars[v].w;
    for (unsigned x = 0; x < n; ++x)
    {
        m[v] = x;
        if (evalE(e, m) & 1) s[x >> 6] |= 1ull << (x & 63);
    }
    return truthCache.emplace(e, s).first->second;
}

std::string dumpE(E e, int depth)
{
    static const char* names[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite",
        "fadd", "fsub", "fmul", "fdiv", "foeq", "folt", "fole", "funo", "fcvt", "sitofp", "uitofp", "fptosi", "fptoui"};
    if (isC(e)) return std::to_string(e->val) + ":" + std::to_string(e->w);
    if (e->k == VAR) return gVars[e->val].name;
    if (depth == 0) return "...";
    std::string s = "(" + std::string(names[e->k]);
    if (e->k == EXTRACT) s += "[" + std::to_string(e->val) + "+" + std::to_string(e->w) + "]";
    if (e->a) s += " " + dumpE(e->a, depth - 1);
    if (e->b) s += " " + dumpE(e->b, depth - 1);
    if (e->c) s += " " + dumpE(e->c, depth - 1);
    return s + ")";
}
