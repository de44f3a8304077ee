#include "solver.h"
#include <z3.h>
#include <chrono>
#include <set>
#include <cmath>

SolverStats gStats;
bool gCrossCheck = false, gCrossCheckFailed = false;
unsigned gSolverTimeoutMs = 20000;

static Z3_context ctx = nullptr;
static Z3_solver fastSolver = nullptr;
static std::unordered_map<E, Z3_ast> astMemo;

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

static void init()
{
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(ctx, onErr);
    Z3_del_config(cfg);
    fastSolver = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, fastSolver);
}

// every term and sort is kept alive: results without a reference may be freed by the next API call
static Z3_ast H(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort H(Z3_sort s) { Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); return s; }
static Z3_ast tr(E e);
static Z3_ast toBool(E e)  // 1-bit expression to z3 Bool
{
    static std::unordered_map<E, Z3_ast> memo;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Z3_ast r;
    if (e->w != 1) { fprintf(stderr, "toBool width\n"); abort(); }
    switch (e->k)
    {
        case CONST: r = e->val ? H(Z3_mk_true(ctx)) : H(Z3_mk_false(ctx)); break;
        case AND: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = H(Z3_mk_and(ctx, 2, a)); break; }
        case OR: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = H(Z3_mk_or(ctx, 2, a)); break; }
        case XOR:
            if (isC(e->b)) r = e->b->val ? H(Z3_mk_not(ctx, toBool(e->a))) : toBool(e->a);
            else r = H(Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)));
            break;
        case ITE: r = H(Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c))); break;
        case EQ: r = e->a->w == 1 ? H(Z3_mk_iff(ctx, toBool(e->a), toBool(e->b))) : H(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
        case ULT: r = H(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
        case ULE: r = H(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
        case SLT: r = H(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
        case SLE: r = H(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
        case FOEQ: case FOLT: case FOLE: case FUNO:
        {
            auto fp = [&](E x) { Z3_sort s = x->w == 64 ? H(Z3_mk_fpa_sort_double(ctx)) : H(Z3_mk_fpa_sort_single(ctx)); return H(Z3_mk_fpa_to_fp_bv(ctx, tr(x), s)); };
            Z3_ast a = fp(e->a), b = fp(e->b);
            if (e->k == FOEQ) r = H(Z3_mk_fpa_eq(ctx, a, b));
            else if (e->k == FOLT) r = H(Z3_mk_fpa_lt(ctx, a, b));
            else if (e->k == FOLE) r = H(Z3_mk_fpa_leq(ctx, a, b));
            else { Z3_ast o[2] = {H(Z3_mk_fpa_is_nan(ctx, a)), H(Z3_mk_fpa_is_nan(ctx, b))}; r = H(Z3_mk_or(ctx, 2, o)); }
            break;
        }
        default: r = H(Z3_mk_eq(ctx, tr(e), H(Z3_mk_unsigned_int64(ctx, 1, H(Z3_mk_bv_sort(ctx, 1)))))); break;
    }
    Z3_inc_ref(ctx, r);
    memo[e] = r;
    return r;
}

static Z3_ast tr(E e)
{
    auto it = astMemo.find(e);
    if (it != astMemo.end()) return it->second;
    Z3_ast r = nullptr;
    auto sort = H(Z3_mk_bv_sort(ctx, e->w));
    auto rm = [&]() { return H(Z3_mk_fpa_rne(ctx)); };
    auto fsort = [&](unsigned w) { return w == 64 ? H(Z3_mk_fpa_sort_double(ctx)) : H(Z3_mk_fpa_sort_single(ctx)); };
    auto fp = [&](E x) { return H(Z3_mk_fpa_to_fp_bv(ctx, tr(x), fsort(x->w))); };
    if (e->w == 1 && (e->k == AND || e->k == OR || e->k == XOR || e->k == ITE || (e->k >= EQ && e->k <= SLE) || (e->k >= FOEQ && e->k <= FUNO)))
        r = H(Z3_mk_ite(ctx, toBool(e), H(Z3_mk_unsigned_int64(ctx, 1, sort)), H(Z3_mk_unsigned_int64(ctx, 0, sort))));
    else switch (e->k)
    {
        case CONST: r = H(Z3_mk_unsigned_int64(ctx, e->val, sort)); break;
        case VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%lu", (unsigned long)e->val); r = H(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), sort)); break; }
        case ADD: r = H(Z3_mk_bvadd(ctx, tr(e->a), tr(e->b))); break;
        case SUB: r = H(Z3_mk_bvsub(ctx, tr(e->a), tr(e->b))); break;
        case MUL: r = H(Z3_mk_bvmul(ctx, tr(e->a), tr(e->b))); break;
        case UDIV: r = H(Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b))); break;
        case SDIV: r = H(Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b))); break;
        case UREM: r = H(Z3_mk_bvurem(ctx, tr(e->a), tr(e->b))); break;
        case SREM: r = H(Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b))); break;
        case SHL: r = H(Z3_mk_bvshl(ctx, tr(e->a), tr(e->b))); break;
        case LSHR: r = H(Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b))); break;
        case ASHR: r = H(Z3_mk_bvashr(ctx, tr(e->a), tr(e->b))); break;
        case AND: r = H(Z3_mk_bvand(ctx, tr(e->a), tr(e->b))); break;
        case OR: r = H(Z3_mk_bvor(ctx, tr(e->a), tr(e->b))); break;
        case XOR: r = H(Z3_mk_bvxor(ctx, tr(e->a), tr(e->b))); break;
        case CONCAT: r = H(Z3_mk_concat(ctx, tr(e->a), tr(e->b))); break;
        case EXTRACT: r = H(Z3_mk_extract(ctx, e->val + e->w - 1, e->val, tr(e->a))); break;
        case ZEXT: r = H(Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a))); break;
        case SEXT: r = H(Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a))); break;
        case ITE: r = H(Z3_mk_ite(ctx, toBool(e->a), tr(e->b), tr(e->c))); break;
        case FADD: r = H(Z3_mk_fpa_to_ieee_bv(ctx, H(Z3_mk_fpa_add(ctx, rm(), fp(e->a), fp(e->b))))); break;
        case FSUB: r = H(Z3_mk_fpa_to_ieee_bv(ctx, H(Z3_mk_fpa_sub(ctx, rm(), fp(e->a), fp(e->b))))); break;
        case FMUL: r = H(Z3_mk_fpa_to_ieee_bv(ctx, H(Z3_mk_fpa_mul(ctx, rm(), fp(e->a), fp(e->b))))); break;
        case FDIV: r = H(Z3_mk_fpa_to_ieee_bv(ctx, H(Z3_mk_fpa_div(ctx, rm(), fp(e->a), fp(e->b))))); break;
        case FCVT: r = H(Z3_mk_fpa_to_ieee_bv(ctx, H(Z3_mk_fpa_to_fp_float(ctx, rm(), fp(e->a), fsort(e->w))))); break;
        case SITOFP: r = H(Z3_mk_fpa_to_ieee_bv(ctx, H(Z3_mk_fpa_to_fp_signed(ctx, rm(), tr(e->a), fsort(e->w))))); break;
        case UITOFP: r = H(Z3_mk_fpa_to_ieee_bv(ctx, H(Z3_mk_fpa_to_fp_unsigned(ctx, rm(), tr(e->a), fsort(e->w))))); break;
        case FPTOSI: r = H(Z3_mk_fpa_to_sbv(ctx, H(Z3_mk_fpa_rtz(ctx)), fp(e->a), e->w)); break;
        case FPTOUI: r = H(Z3_mk_fpa_to_ubv(ctx, H(Z3_mk_fpa_rtz(ctx)), fp(e->a), e->w)); break;
        default: fprintf(stderr, "tr: kind %d\n", e->k); abort();
    }
    Z3_inc_ref(ctx, r);
    astMemo[e] = r;
    return r;
}

static bool hasHard(const std::vector<E>& cs)
{
    static std::unordered_map<E, bool> memo;
    struct R { static bool go(E e) {
        if (!e) return false;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        bool h = (e->k == MUL && !isC(e->b)) || ((e->k == UDIV || e->k == SDIV || e->k == UREM || e->k == SREM)) || go(e->a) || go(e->b) || go(e->c);
        memo[e] = h; return h; } };
    for (E e : cs) if (R::go(e)) return true;
    return false;
}

struct CacheEntry { Res r; bool z3 = true; std::vector<std::pair<uint32_t, uint64_t>> vals; };
struct IdHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 7; for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull; return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEntry, IdHash> cache;

static bool gIncremental = !getenv("VX_NOINC");
static size_t gLitMax = getenv("VX_LITS") ? atoi(getenv("VX_LITS")) : 80;
static std::unordered_map<E, Z3_ast> lits;

static Res runZ3(const std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>& vals, unsigned timeoutMs, unsigned split = 0)
{
    init();
    auto t0 = std::chrono::steady_clock::now();
    std::set<uint32_t> vars;
    for (E e : cs) vars.insert(e->vars->begin(), e->vars->end());
    if (getenv("VX_DBG")) { unsigned b = 0; std::string n; for (auto v : vars) { b += gVars[v].w; n += gVars[v].name + " "; } fprintf(stderr, "Q %zu vars %u bits %zu cs: %s\n  %s\n", vars.size(), b, cs.size(), n.c_str(), dumpE(cs[0], 7).substr(0, 900).c_str()); }
    Res r = Res::Unknown;
    for (int stage = hasHard(cs) ? 1 : 0; stage < 2 && r == Res::Unknown; ++stage)
    {
        Z3_solver s;
        if (stage == 0) { s = fastSolver; if (!gIncremental || lits.size() > gLitMax) { Z3_solver_reset(ctx, s); for (auto& l : lits) Z3_dec_ref(ctx, l.second); lits.clear(); } }
        else { s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV")); 
               bool fpUsed = false; struct F { static bool go(E e, int d) { return e && d > 0 && (e->k >= FADD || go(e->a, d - 1) || go(e->b, d - 1) || go(e->c, d - 1)); } };
               for (E e : cs) if (F::go(e, 12)) { fpUsed = true; break; }
               if (!fpUsed) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
               Z3_solver_inc_ref(ctx, s); }
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), stage == 0 ? std::min(timeoutMs, 3000u) : timeoutMs);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
        Z3_lbool lb;
        if (stage == 0 && gIncremental)
        {
            // one literal per constraint, kept over queries; a query is a set of assumed literals
            std::vector<Z3_ast> as;
            for (E e : cs)
            {
                auto& l = lits[e];
                if (!l)
                {
                    l = H(Z3_mk_fresh_const(ctx, "p", H(Z3_mk_bool_sort(ctx))));
                    Z3_solver_assert(ctx, s, H(Z3_mk_implies(ctx, l, toBool(e))));
                }
                as.push_back(l);
            }
            lb = Z3_solver_check_assumptions(ctx, s, (unsigned)as.size(), as.data());
        }
        else
        {
            for (E e : cs) Z3_solver_assert(ctx, s, toBool(e));
            lb = Z3_solver_check(ctx, s);
        }
        ++gStats.z3Queries;
        if (lb == Z3_L_TRUE)
        {
            r = Res::Sat; ++gStats.z3Sat;
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            for (uint32_t v : vars)
            {
                Z3_ast out = nullptr; uint64_t x = 0;
                if (Z3_model_eval(ctx, m, tr(gVarExpr[v]), true, &out) && out) Z3_get_numeral_uint64(ctx, out, &x);
                vals.push_back({v, x});
            }
            Z3_model_dec_ref(ctx, m);
        }
        else if (lb == Z3_L_FALSE) { r = Res::Unsat; ++gStats.z3Unsat; }
        if (stage == 1) Z3_solver_dec_ref(ctx, s);
    }
    if (r == Res::Unknown && split < 2)      // too hard as it is: one case per value of a variable that has few of them
    {
        uint32_t pick = 0; bool found = false;
        for (uint32_t v : vars)
        {
            bool fixed = false;
            for (E e : cs) fixed = fixed || (e->k == EQ && (e->a == gVarExpr[v] || e->b == gVarExpr[v]) && (isC(e->a) || isC(e->b)));
            if (!fixed && gVars[v].mx <= 16 && (!found || gVars[v].mx > gVars[pick].mx)) { pick = v; found = true; }
        }
        if (found)
        {
            r = Res::Unsat;
            for (uint64_t x = 0; x <= gVars[pick].mx && r == Res::Unsat; ++x)
            {
                std::vector<E> part(cs);
                part.push_back(mkEq(gVarExpr[pick], mkConst(x, gVars[pick].w)));
                r = runZ3(part, vals, std::min(timeoutMs, 10000u), split + 1);
            }
            return r;
        }
    }
    if (r == Res::Unknown) ++gStats.z3Unknown;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gStats.z3Seconds += dt;
    gStats.z3Max = std::max(gStats.z3Max, dt);
    return r;
}

// exact decision of constraints over variables with few values in total, by the sets of values each constraint allows
static const uint64_t kDomainSize = 20000;
struct Allowed { std::vector<uint64_t> bits; };
static std::unordered_map<E, Allowed> allowedCache;
static uint64_t domainOf(uint32_t v) { return gVars[v].mx >= kDomainSize ? kDomainSize + 1 : gVars[v].mx + 1; }
static const Allowed& allowedOf(E e)
{
    auto it = allowedCache.find(e);
    if (it != allowedCache.end()) return it->second;
    if (allowedCache.size() > 200000) allowedCache.clear();
    const VarVec& vs = *e->vars;
    uint32_t total = 1;
    for (uint32_t v : vs) total *= (uint32_t)domainOf(v);
    Allowed a;
    a.bits.assign((total + 63) / 64, 0);
    std::vector<uint64_t> m(vs.back() + 1, 0);
    for (uint32_t x = 0; x < total; ++x)
    {
        if (evalE(e, m) & 1) a.bits[x >> 6] |= 1ull << (x & 63);
        for (uint32_t v : vs) { if (++m[v] <= gVars[v].mx) break; m[v] = 0; }
    }
    return allowedCache.emplace(e, std::move(a)).first->second;
}
static bool smallDomain(const std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>& vals, Res& r)
{
    std::vector<uint32_t> vs;
    for (E e : cs)
    {
        if (isC(e)) continue;
        if (e->vars->size() > 12) return false;
        for (uint32_t v : *e->vars) if (std::find(vs.begin(), vs.end(), v) == vs.end()) { vs.push_back(v); if (vs.size() > 12) return false; }
    }
    std::sort(vs.begin(), vs.end());
    uint64_t total = 1;
    for (uint32_t v : vs) { total *= domainOf(v); if (total > kDomainSize) return false; }
    std::vector<uint32_t> alive;
    bool first = true;
    for (E e : cs)
    {
        if (isC(e)) continue;
        const Allowed& a = allowedOf(e);
        // projection of an assignment of vs to the variables of e
        uint32_t div[12], mod[12], mul[12], n = 0, st = 1;
        for (uint32_t v : *e->vars)
        {
            uint32_t p = 1;
            for (uint32_t u : vs) { if (u == v) break; p *= (uint32_t)domainOf(u); }
            div[n] = p; mod[n] = (uint32_t)domainOf(v); mul[n] = st; ++n; st *= (uint32_t)domainOf(v);
        }
        auto ok = [&](uint32_t x) { uint32_t y = 0; for (unsigned i = 0; i < n; ++i) y += x / div[i] % mod[i] * mul[i]; return a.bits[y >> 6] >> (y & 63) & 1; };
        if (first) { first = false; for (uint32_t x = 0; x < total; ++x) if (ok(x)) alive.push_back(x); }
        else alive.erase(std::remove_if(alive.begin(), alive.end(), [&](uint32_t x) { return !ok(x); }), alive.end());
        if (alive.empty()) break;
    }
    if (alive.empty()) { r = Res::Unsat; return true; }
    r = Res::Sat;
    uint32_t x = alive[0];
    for (uint32_t v : vs) { vals.push_back({v, x % domainOf(v)}); x /= (uint32_t)domainOf(v); }
    return true;
}

Res solve(const std::vector<E>& cs, std::vector<uint64_t>& model, unsigned timeoutMs, bool forceZ3)
{
    std::vector<uint32_t> key;
    for (E e : cs)
    {
        if (isC(e)) { if (!e->val) return Res::Unsat; continue; }
        key.push_back(e->id);
    }
    if (key.empty()) return Res::Sat;
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end() && forceZ3 && !it->second.z3) { cache.erase(it); it = cache.end(); }
    if (it != cache.end()) { ++gStats.cacheHits; }
    else
    {
        CacheEntry ce;
        if (!forceZ3 && smallDomain(cs, ce.vals, ce.r))
        {
            ce.z3 = false;
            ++gStats.domainDecided;
            if (gCrossCheck && ce.r == Res::Unsat)
            {
                std::vector<std::pair<uint32_t, uint64_t>> dummy;
                if (runZ3(cs, dummy, timeoutMs) == Res::Sat) gCrossCheckFailed = true;
            }
        }
        else ce.r = runZ3(cs, ce.vals, timeoutMs);
        if (ce.r != Res::Unknown && cache.size() > 400000) cache.clear();
        it = cache.emplace(std::move(key), std::move(ce)).first;
    }
    if (it->second.r == Res::Sat)
        for (auto& p : it->second.vals)
        {
            if (model.size() <= p.first) model.resize(p.first + 1, 0);
            model[p.first] = p.second;
        }
    return it->second.r;
}

Res solveWith(const std::vector<E>& pc, E cond, std::vector<uint64_t>& model, unsigned timeoutMs, bool forceZ3)
{
    if (isC(cond)) return cond->val ? Res::Sat : Res::Unsat;
    if (evalE(cond, model) & 1) { ++gStats.modelHits; return Res::Sat; }
    // slice
    std::vector<uint64_t> mask((gVars.size() + 63) / 64, 0);
    auto addVars = [&](E e) { for (uint32_t v : *e->vars) mask[v >> 6] |= 1ull << (v & 63); };
    auto touches = [&](E e) { for (uint32_t v : *e->vars) if (mask[v >> 6] >> (v & 63) & 1) return true; return false; };
    addVars(cond);
    std::vector<E> cs{cond};
    std::vector<char> used(pc.size(), 0);
    bool changed = true;
    while (changed)
    {
        changed = false;
        for (size_t i = 0; i < pc.size(); ++i)
            if (!used[i] && touches(pc[i]))
            {
                used[i] = 1; cs.push_back(pc[i]);
                if (pc[i]->vars->size() > 1) { addVars(pc[i]); changed = true; }
            }
    }
    std::vector<uint64_t> m2 = model;
    Res r = solve(cs, m2, timeoutMs, forceZ3);
    if (r == Res::Sat) model.swap(m2);
    return r;
}
void solverReset() { cache.clear(); }
