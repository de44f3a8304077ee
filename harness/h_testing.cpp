#include "vxlib.h"
#include <cstring>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "Caitlyn/__Testing/Types.h"
#include "Caitlyn/__Testing/Macro.h"
using namespace Caitlyn;
using namespace Caitlyn::Test;
#ifndef MORE
#define MORE 2
#endif
#ifndef NMAX
#define NMAX 2
#endif
// ---------------------------------------------------------------- running the registry
enum { T_FIRST, T_FIXED, T_MORE };
static unsigned gOutcome[T_MORE + 10];
static int gRuns[T_MORE + 10];
static std::vector<int> gOrder;
static int gUp, gDown;
static void body(int t)
{
    ++gRuns[t];
    gOrder.push_back(t);
    switch (gOutcome[t])
    {
        case 0: return;
        case 1: { bool holds = gRuns[t] > 1; ASSERT_TRUE(holds); return; }
        case 2: throw std::logic_error("oops");
        case 3: throw 5;
        default: FAIL_MESSAGE() << "on purpose";
    }
}
struct Fix
{
    int v;
    Fix() : v(7) { ++gUp; }
    ~Fix() { ++gDown; }
};
TEST(bravo, first) { body(T_FIRST); }
TEST_F(Fix, second) { sym_check(v == 7, "fixture members"); body(T_FIXED); }
template <int N> static void extra() { body(T_MORE + N); }
static unsigned count(const std::string& s, const std::string& w)
{
    unsigned n = 0;
    for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; ++p) ++n;
    return n;
}
static void (*const fn[8])() = {extra<0>, extra<1>, extra<2>, extra<3>, extra<4>, extra<5>, extra<6>, extra<7>};
static const char* const names[8] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "another name"};
static const char* const suites[3] = {"alpha", "bravo", "zulu"};
static void judge(unsigned more, const unsigned* suite, unsigned added = 0)
{
    vx_clock_stop();
    TestRegistry& r = TestRegistry::Instance();
    for (unsigned i = added; i < more; ++i) r.AddTest(suites[suite[i]], names[i], fn[i]);
    unsigned total = T_MORE + more, failed = 0;
    for (unsigned i = 0; i < total; ++i) failed += gOutcome[i] != 0;
    std::stringbuf buf;
    std::streambuf* old = std::cout.rdbuf(&buf);
    int code = r.RunAll();
    std::cout.rdbuf(old);
    std::string log = buf.str();
    sym_check(code == (failed ? 1 : 0), "the run fails exactly if a test failed");
    sym_check(gUp == 1 && gDown == 1, "one fixture object for its test");
    for (unsigned i = 0; i < total; ++i)
    {
        sym_check(gRuns[i] == 1, "every test is run once");
        std::string name = i == T_FIRST ? "bravo.first" : i == T_FIXED ? "Fix.second" : std::string(suites[suite[i - T_MORE]]) + "." + names[i - T_MORE];
        bool ok = !gOutcome[i];
        sym_check(count(log, "[ RUN      ] " + name + "\n") == 1, "reported as run");
        sym_check(count(log, "[       OK ] " + name + " (") == (ok ? 1 : 0), "reported as passed exactly if it passed");
        sym_check(count(log, "[     FAIL ] " + name + " (") == (ok ? 0 : 1), "reported as failed exactly if it failed");
        sym_check(count(log, "[  FAILED  ] " + name + "\n") == (ok ? 0 : 1), "listed exactly if it failed");
    }
    for (int i = -1; i + 1 < (int)more; ++i)      // the test "bravo.first" was registered first
        for (int j = i + 1; j < (int)more; ++j)
            if ((i < 0 ? 1u : suite[i]) == suite[j])
            {
                size_t a = 0, b = 0;
                for (size_t k = 0; k < gOrder.size(); ++k) { if (gOrder[k] == (i < 0 ? (int)T_FIRST : T_MORE + i)) a = k; if (gOrder[k] == T_MORE + j) b = k; }
                sym_check(a < b, "tests of a suite run in the order they were registered");
                break;
            }
    std::string p = "[  PASSED  ] " + std::to_string(total - failed) + (total - failed == 1 ? " test.\n" : " tests.\n");
    sym_check(count(log, p) == (total != failed ? 1 : 0), "number of passed tests");
    sym_check(count(log, "\n" + std::to_string(failed) + " FAILED TEST") == 1, "number of failed tests");
    sym_check(count(log, "unning " + std::to_string(total) + " tests") == 1, "number of tests");
    sym_check(count(log, "[     INFO ] ") == failed, "a reason for every failure");
    unsigned want[5] = {0, 0, 0, 0, 0};
    for (unsigned i = 0; i < total; ++i) ++want[gOutcome[i]];
    sym_check(count(log, "Assertion failed: holds") == want[1] && count(log, "INFO ] oops") == want[2] && count(log, "on purpose") == want[4], "the reason that was given");
    if (failed) sym_cover("some failed"); else sym_cover("all passed");
}
VX_HARNESS(tst_run)
{
    unsigned more = vx::pick("more", MORE + 1), suite[3] = {0, 0, 0};
    for (unsigned i = 0; i < more; ++i) suite[i] = vx::pick("suite", 3);
    for (unsigned i = 0; i < T_MORE + more; ++i) gOutcome[i] = vx::pick("outcome", 5);
    judge(more, suite);
}
// ten tests in four suites; outcomes all the same or in turn but for one arbitrary
VX_HARNESS(tst_many)
{
    unsigned suite[8], base = vx::pick("outcomes", 4), odd = vx::pick("test", T_MORE + 8), how = vx::pick("registered", 3);
    for (unsigned i = 0; i < 8; ++i) suite[i] = how == 0 ? i % 3 : how == 1 ? i / 3 : (7 - i) / 3;
    for (unsigned i = 0; i < T_MORE + 8; ++i) gOutcome[i] = i == odd ? vx::pick("outcome", 5) : base < 3 ? base : i % 5;
    judge(8, suite);
}

// the tests are run again, with one more or not, and other outcomes
VX_HARNESS(tst_again)
{
    unsigned suite[3] = {vx::pick("suite", 3), 0, 0}, before = 0, rounds = MORE > 1 ? 3 : 2;
    for (unsigned k = 0; k < rounds; ++k)
    {
        unsigned more = k == 1 && vx::flip("one more") ? before + 1 : before;
        for (unsigned i = 0; i < T_MORE + more; ++i) { gOutcome[i] = vx::pick("outcome", MORE > 1 ? 2 : 3); gRuns[i] = 0; }
        gOrder.clear();
        gUp = gDown = 0;
        judge(more, suite, k ? before : 0);
        before = more;
    }
}

// any number of tests that fail, some or none of them
static void passes() {}
static void throws() { throw std::runtime_error("no"); }
static void strange() { throw 'x'; }
VX_HARNESS(tst_sizes)
{
    vx_clock_stop();
    static const unsigned counts[] = {10, 100, 256, 1, 254, 128, 255, 300};
    const unsigned n = counts[vx::pick("tests", MORE > 1 ? 8 : 3)], kind = vx::pick("kind", 4);
    if (kind > 1 && n == 0) sym_end();
    TestRegistry& r = TestRegistry::Instance();
    for (unsigned i = 0; i < n; ++i)
        r.AddTest(i % 2 ? "alpha" : "zulu", "t" + std::to_string(i), kind == 0 ? passes : kind == 1 ? (i % 3 ? throws : strange) : kind == 2 ? (i == n - 1 ? strange : passes) : (i == 0 ? passes : throws));
    const unsigned failed = kind == 0 ? 0 : kind == 1 ? n : kind == 2 ? 1 : n - 1;
    std::stringbuf buf;
    std::streambuf* old = std::cout.rdbuf(&buf);
    const int code = r.RunAll();
    std::cout.rdbuf(old);
    const std::string all = buf.str(), log = all.substr(all.rfind("[  PASSED"));
    sym_check((code != 0) == (failed != 0) && (code & 0xff) == code, "the run fails exactly if a test failed");
    sym_check(count(log, "[  PASSED  ] " + std::to_string(n + 2 - failed) + " test") == 1, "number of passed tests");
    sym_check(count(log, "\n" + std::to_string(failed) + " FAILED TEST") == 1, "number of failed tests");
    if (n <= 10) sym_check(count(log, "[  FAILED  ] alpha.t") + count(log, "[  FAILED  ] zulu.t") == failed, "failed tests are listed");
    if (failed) sym_cover("some failed"); else sym_cover("all passed");
}

// ---------------------------------------------------------------- assertions
struct Num
{
    uint32_t v;
    friend std::ostream& operator<<(std::ostream& o, const Num&) { return o << "num"; }
};
// ordered as 32-bit integers, but for one value that compares like a not-a-number
static bool nan(const Num& a) { return a.v == 0x80000000u; }
#define VX_CMP(op) static bool operator op(const Num& a, const Num& b) { return !(nan(a) | nan(b)) & ((int32_t)a.v op (int32_t)b.v); }
VX_CMP(==) VX_CMP(<) VX_CMP(<=) VX_CMP(>) VX_CMP(>=)
static bool operator!=(const Num& a, const Num& b) { return (nan(a) | nan(b)) | (a.v != b.v); }
template <class F> static bool fails(F f)
{
    try { f(); return false; }
    catch (const std::runtime_error& e) { sym_check(std::strlen(e.what()) > 0, "says why"); return true; }
}
VX_HARNESS(tst_assert)
{
    uint32_t x = sym_u32("a"), y = sym_u32("b");
    Num l{x}, r{y};
    bool cond = sym_decide(sym_below("condition", 2) == 1);
    switch (vx::pick("assertion", 11))
    {
        case 0: sym_check(fails([&] { ASSERT_TRUE(cond); }) == !cond, "ASSERT_TRUE"); break;
        case 1: sym_check(fails([&] { ASSERT_FALSE(cond); }) == cond, "ASSERT_FALSE"); break;
        case 2: sym_check(fails([&] { ASSERT_EQ(l, r); }) == !(l == r), "ASSERT_EQ"); break;
        case 3: sym_check(fails([&] { ASSERT_NE(l, r); }) == !(l != r), "ASSERT_NE"); break;
        case 4: sym_check(fails([&] { ASSERT_LT(l, r); }) == !(l < r), "ASSERT_LT"); break;
        case 5: sym_check(fails([&] { ASSERT_LE(l, r); }) == !(l <= r), "ASSERT_LE"); break;
        case 6: sym_check(fails([&] { ASSERT_GT(l, r); }) == !(l > r), "ASSERT_GT"); break;
        case 7: sym_check(fails([&] { ASSERT_GE(l, r); }) == !(l >= r), "ASSERT_GE"); break;
        case 8: sym_check(fails([&] { ASSERT_EQ_PRINTABLE(x, x); }) == false && fails([&] { ASSERT_EQ_PRINTABLE(l, r); }) == !(l == r), "ASSERT_EQ_PRINTABLE"); break;
        case 9: sym_check(!fails([&] { PASS(); }), "PASS"); break;
        default: sym_check(fails([&] { FAIL(); }) && fails([&] { FAIL_MESSAGE() << "no"; }), "FAIL"); break;
    }
    sym_cover("decided");
}
VX_HARNESS(tst_strings)
{
    bool na = vx::flip("null"), nb = vx::flip("null");
    std::string s = vx::bytes("expected", 0, NMAX), t = vx::bytes("actual", 0, NMAX);
    const char *a = na ? nullptr : s.c_str(), *b = nb ? nullptr : t.c_str();
    bool same = na || nb ? na && nb : s == t;
    sym_check(fails([&] { ASSERT_STREQ(a, b); }) == !same, "ASSERT_STREQ");
    sym_cover("decided");
}
