// C25: every allocation the library makes inside one C API call is made to fail
// once, one after the other, and the outcome of each run is judged.
#include "common.h"
#include <new>
#include <sanitizer/allocator_interface.h>
using namespace ref;

// ---- fault injection: operator new and the C allocation functions -----------
static bool g_armed = false;
static long g_n = 0, g_target = 0, g_fails = 0;     // the target-th allocation fails; sticky: all from there on
static bool g_sticky = false;
static long g_live = 0;
static bool failNow() {
    if (!g_armed) return false;
    ++g_n;
    if (g_n == g_target || (g_sticky && g_target && g_n > g_target)) { ++g_fails; return true; }
    return false;
}
static void *newBlock(size_t n) { if (failNow()) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return newBlock(n); }
void *operator new[](size_t n) { return newBlock(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return failNow() ? nullptr : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return failNow() ? nullptr : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return failNow() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return failNow() ? nullptr : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return failNow() ? nullptr : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return failNow() ? nullptr : __real_strdup(s); }
}
static void onMalloc(const volatile void *p, size_t) { if (p) ++g_live; }
static void onFree(const volatile void *p) { if (p) --g_live; }
void init_C25(Ctx &) { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }

namespace {
struct Op { int kind; std::string addr, lex, gmr, loc, flt; };
const char *KIND[] = {"parse", "match", "standardize", "load lexicon", "load grammar", "compile lexicon", "parse with object", "standardize with objects", "digest of text", "digest of lexicon", "digest of grammar"};
const int KINDS = 11;
struct Out { bool null = true; bool msg = false; std::string s; };

// the injector is armed for the library call only
#define CALL(x) do { g_armed = true; x; g_armed = false; } while (0)
Out once(const Op &o, void *lp, void *gp) {
    Out r;
    api::Z a(o.addr), l(o.lex), g(o.gmr), lo(o.loc), f(o.flt);
    char *e = api::UNSET; int n = 0;
    switch (o.kind) {
        case 0: case 6: {
            TOKENS *t = nullptr;
            if (o.kind == 0) CALL(t = std_parse_address(a, l, lo, f, &n, &e)); else CALL(t = std_parse_address_ptrs(a, lp, lo, f, &n, &e));
            auto p = api::takeParse(t, n, e); r.null = p.null; r.msg = p.err.set; if (!p.null) r.s = api::show(p); break; }
        case 1: { MTOKEN *t = nullptr; CALL(t = std_match_address(a, g, l, lo, f, &n, &e)); auto p = api::takeMatch(t, n, e); r.null = p.null; r.msg = p.err.set; if (!p.null) r.s = api::show(p); break; }
        case 2: case 7: {
            STDADDR *s = nullptr;
            if (o.kind == 2) CALL(s = std_standardize(a, g, l, lo, f, &e)); else CALL(s = std_standardize_ptrs(a, gp, lp, lo, f, &e));
            auto p = api::takeStd(s, e); r.null = p.null; r.msg = p.err.set; if (!p.null) r.s = api::show(p); break; }
        case 3: { void *p = nullptr; CALL(p = getLexiconPtr(l, &e)); auto er = api::takeErr(e); r.msg = er.set; if (p) { r.null = false; r.s = api::show(api::parseP(o.addr, p, o.loc, o.flt)); freeLexiconPtr(p); } break; }
        case 4: { void *p = nullptr; CALL(p = getGrammarPtr(g, &e)); auto er = api::takeErr(e); r.msg = er.set; if (p) { r.null = false; if (lp) r.s = api::show(api::stdzP(o.addr, p, lp, o.loc, o.flt)); freeGrammarPtr(p); } break; }
        case 5: { char *c = nullptr; CALL(c = serialize_lexicon(l, &e)); auto er = api::takeErr(e); r.msg = er.set; if (c) { r.null = false; r.s = c; free(c); } break; }
        case 8: { char *c = nullptr; CALL(c = getMd5(l)); if (c) { r.null = false; r.s = c; free(c); } break; }
        case 9: { char *c = nullptr; CALL(c = getLexiconMd5(lp)); if (c) { r.null = false; r.s = c; free(c); } break; }
        case 10: { char *c = nullptr; CALL(c = getGrammarMd5(gp)); if (c) { r.null = false; r.s = c; free(c); } break; }
    }
    return r;
}
bool same(const Out &a, const Out &b) { return a.null == b.null && a.s == b.s && a.msg == b.msg; }
std::string show(const Out &o) { return o.null ? (o.msg ? "NULL with a message" : "NULL without a message") : o.s; }
// one call with the n-th allocation failing, on fresh objects, then the same call again without failure
struct Run { Out failed, again; long allocs; };
Run round(const Op &o, const std::string &baseGmr, long n, bool sticky, bool again) {
    Run r;
    void *lp = nullptr, *gp = nullptr;
    if (o.kind == 6 || o.kind == 7 || o.kind == 4 || o.kind == 9) lp = api::lexPtr(o.lex).p;
    if (o.kind == 7 || o.kind == 10) gp = api::gmrPtr(o.gmr).p;
    g_n = 0; g_target = n; g_sticky = sticky; g_fails = 0;
    if ((o.kind == 9 && !lp) || (o.kind == 10 && !gp) || ((o.kind == 6 || o.kind == 7) && !lp) || (o.kind == 7 && !gp)) { g_target = 0; r.allocs = 0; }
    else {
        r.failed = once(o, lp, gp);
        r.allocs = g_n;
        g_target = 0;
        if (again) r.again = once(o, lp, gp);
    }
    if (lp) freeLexiconPtr(lp);
    if (gp) freeGrammarPtr(gp);
    return r;
}
}

void case_C25(Ctx &cx) {
    Rng &r = cx.rng;
    gen::LexOpt lo; lo.minEntries = 1; lo.maxEntries = 4;
    gen::GLex g = gen::lexicon(r, lo);
    Op o; o.kind = (int)(cx.idx % KINDS);
    o.loc = gen::locale(r);
    o.flt = r.chance(70) ? "PUNCT,SPACE,DASH,EMDASH" : gen::filter(r);
    std::vector<std::vector<Tok>> rd;
    for (int t = 0;; ++t) {
        gen::AddrOpt ao; ao.maxItems = 3;
        o.addr = t < 30 ? gen::address(r, g, ao) : "12 A";
        auto tk = filterToks(tokenize(g.lex, o.addr, o.loc), parseTypes(o.flt));
        if (readingCount(tk) > 4 && t < 30) continue;
        rd = readings(g.lex, tk, 16); if (rd.empty()) rd.push_back(tk);
        size_t combos = 0;
        for (auto &x : rd) { size_t n = 1; for (auto &t : x) { n *= std::max<size_t>(1, t.cls.size()); if (n > 4000) break; } combos += n; }
        if (combos <= 60 || t > 30) break;
    }
    for (int t = 0; ; ++t) {
        auto gg = gen::grammar(r, rd);
        std::vector<Deriv> d;
        if (t == 20) { o.gmr = "[ADDRESS]\n@a\n[a]\nNUMBER -> HOUSE -> 0.5\n"; break; }
        if (derivations(gg.g, rd, 40, 600, d) && (!d.empty() || t > 8)) { o.gmr = gg.text; break; }
    }
    o.lex = g.text;
    bool rejected = false;
    if (r.chance(35)) { auto c = api::compile(g.text); if (!c.null && o.kind != 5) { o.lex = c.s; cx.count("compiled_lexicons"); } }
    if (r.chance(12)) { rejected = true; if (r.chance(50)) o.lex = "LEXICON:\tx\tENG\ten\nLEXENTRY:\tA\tA\tNOSUCH\tATT_SUF\n"; else o.gmr = "[ADDRESS]\n@nowhere\n"; }
    if (o.kind == 4 && rejected && o.lex[0] == 'L') o.gmr = "[ADDRESS]\n@nowhere\n";

    std::string at = std::string(KIND[o.kind]) + " address=" + o.addr + " locale=" + o.loc + " filter=" + o.flt + " grammar=" + o.gmr + " lexicon=" + o.lex;
    Run base = round(o, o.gmr, 0, false, true);
    if (base.allocs == 0) { cx.count("without_objects"); return; }
    base = round(o, o.gmr, 0, false, true);
    if (!same(base.failed, base.again)) cx.viol("unstable", show(base.failed) + " then " + show(base.again) + " " + at);
    const Out want = base.failed;
    long N = base.allocs;
    cx.maxof("allocations_in_a_call", N);
    // all of them when that is affordable, else a stride with a random start
    long cap = cx.thorough ? 4000 : 300;
    long stride = N <= cap ? 1 : N / cap + 1, first = 1 + (stride > 1 ? (long)r.below((size_t)stride) : 0);
    if (stride == 1) cx.count("calls_enumerated_completely");
    auto judge = [&](const Run &x, long n, bool sticky) {
        std::string w = (sticky ? " with every allocation from number " : " with allocation ") + std::to_string(n) + " of " + std::to_string(N) + " failing: ";
        bool asUsual = same(x.failed, want);
        bool failure = x.failed.null && (x.failed.msg || o.kind >= 8 || sticky || want.null);
        if (!asUsual && !failure) cx.viol(std::string("wrong-result ") + KIND[o.kind], show(x.failed) + w + "expected failure or " + show(want) + " " + at);
        if (asUsual) cx.count("usual_results"); else cx.count("failures_reported");
        if (!same(x.again, want)) cx.viol(std::string("not-usable-afterwards ") + KIND[o.kind], show(x.again) + " after a run" + w + "expected " + show(want) + " " + at);
    };
    long runs = 0;
    for (int mode = 0; mode < 2; ++mode) {
        bool sticky = mode == 1;
        // the last allocations build the result: all of those
        for (long n = first; n <= N; n = n >= N - 40 ? n + 1 : std::min(N - 40, n + (sticky ? std::max<long>(stride, N / 40 + 1) : stride))) {
            long before = g_live;
            cx.count("injected_failures"); ++runs;
            { Run x = round(o, o.gmr, n, sticky, true); judge(x, n, sticky); }
            if (g_live > before) {          // caches may grow once; a leak grows every time
                long l[4]; l[0] = g_live; bool grow = true;
                for (int i = 1; i < 4 && grow; ++i) { round(o, o.gmr, n, sticky, true); l[i] = g_live; grow = l[i] > l[i - 1]; }
                if (grow) cx.viol(std::string("blocks-left ") + KIND[o.kind], std::to_string(l[3] - l[2]) + " heap blocks are left each time" + (sticky ? " every allocation from number " : " allocation ") + std::to_string(n) + " of " + std::to_string(N) + " fails in " + at);
                cx.count("leak_suspicions_settled");
            }
            if (cx.viols > 20) return;
        }
    }
    cx.count(std::string("op_") + KIND[o.kind]);
    cx.eval(true, "C25" + at);
    cx.sample(std::string(KIND[o.kind]) + ": " + std::to_string(runs) + " failures injected, " + std::to_string(N) + " allocations, address=" + o.addr.substr(0, 50));
}
