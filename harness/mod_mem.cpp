// C01: the C API and the string utilities on arbitrary bytes under AddressSanitizer and UBSan, with
// exact accounting of live heap blocks over repeated identical call sequences.
#include "common.h"
#include "utils.h"
#include <atomic>
#include <sanitizer/allocator_interface.h>
using namespace ref;

static std::atomic<long> g_live{0}, g_allocs{0};
static void onMalloc(const volatile void *p, size_t) { if (p) { g_live.fetch_add(1, std::memory_order_relaxed); g_allocs.fetch_add(1, std::memory_order_relaxed); } }
static void onFree(const volatile void *p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); }
void init_C01(Ctx &) { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); gen::samples(); gen::sampleAddresses(); }

namespace {
struct Op { int kind; std::string addr, lex, gmr, loc, flt; };
struct Tally { long ok = 0, rejected = 0, nomatch = 0, nomsg = 0, badmsg = 0; };
const char *KIND[] = {"parse", "match", "standardize", "load lexicon", "load grammar", "compile", "digest", "parse with object", "standardize with objects", "digests of objects", "string utilities"};

// a call with a result leaves no message; the std_ and compile calls always say so
template <class P> void message(const P &p, bool null, Tally &t, bool always = true) {
    if (!null && p.err.set) ++t.badmsg;
    if (always && p.err.untouched) ++t.badmsg;
}
void run(const Op &o, Tally &t) {
    switch (o.kind) {
        case 0: { auto p = api::parse(o.addr, o.lex, o.loc, o.flt); message(p, p.null, t); p.null ? ++t.rejected : ++t.ok; if (p.null && (!p.err.set || p.err.msg.empty())) ++t.nomsg; break; }
        case 1: { auto p = api::match(o.addr, o.gmr, o.lex, o.loc, o.flt); message(p, p.null, t); p.null ? ++t.rejected : ++t.ok; if (p.null && (!p.err.set || p.err.msg.empty())) ++t.nomsg; break; }
        case 2: { auto p = api::stdz(o.addr, o.gmr, o.lex, o.loc, o.flt); message(p, p.null, t); if (p.null && p.err.set) ++t.rejected; else if (p.null) { ++t.nomatch; if (p.err.untouched) ++t.nomsg; } else ++t.ok; break; }
        case 3: { auto p = api::lexPtr(o.lex); message(p, !p.p, t, false); if (p.p) { ++t.ok; freeLexiconPtr(p.p); } else { ++t.rejected; if (!p.err.set || p.err.msg.empty()) ++t.nomsg; } break; }
        case 4: { auto p = api::gmrPtr(o.gmr); message(p, !p.p, t, false); if (p.p) { ++t.ok; freeGrammarPtr(p.p); } else { ++t.rejected; if (!p.err.set || p.err.msg.empty()) ++t.nomsg; } break; }
        case 5: { auto p = api::compile(o.lex); message(p, p.null, t); p.null ? ++t.rejected : ++t.ok; if (p.null && (!p.err.set || p.err.msg.empty())) ++t.nomsg; break; }
        case 6: { api::md5(o.lex); api::md5(o.addr); ++t.ok; break; }
        case 7: { auto l = api::lexPtr(o.lex); if (!l.p) { ++t.rejected; break; } for (int i = 0; i < 2; ++i) { auto p = api::parseP(o.addr, l.p, o.loc, o.flt); message(p, p.null, t); p.null ? ++t.rejected : ++t.ok; if (p.null && (!p.err.set || p.err.msg.empty())) ++t.nomsg; } freeLexiconPtr(l.p); break; }
        case 8: { auto l = api::lexPtr(o.lex); auto g = api::gmrPtr(o.gmr);
            if (l.p && g.p) { for (int i = 0; i < 2; ++i) { auto p = api::stdzP(o.addr, g.p, l.p, o.loc, o.flt); message(p, p.null, t); if (p.null && p.err.set) ++t.rejected; else if (p.null) ++t.nomatch; else ++t.ok; } } else ++t.rejected;
            if (l.p) freeLexiconPtr(l.p); if (g.p) freeGrammarPtr(g.p); break; }
        case 9: { auto l = api::lexPtr(o.lex); auto g = api::gmrPtr(o.gmr);
            if (l.p) { api::takeStr(getLexiconMd5(l.p)); freeLexiconPtr(l.p); ++t.ok; } else ++t.rejected;
            if (g.p) { api::takeStr(getGrammarMd5(g.p)); freeGrammarPtr(g.p); ++t.ok; } else ++t.rejected; break; }
        case 10: { UErrorCode e; Utils::upperCaseUTF8(o.addr, o.loc); Utils::unaccentUTF8(o.addr); Utils::normalizeUTF8(o.addr, e); ++t.ok; break; }
    }
}
// at most n runs of blanks, so that the number of readings stays bounded
std::string capBlanks(const std::string &s, int n) {
    std::string o; int k = 0; bool in = false;
    for (char c : s) {
        if (c == ' ') { if (!in && ++k > n) { o += '.'; in = false; continue; } in = true; }
        else in = false;
        o += c;
    }
    return o;
}
}

// a word far longer than the stack could hold one frame per character for
static void veryLongWord(Ctx &cx) {
    Rng &r = cx.rng;
    std::string w; size_t n = (size_t)r.range(20000, 40000);
    for (size_t i = 0; i < n; ++i) w += (char)('A' + (int)r.below(26));
    std::string lex = "LEXICON:\tx\tENG\ten\nLEXENTRY:\t" + w + "\tA\tWORD\tATT_SUF\nLEXENTRY:\t" + w.substr(0, n / 2) + "\tB\tTYPE\tATT_PRE\n";
    auto c = api::compile(lex);
    if (c.null) cx.viol("very-long-word", "a lexicon with a word of " + std::to_string(n) + " characters does not compile: " + c.err.msg);
    auto p = api::parse(w.substr(0, n / 2) + " 12", r.chance(50) || c.null ? lex : c.s, "en", "");
    if (p.null) cx.viol("very-long-word", "a word of " + std::to_string(n / 2) + " characters does not parse: " + p.err.msg);
    cx.count("words_beyond_20000_characters");
    cx.eval(true, "C01long" + std::to_string(n) + w.substr(0, 20));
}

// texts of every length around the sizes a buffer may have, letters that grow or shrink when changed
static void longText(Ctx &cx) {
    Rng &r = cx.rng;
    static const std::vector<std::string> unit = {"A", "\xc3\xa9", "\xc3\x9f", "\xc4\xb0", "\xef\xac\x83", "e\xcc\x81", "\xe1\xba\x9e", "\xce\x90", " ", "\xf0\x9d\x95\x8f", "1"};
    size_t n = ((size_t)1 << r.range(5, 16)) + (size_t)r.below(5) - 2;
    if (r.chance(30)) n = (size_t)r.range(1, 9000);
    std::string s, one = r.pick(unit);
    bool same = r.chance(40);
    while (s.size() < n) s += same ? one : r.pick(unit);
    if (r.chance(60)) s.resize(n);
    std::string loc = gen::locale(r);
    UErrorCode e;
    auto all = [&] { Utils::upperCaseUTF8(s, loc); Utils::unaccentUTF8(s); Utils::normalizeUTF8(s, e); api::md5(s); };
    all();
    long a = g_live.load(); all();
    long b = g_live.load(); all();
    long c = g_live.load();
    if (c > b && b > a) cx.viol("memory-growth", "the string utilities keep memory for a text of " + std::to_string(s.size()) + " bytes");
    cx.count("long_texts"); cx.maxof("bytes_of_a_long_text", (long)s.size());
    cx.eval(true, "C01text" + std::to_string(n) + s.substr(0, 40));
}

void case_C01(Ctx &cx) {
    Rng &r = cx.rng;
    if (cx.idx % 25 == 3) return longText(cx);
    if (cx.idx % 500 == 499) return veryLongWord(cx);
    gen::LexOpt lo; lo.maxEntries = 14;
    gen::GLex g = gen::lexicon(r, lo);
    std::string goodLoc = gen::locale(r);
    gen::AddrOpt ao; ao.wild = true; ao.maxItems = 7;
    std::string goodAddr = gen::address(r, g, ao);
    std::vector<std::vector<Tok>> rd{filterToks(tokenize(g.lex, goodAddr, goodLoc), parseTypes("PUNCT,SPACE,DASH,EMDASH"))};
    std::string goodGmr = gen::grammar(r, rd).text;
    std::string compiled;
    { auto c = api::compile(g.text); compiled = c.s; }

    Op o;
    int hostile = 0;
    // lexicon
    int lw = (int)r.below(100);
    if (lw < 45) o.lex = g.text;
    else if (lw < 55) o.lex = compiled;
    else { ++hostile; if (lw < 75) o.lex = gen::mutate(r, g.text); else if (lw < 88) o.lex = gen::mutate(r, compiled); else if (lw < 94) o.lex = gen::bytes(r, 200); else if (lw < 97) o.lex = "LEXICON:\tx\tENG\ten\nLEXENTRY:\t" + gen::bytes(r, 40) + "\t" + gen::bytes(r, 40) + "\tWORD\tATT_SUF\n";
        else if (lw < 98) o.lex = "";
        else { std::string w; size_t n = (size_t)r.range(200, cx.thorough ? 6000 : 2000); for (size_t i = 0; i < n; ++i) w += (char)('A' + (int)r.below(r.chance(50) ? 2 : 26)); o.lex = "LEXICON:\tx\tENG\ten\nLEXENTRY:\t" + w + "\t" + w + "\tWORD\tATT_SUF\nLEXENTRY:\t" + w.substr(0, n / 2) + "\tA\tTYPE\tATT_PRE\n"; cx.count("very_long_words"); } }
    // address
    int aw = (int)r.below(100);
    if (aw < 40) o.addr = goodAddr;
    else { ++hostile; if (aw < 60) o.addr = gen::mutate(r, goodAddr); else if (aw < 90) o.addr = gen::bytes(r, 60); else if (aw < 95) o.addr = gen::bytes(r, 400);
        else if (aw < 97) { o.addr = ""; for (int i = r.range(50, 1500); i > 0; --i) o.addr += r.pick(std::vector<std::string>{"A", "1", "\xc3\x89", ",", "\xe2\x80\x94", "/"}); cx.count("very_long_addresses"); }
        else if (aw < 98) o.addr = ""; else { o.addr = goodAddr; size_t n = o.addr.size(); if (n) o.addr.resize(r.below(n)); } }
    // grammar
    int gw = (int)r.below(100);
    if (gw < 45) o.gmr = goodGmr;
    else { ++hostile; if (gw < 80) o.gmr = gen::mutate(r, goodGmr); else if (gw < 90) o.gmr = gen::bytes(r, 200); else if (gw < 92) o.gmr = ""; else o.gmr = "[ADDRESS]\n@a\n[a]\n" + gen::bytes(r, 30) + "->" + gen::bytes(r, 20) + "->" + gen::bytes(r, 8) + "\n"; }
    int cw = (int)r.below(100);
    o.loc = cw < 60 ? goodLoc : cw < 70 ? gen::mutate(r, goodLoc) : cw < 90 ? gen::bytes(r, 40) : std::string((size_t)r.range(100, 2000), 'x') ;
    if (cw >= 60) ++hostile;
    int fw = (int)r.below(100);
    o.flt = fw < 60 ? gen::filter(r) : fw < 80 ? gen::mutate(r, gen::filter(r)) : fw < 98 ? gen::bytes(r, 60) : std::string((size_t)r.range(100, 5000), ',');
    if (fw >= 60) ++hostile;

    // bound the work, not the bytes
    o.addr = capBlanks(o.addr, 7);
    bool searchable = true;
    try {
        Lex lx = loadLexicon(o.lex); lx.index();
        Gram gg = loadGrammar(o.gmr);
        auto tk = filterToks(tokenize(lx, o.addr, o.loc), parseTypes(o.flt));
        auto v = readings(lx, tk, 256); if (v.empty()) v.push_back(tk);
        std::vector<Deriv> d;
        size_t combos = 0;
        for (auto &x : v) { size_t n = 1; for (auto &t : x) { n *= std::max<size_t>(1, t.cls.size()); if (n > 5000) break; } combos += n; }
        if (combos > 3000 || !derivations(gg, v, 1500, 30000, d)) searchable = false;
    } catch (LoadError &) { searchable = false; }
    bool small = searchable;
    if (!searchable) {              // the search is not known to be small: use a grammar that keeps it so
        bool rejected = false;
        try { loadGrammar(o.gmr); } catch (LoadError &) { rejected = true; }
        if (!rejected && r.chance(60)) { o.gmr = "[ADDRESS]\n@a\n[a]\nNUMBER WORD -> HOUSE STREET -> 0.5\nWORD -> STREET -> 0.5\nTYPE NUMBER -> SUFTYP HOUSE -> 0.1\n"; rejected = true; }
        std::string w; int k = 0; for (char c : o.addr) { if (!isalnum((unsigned char)c) && ++k > 3) break; w += c; }
        if (rejected) { o.addr = w.substr(0, 30); small = true; }
    }

    std::vector<Op> ops;
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Op x = o; x.kind = (int)r.below(11);
        if (!small && (x.kind == 1 || x.kind == 2 || x.kind == 8)) x.kind = 0;
        ops.push_back(x);
    }
    std::string kinds; for (auto &x : ops) kinds += std::string(KIND[x.kind]) + "; ";
    // warm up, then four identical rounds: any block not given back shows as steady growth
    Tally t;
    for (auto &x : ops) run(x, t);
    for (auto &x : ops) cx.count(std::string("op_") + KIND[x.kind]);
    long live[5]; live[0] = g_live.load();
    int rounds = 1;
    for (; rounds < 5; ++rounds) {
        Tally u; for (auto &x : ops) run(x, u);
        live[rounds] = g_live.load();
        if (live[rounds] == live[rounds - 1]) break;
    }
    if (rounds == 5) {
        bool grow = true; for (int i = 1; i < 5; ++i) if (live[i] <= live[i - 1]) grow = false;
        if (grow) cx.viol("blocks-not-given-back", std::to_string(live[4] - live[3]) + " blocks per round by: " + kinds + " address=" + o.addr + " locale=" + o.loc + " filter=" + o.flt + " grammar=" + o.gmr + " lexicon=" + o.lex);
    }
    if (t.badmsg) cx.viol("message-of-a-successful-call", kinds + " address=" + o.addr + " locale=" + o.loc + " filter=" + o.flt + " grammar=" + o.gmr + " lexicon=" + o.lex);
    if (t.nomsg) cx.viol("null-without-message", kinds + " address=" + o.addr + " locale=" + o.loc + " filter=" + o.flt + " grammar=" + o.gmr + " lexicon=" + o.lex);
    cx.count("calls_ok", t.ok); cx.count("calls_rejected", t.rejected); cx.count("calls_no_match", t.nomatch); cx.count("leak_rounds", rounds);
    cx.eval(hostile > 0, "C01" + kinds + o.addr + "\1" + o.lex + "\1" + o.gmr + "\1" + o.loc + "\1" + o.flt);
    if (hostile) cx.sample(kinds + "address=" + o.addr.substr(0, 80) + " locale=" + o.loc.substr(0, 20) + " filter=" + o.flt.substr(0, 40));
}
