// C22, C23, C24: the PostgreSQL functions, called as a backend calls them, in a
// stand-in backend (pgshim.c) that checks every use of it.
#include "common.h"
#include "pgshim.h"
#include "sqldecl.h"
#include <dlfcn.h>
#include <glob.h>
#include <array>
#include <atomic>
#include <sanitizer/allocator_interface.h>
using namespace ref;

// ---- library objects made and freed by the module -----------------------
extern "C" {
void *__real_getLexiconPtr(char *, char **);
void *__real_getGrammarPtr(char *, char **);
void __real_freeLexiconPtr(void *);
void __real_freeGrammarPtr(void *);
}
namespace {
struct Obj { bool lex; std::string text; void *site; long call; };
std::map<void *, Obj> g_live;
std::vector<std::string> g_bad;
long g_call = 0, g_made = 0, g_freed = 0, g_evicted = 0;
bool g_pairCached = false;      // the pair of the running call was alive when it began
long aliveOf(void *site, bool lex, long notCall) { long n = 0; for (auto &x : g_live) if (x.second.site == site && x.second.lex == lex && x.second.call != notCall) ++n; return n; }
void made(void *p, bool lex, const char *text) {
    void *s = pg_current_site();
    if (!p) return;
    if (g_live.count(p)) g_bad.push_back("two live objects at one address");
    g_live[p] = Obj{lex, text, s, s ? g_call : -1};
    if (s) { ++g_made; if (g_pairCached) g_bad.push_back(std::string("a ") + (lex ? "lexicon" : "grammar") + " was loaded again while its standardizer was cached"); }
}
bool freed(void *p, bool lex) {
    if (!p) return false;
    auto it = g_live.find(p);
    if (it == g_live.end()) { g_bad.push_back(std::string("a ") + (lex ? "lexicon" : "grammar") + " was freed that is not alive"); return false; }
    if (it->second.lex != lex) { g_bad.push_back("an object was freed as the wrong kind"); return false; }
    void *s = pg_current_site();
    if (it->second.site) ++g_freed;
    if (s && it->second.site == s && it->second.call != g_call) {
        ++g_evicted;
        // room is needed only when four others were there
        if (aliveOf(s, lex, g_call) < 4) g_bad.push_back("a standardizer was evicted although there was room");
        for (auto &x : g_live) if (x.second.site == s && x.second.lex == lex && x.second.call < it->second.call) { g_bad.push_back("a standardizer was evicted that is not the oldest"); break; }
    }
    else if (s && it->second.site && it->second.site != s) g_bad.push_back("a call freed a standardizer of another call expression");
    g_live.erase(it);
    return true;
}
}
extern "C" {
void *__wrap_getLexiconPtr(char *t, char **e) { std::string s = t; void *p = __real_getLexiconPtr(t, e); made(p, true, s.c_str()); return p; }
void *__wrap_getGrammarPtr(char *t, char **e) { std::string s = t; void *p = __real_getGrammarPtr(t, e); made(p, false, s.c_str()); return p; }
void __wrap_freeLexiconPtr(void *p) { if (freed(p, true)) __real_freeLexiconPtr(p); }
void __wrap_freeGrammarPtr(void *p) { if (freed(p, false)) __real_freeGrammarPtr(p); }
}

namespace {
struct Pool {
    std::vector<gen::GLex> gl;
    std::vector<std::string> lex, gmr, addr, loc, flt;
    std::vector<bool> lexOk, gmrOk;
    std::vector<std::array<size_t, 5>> hits;        // address, lexicon, grammar, locale, filter that match
};
// how much one call may have to search; now and then a pool of results with thousands of rows
struct { size_t choices, derivations, steps; } g_most;
// the class choices and derivations are bounded for every combination the pool can produce
bool fewChoices(Lex &lx, const std::string &a, const std::string &l, const std::string &f, std::vector<std::vector<Tok>> *out = nullptr) {
    auto tk = filterToks(tokenize(lx, a, l), parseTypes(f));
    if (readingCount(tk) > 16) return false;
    auto v = readings(lx, tk, 16); if (v.empty()) v.push_back(tk);
    size_t combos = 0;
    for (auto &x : v) { size_t n = 1; for (auto &t : x) { n *= std::max<size_t>(1, t.cls.size()); if (n > 4000) break; } combos += n; }
    if (out) *out = v;
    return combos <= g_most.choices;
}
size_t g_rows;
bool smallEnough(const Gram &g, Lex &lx, const std::string &a, const std::string &l, const std::string &f, bool *hit) {
    std::vector<std::vector<Tok>> v;
    std::vector<Deriv> d;
    bool ok = fewChoices(lx, a, l, f, &v) && derivations(g, v, g_most.derivations, g_most.steps, d);
    *hit = ok && !d.empty();
    if (ok) g_rows = std::max(g_rows, d.size());
    return ok;
}
Pool pool(Ctx &cx, int nl, int ng, int na, bool bad, bool mayBeVast = true) {
    Rng &r = cx.rng;
    Pool p;
    bool vast = r.chance(2) && mayBeVast && nl <= 2 && ng <= 2;
    if (vast) g_most = {2000, 3000, 60000}; else g_most = {400, 100, 3000};
    g_rows = 0;
    for (int i = 0; i < nl; ++i) {
        gen::LexOpt o; o.maxEntries = 8; o.minEntries = 2;
        if (i && r.chance(60)) {            // the same words meaning something else
            gen::GLex g = p.gl[0];
            auto e = g.entries;
            if (r.chance(40)) { e = gen::sameLengthLexicon(r, e); cx.count("same_length_lexicons"); }
            else for (auto &x : e) { if (r.chance(30)) x.types = {(int)r.range(0, 9)}; if (r.chance(80)) x.std = "S" + std::to_string(r.below(9)) + std::to_string(i); }
            g.text = gen::lexText(g, e);
            p.gl.push_back(g);
        } else p.gl.push_back(gen::lexicon(r, o));
        p.gl.back().lex = loadLexicon(p.gl.back().text);
        std::string t = p.gl.back().text;
        if (r.chance(30)) { auto c = api::compile(t); if (!c.null) t = c.s; }
        p.lex.push_back(t); p.lexOk.push_back(true);
    }
    p.loc = {gen::locale(r), gen::locale(r)};
    p.flt = {"PUNCT,SPACE,DASH,EMDASH", gen::filter(r)};
    std::vector<std::vector<Tok>> rds;
    for (int i = 0; i < na * 3 && (int)p.addr.size() < na; ++i) {
        size_t li = r.below(p.gl.size());
        gen::AddrOpt ao; ao.maxItems = 4;
        std::string a = gen::address(r, p.gl[li], ao);
        bool ok = true;
        for (auto &g : p.gl) for (auto &f : p.flt) for (auto &l : p.loc) if (!fewChoices(g.lex, a, l, f)) ok = false;
        if (!ok) continue;
        p.addr.push_back(a);
        auto tk = filterToks(tokenize(p.gl[li].lex, a, p.loc[0]), parseTypes(p.flt[0]));
        if (!tk.empty()) { auto v = readings(p.gl[li].lex, tk, 16); if (!v.empty()) rds.push_back(v[r.below(v.size())]); }
    }
    if (rds.empty()) { Tok t; t.text = "12"; t.cls = {0}; rds.push_back({t}); p.addr.push_back("12"); }
    if (r.chance(20)) p.addr.push_back("");
    for (int t = 0; t < ng * (vast ? 30 : 4) && (int)p.gmr.size() < ng; ++t) {
        size_t before = g_rows; g_rows = 0;
        std::string txt = !p.gmr.empty() && r.chance(25) ? gen::sameLengthGrammar(r, r.pick(p.gmr)) : gen::grammar(r, rds).text;
        Gram m;
        try { m = loadGrammar(txt); } catch (LoadError &) { continue; }
        bool ok = true;
        std::vector<std::array<size_t, 5>> hits;
        for (size_t a = 0; a < p.addr.size(); ++a) for (size_t x = 0; x < p.gl.size(); ++x) for (size_t l = 0; l < p.loc.size(); ++l) for (size_t f = 0; f < p.flt.size(); ++f) {
            bool hit;
            if (ok && !smallEnough(m, p.gl[x].lex, p.addr[a], p.loc[l], p.flt[f], &hit)) ok = false;
            if (ok && hit) hits.push_back({a, x, p.gmr.size(), l, f});
        }
        if (vast && g_rows < 400 && t < ng * 25) ok = false;       // worth the wait
        g_rows = ok ? std::max(g_rows, before) : before;
        if (ok && std::find(p.gmr.begin(), p.gmr.end(), txt) == p.gmr.end()) { p.gmr.push_back(txt); p.hits.insert(p.hits.end(), hits.begin(), hits.end()); }
    }
    const char *OC[] = {"HOUSE", "STREET", "CITY", "EXTRA", "UNITH", "BLDNG", "POSTAL", "PROV"};
    for (int i = 0; (int)p.gmr.size() < ng && i < 8; ++i) p.gmr.push_back(std::string("[ADDRESS]\n@a\n[a]\nNUMBER -> ") + OC[i] + " -> 0.5\nWORD -> " + OC[(i + 1) % 8] + " -> 0.4\nNUMBER WORD -> " + OC[i] + " STREET -> 0.6\n");
    p.gmrOk.assign(p.gmr.size(), true);
    cx.maxof("rows_of_a_match", (long)g_rows); if (g_rows > 100) cx.count("pools_with_more_than_100_rows");
    if (bad) {
        static const char *badLex[] = {"not a lexicon", "LEXICON:\tx\tENG\ten\nLEXENTRY:\tA\tA\tNOSUCH\tATT_SUF\n", "LEXENTRY:\tA\tA\tWORD\t\n", "LEXICON:\tx\tENG\ten\nwhat is this\n"};
        static const char *badGmr[] = {"", "[ADDRESS]\n@nowhere\n", "[a]\nNUMBER -> HOUSE -> 0.5\n", "[ADDRESS]\n@a\n[a]\nNUMBER -> HOUSE\n", "NUMBER -> HOUSE -> 0.5\n", "[ADDRESS]\n@a\n@b\n[a]\nNUMBER WORD -> HOUSE -> 0.5\n", "[ADDRESS]\n@a\n[a]\nNUMBER -> HOUSE -> 0.5\n[a]\nWORD -> CITY -> 0.5\n"};
        for (int i = r.range(1, 2); i > 0; --i) { p.lex.push_back(r.chance(70) ? badLex[r.below(4)] : gen::mutate(r, p.lex[0])); p.lexOk.push_back(false); }
        for (int i = r.range(1, 2); i > 0; --i) { p.gmr.push_back(badGmr[r.below(7)]); p.gmrOk.push_back(false); }
    }
    return p;
}
struct Call { int fn; std::string addr, lex, gmr, loc, flt; int packed[5]; };
std::string rowStr(const PgRow &r) { std::string s; for (int i = 0; i < r.natts; ++i) s += (r.val[i] ? jstr(r.val[i]) : "NULL") + std::string(i + 1 < r.natts ? "|" : ""); return s; }
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
// what the library itself answers for these arguments
std::vector<std::string> expected(const Call &c, std::string &error, bool &fails) {
    std::vector<std::string> v;
    fails = false;
    if (c.fn == FN_STANDARDIZE) {
        auto l = api::lexPtr(c.lex);
        auto g = api::gmrPtr(c.gmr);
        if (!l.p) { fails = true; error = l.err.msg; } else if (!g.p) { fails = true; error = g.err.msg; }
        else {
            auto s = api::stdzP(c.addr, g.p, l.p, c.loc, c.flt);
            std::string o;
            for (int i = 0; i < 17; ++i) o += (s.s.has[i] ? jstr(s.s.f[i]) : "NULL") + std::string(i < 16 ? "|" : "");
            v.push_back(o);
        }
        if (l.p) freeLexiconPtr(l.p);
        if (g.p) freeGrammarPtr(g.p);
    } else if (c.fn == FN_PARSE) {
        auto p = api::parse(c.addr, c.lex, c.loc, c.flt);
        if (p.null) { fails = true; error = p.err.msg; }
        for (auto &t : p.v) v.push_back(jstr(std::to_string(t.pat + 1)) + "|" + jstr(std::to_string(t.seq + 1)) + "|" + jstr(t.word) + "|" + jstr(t.cls) + "|" + jstr(t.att));
    } else if (c.fn == FN_MATCH) {
        auto m = api::match(c.addr, c.gmr, c.lex, c.loc, c.flt);
        if (m.null) { fails = true; error = m.err.msg; }
        for (auto &t : m.v) v.push_back(jstr(t.pat) + "|" + jstr(num(t.score)));
    } else {
        auto s = api::compile(c.lex);
        if (s.null) { fails = true; error = s.err.msg; } else v.push_back(jstr(s.s));
    }
    return v;
}
const char *FNAME[] = {"as_standardize", "as_parse", "as_match", "as_compile_lexicon"};
std::string show(const Call &c) { return std::string(FNAME[c.fn]) + "(address=" + c.addr + ", locale=" + c.loc + ", filter=" + c.flt + ", grammar=" + c.gmr + ", lexicon=" + c.lex + ")"; }
int start(PgSite *s, const Call &c, PgRow *row, char **err, int nulls = 0) {
    const char *a[5] = {c.addr.c_str(), c.gmr.c_str(), c.lex.c_str(), c.loc.c_str(), c.flt.c_str()};
    const char *b[4] = {c.addr.c_str(), c.lex.c_str(), c.loc.c_str(), c.flt.c_str()};
    const char *d[1] = {c.lex.c_str()};
    for (int i = 0; i < 5; ++i) if (nulls & 1 << i) { a[i] = nullptr; if (i < 4) b[i] = nullptr; if (!i) d[0] = nullptr; }
    ++g_call;
    return pg_call(s, c.fn == FN_PARSE ? b : c.fn == FN_COMPILE ? d : a, c.packed, row, err);
}
void drain(Ctx &cx, const std::string &where) {
    char *m = pg_misuse();
    if (m) { cx.viol("backend-misuse", std::string(m) + " " + where); free(m); }
    for (auto &b : g_bad) cx.viol("object-lifetime", b + " " + where);
    g_bad.clear();
}
void fill(Rng &r, Call &c) { for (int i = 0; i < 5; ++i) c.packed[i] = r.chance(50); }
Call pick(Rng &r, const Pool &p, int fn) {
    Call c; c.fn = fn;
    c.addr = r.pick(p.addr); c.lex = r.pick(p.lex); c.gmr = r.pick(p.gmr); c.loc = r.pick(p.loc); c.flt = r.pick(p.flt);
    if (!p.hits.empty() && r.chance(60)) { auto &h = r.pick(p.hits); c.addr = p.addr[h[0]]; c.lex = p.lex[h[1]]; c.gmr = p.gmr[h[2]]; c.loc = p.loc[h[3]]; c.flt = p.flt[h[4]]; }
    fill(r, c);
    return c;
}
}

// ---- the extension's SQL script ---------------------------------------------
namespace {
struct Doc { const char *name; std::vector<const char *> in, out; const char *outType; bool set; const char *returns; };
const Doc DOC[4] = {
    {"as_standardize", {"address", "grammar", "lexicon", "locale", "filter"}, {"building", "house_num", "predir", "qual", "pretype", "name", "suftype", "sufdir", "ruralroute", "extra", "city", "prov", "country", "postcode", "box", "unit", "pattern"}, "ttttttttttttttttt", false, "record"},
    {"as_parse", {"address", "lexicon", "locale", "filter"}, {"pat", "seq", "word", "inclass", "attached"}, "iittt", true, "record"},
    {"as_match", {"address", "grammar", "lexicon", "locale", "filter"}, {"tokens", "score"}, "tf", true, "record"},
    {"as_compile_lexicon", {"lexicon"}, {}, "", false, "text"},
};
std::vector<std::string> g_decl;        // what is wrong with the declarations
}
// the functions are called as the script of the extension declares them
void init_pg(Ctx &cx) {
    struct D { int k; void *sym; bool set, strict; std::vector<unsigned> oid; };
    std::vector<D> ds;
    static bool done = false; if (done) return; done = true;
    auto wrong = [&](const std::string &s) { g_decl.push_back(s); };
    glob_t g; std::vector<std::string> files;
    if (!glob((gen::repo() + "/src/*--*.sql.in").c_str(), 0, nullptr, &g)) for (size_t i = 0; i < g.gl_pathc; ++i) files.push_back(g.gl_pathv[i]);
    globfree(&g);
    if (files.size() != 1) return;          // laid out in another way: the documented declarations are used
    std::string bad, b = files[0].substr(files[0].rfind('/') + 1), ver = b.substr(b.find("--") + 2); ver = ver.substr(0, ver.find(".sql"));
    auto fns = sqlFunctions(gen::rdfile(files[0]), bad);
    if (!bad.empty()) { wrong("the script: " + bad); return; }
    if (!dlsym(RTLD_DEFAULT, "Pg_magic_func")) wrong("no Pg_magic_func");
    std::string lib;
    for (int k = 0; k < 4; ++k) {
        const Doc &d = DOC[k]; std::string n = d.name;
        if (!fns.count(n)) { wrong(n + " is not declared"); continue; }
        SqlFn &f = fns[n];
        if (f.odd) continue;
        std::vector<unsigned> oid; std::string in, out, din, dout, types; bool known = true;
        for (auto &a : f.args) if (a.mode == "in") { in += a.name + " "; if (a.type != "text") wrong(n + "(" + a.name + " " + a.type + ")"); }
        for (auto &a : f.args) if (a.mode == "out") {
            out += a.name + " ";
            static const std::map<std::string, std::pair<unsigned, char>> T = {{"text", {25, 't'}}, {"int2", {21, 'i'}}, {"int4", {23, 'i'}}, {"int8", {20, 'i'}}, {"float4", {700, 'f'}}, {"float8", {701, 'f'}}, {"boolean", {16, 'b'}}};
            auto t = T.find(a.type); if (t == T.end()) { known = false; break; }
            oid.push_back(t->second.first); types += t->second.second;
        }
        if (!known) continue;
        for (auto x : d.in) din += std::string(x) + " ";
        for (auto x : d.out) dout += std::string(x) + " ";
        if (in != din) wrong(n + " takes " + in + "not " + din);
        if (out != dout) wrong(n + " returns " + out + "not " + dout);
        if (types != d.outType) wrong(n + " has columns of types " + types);
        if (f.set != d.set) wrong(n + (f.set ? " is" : " is not") + " declared as a set");
        if (f.returns != d.returns && !(f.returns.empty() && !f.set)) wrong(n + " returns " + f.returns);
        if (f.lang != "c") wrong(n + " is declared in language " + f.lang);
        if (f.lib != "MODULE_PATHNAME" && f.lib != "$libdir/address_standardizer2-" + ver) wrong(n + " is looked for in " + f.lib);
        void *sym = dlsym(RTLD_DEFAULT, f.symbol.c_str()), *fi = dlsym(RTLD_DEFAULT, ("pg_finfo_" + f.symbol).c_str());
        if (!sym || !fi) { wrong(n + ": function " + f.symbol + " is not in the library"); continue; }
        ds.push_back({k, sym, f.set, f.strict, oid});
    }
    // a wrong declaration is C22's business; the others then use the documented ones
    if (g_decl.empty() || cx.prop == "C22") for (auto &d : ds) pg_declare(d.k, d.sym, d.set, d.strict, (int)d.oid.size(), d.oid.data());
}
// ---- C22 ------------------------------------------------------------------
// arguments and results beyond 64 KB and 32767 rows
static Call hugeCall(Ctx &cx) {
    Rng &r = cx.rng;
    static const char *CL[] = {"CITY", "PROV", "TYPE", "WORD"}, *OC[] = {"CITY", "PROV", "STREET", "NATION"};
    bool words = cx.idx % 1200 == 7;        // the long address takes its time
    Call c; c.fn = words ? FN_PARSE : (int)r.below(4); c.loc = "en"; c.flt = "PUNCT,SPACE,DASH,EMDASH";
    bool big = !words && r.chance(60);      // else the grammar is the long one
    int n = words ? 3 : big ? r.range(2500, 6000) : r.range(2, 9);
    c.lex = "LEXICON:\tx\tENG\ten\n";
    for (int i = 0; i < n; ++i) c.lex += "LEXENTRY:\tW" + std::to_string(i) + "X\tSTANDARD " + std::to_string(i) + "\t" + CL[i % 4] + "\t\n";
    c.gmr = "[ADDRESS]\n@N\n[N]\n";
    for (int i = 0; i < 4; ++i) c.gmr += std::string(CL[i]) + " -> " + OC[(size_t)r.below(4)] + " -> 0.5\n";
    if (!words && (!big || r.chance(30))) {
        int m = r.range(2500, 6000);
        for (int i = 0; i < m; ++i) c.gmr += i % 2 ? "# " + std::to_string(i) + " a line that says nothing at all about addresses\n" : std::string("CITY PROV ") + CL[i % 4] + " -> CITY PROV EXTRA -> 0." + std::to_string(i + 1) + "\n";
        c.gmr += "WORD WORD -> QUALIF STREET -> 0.75\n";
    }
    if (words) { n = r.range(16500, 18000); c.flt = "SPACE"; for (int i = 0; i < n; ++i) c.addr += i % 701 ? "W," : "7,"; c.lex += "LEXENTRY:\tW\tW\tCITY\t\nLEXENTRY:\t,\t,\tPUNCT\t\n"; }
    else if (big && r.chance(20)) c.addr = std::string((size_t)r.range(66000, 90000), 'Q');
    else c.addr = r.chance(60) ? "w" + std::to_string(n - 1) + "x" : "abba w" + std::to_string(n - 1) + "z";
    cx.maxof("bytes_of_an_argument", (long)std::max(std::max(c.addr.size(), c.lex.size()), c.gmr.size()));
    fill(r, c);
    return c;
}
void case_C22(Ctx &cx) {
    Rng &r = cx.rng;
    for (auto &b : g_decl) { cx.viol("declaration " + b, ""); return; }
    if (cx.idx % 60 == 7) {
        Call c = hugeCall(cx);
        std::string why; bool fails;
        auto exp = expected(c, why, fails);
        auto brief = [&] { return std::string(FNAME[c.fn]) + "(" + std::to_string(c.addr.size()) + " bytes of address, " + std::to_string(c.gmr.size()) + " of grammar, " + std::to_string(c.lex.size()) + " of lexicon)"; };
        pg_session_begin();
        PgQuery *Q = pg_query_begin(r.chance(30)); PgSite *s = pg_site(Q, c.fn);
        PgRow row; memset(&row, 0, sizeof row); char *err = nullptr; size_t got = 0;
        int rc = start(s, c, &row, &err); bool set = c.fn == FN_PARSE || c.fn == FN_MATCH;
        for (;;) {
            std::string what;
            if (rc == PG_ERROR) { if (!fails) what = std::string("error: ") + (err ? err : ""); }
            else if (rc == PG_DONE || rc == PG_NULL) { if (got != exp.size()) what = "ends after " + std::to_string(got) + " rows of " + std::to_string(exp.size()); }
            else if (got >= exp.size()) what = "row " + std::to_string(got + 1) + " of " + std::to_string(exp.size());
            else { std::string t = rowStr(row); if (t != exp[got]) what = "row " + std::to_string(got + 1) + ": " + t.substr(0, 200) + " expected " + exp[got].substr(0, 200); ++got; cx.count("rows_of_large_calls"); }
            pg_row_free(&row); free(err); err = nullptr; memset(&row, 0, sizeof row);
            if (!what.empty()) cx.viol("row-differs", what + " " + brief());
            if (!what.empty() || rc != PG_ROW || !set) break;
            rc = pg_next(s, &row, &err);
        }
        drain(cx, brief());
        pg_query_end(Q); drain(cx, "(at the end of the query)");
        pg_session_end(); drain(cx, "(at the end of the session)");
        cx.eval(!exp.empty(), "C22" + brief() + std::to_string(cx.idx)); cx.count("large_calls"); cx.maxof("rows_of_a_large_call", (long)got);
        return;
    }
    Pool p = pool(cx, 2, 2, 3, false);
    pg_session_begin();
    for (int q = r.range(1, 2); q > 0; --q) {
        PgQuery *Q = pg_query_begin(r.chance(30));
        struct Open { PgSite *s; Call c; std::vector<std::string> exp; size_t got; bool open; };
        std::vector<Open> sites;
        for (int i = r.big(1, 4, 14); i > 0; --i) { int fn = r.chance(40) ? FN_STANDARDIZE : (int)r.below(4); Call c; c.fn = fn; sites.push_back({pg_site(Q, fn), c, {}, 0, false}); }
        bool failed = false;
        for (int step = r.big(6, 20, 90); (step > 0 || std::any_of(sites.begin(), sites.end(), [](const Open &o) { return o.open; })) && !failed; --step) {
            Open &o = sites[r.below(sites.size())];
            if (step <= 0 && !o.open) continue;
            PgRow row; char *err = nullptr; int rc;
            if (!o.open) {
                o.c = pick(r, p, o.c.fn);
                std::string why; bool fails;
                o.exp = expected(o.c, why, fails);
                o.got = 0;
                if (fails) continue;
                if (r.chance(8)) {          // SQL NULL for some arguments
                    int mask = 0, n = o.c.fn == FN_PARSE ? 4 : o.c.fn == FN_COMPILE ? 1 : 5;
                    while (!mask) for (int i = 0; i < n; ++i) if (r.chance(30)) mask |= 1 << i;
                    rc = start(o.s, o.c, &row, &err, mask);
                    cx.count("calls_with_null"); cx.eval(false, "");
                    bool set = o.c.fn == FN_PARSE || o.c.fn == FN_MATCH;
                    if (rc != (set ? PG_DONE : PG_NULL)) { cx.viol("null-argument", std::string(rc == PG_ERROR ? err : "a row") + " for NULL arguments (" + std::to_string(mask) + ") " + show(o.c)); failed = true; }
                    if (rc == PG_ROW) pg_row_free(&row);
                    free(err);
                    drain(cx, show(o.c));
                    continue;
                }
                rc = start(o.s, o.c, &row, &err);
                cx.count(std::string("calls_") + FNAME[o.c.fn]);
                cx.eval(!o.exp.empty(), "C22" + show(o.c));
                cx.sample(show(o.c).substr(0, 160));
                o.open = o.c.fn == FN_PARSE || o.c.fn == FN_MATCH;
            } else rc = pg_next(o.s, &row, &err);
            std::string what;
            if (rc == PG_ERROR) { what = std::string("error: ") + err; failed = true; }
            else if (rc == PG_DONE) { if (o.got != o.exp.size()) what = "ends after " + std::to_string(o.got) + " rows of " + std::to_string(o.exp.size()); o.open = false; }
            else if (rc == PG_NULL) what = "NULL";
            else {
                std::string s = rowStr(row);
                if (o.got >= o.exp.size()) { what = "row " + std::to_string(o.got + 1) + " of " + std::to_string(o.exp.size()) + ": " + s; failed = true; }
                else if (s != o.exp[o.got]) what = "row " + std::to_string(o.got + 1) + ": " + s + " expected " + o.exp[o.got];
                ++o.got; cx.count("rows");
                if (s.find("NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL|NULL") == 0) cx.count("rows_all_null");
            }
            pg_row_free(&row); free(err);
            if (!what.empty()) cx.viol("row-differs", what + " " + show(o.c));
            drain(cx, show(o.c));
        }
        pg_query_end(Q);
        drain(cx, "(at the end of the query)");
    }
    pg_session_end();
    drain(cx, "(at the end of the session)");
}

// ---- C23 ------------------------------------------------------------------
void case_C23(Ctx &cx) {
    Rng &r = cx.rng;
    Pool p = pool(cx, r.big(2, 4, 7, 6), r.big(2, 4, 7, 6), 3, false, false);
    std::vector<std::pair<size_t, size_t>> pairs;
    for (size_t i = 0; i < p.lex.size(); ++i) for (size_t j = 0; j < p.gmr.size(); ++j) pairs.push_back({i, j});
    for (size_t i = pairs.size(); i > 1; --i) std::swap(pairs[i - 1], pairs[r.below(i)]);
    size_t np = (size_t)r.range(1, (int)std::min<size_t>(pairs.size(), r.chance(8) ? 40 : 9));
    pairs.resize(np);
    std::map<std::string, std::string> exp;
    auto want = [&](const Call &c) -> const std::string & {
        std::string k = c.addr + "\1" + c.lex + "\1" + c.gmr + "\1" + c.loc + "\1" + c.flt;
        auto it = exp.find(k);
        if (it == exp.end()) { std::string w; bool f; auto v = expected(c, w, f); it = exp.emplace(k, f ? "error " + w : v[0]).first; }
        return it->second;
    };
    pg_session_begin();
    struct Q { PgQuery *q; std::vector<PgSite *> s; };
    std::vector<Q> qs;
    std::string hist;
    auto open = [&]() { Q q; q.q = pg_query_begin(r.chance(20)); for (int i = r.big(1, 2, 9, 6); i > 0; --i) q.s.push_back(pg_site(q.q, FN_STANDARDIZE)); qs.push_back(q); hist += " [query"; };
    auto close = [&](size_t i) {
        std::vector<PgSite *> s = qs[i].s;
        pg_query_end(qs[i].q); qs.erase(qs.begin() + (long)i); hist += " ]";
        for (auto *x : s) for (auto &o : g_live) if (o.second.site == (void *)x) { cx.viol("not-freed-with-the-query", "a standardizer is alive after its query's memory was released:" + hist); break; }
        for (auto &o : g_live) for (auto *x : s) if (o.second.site == (void *)x) o.second.site = nullptr;
        drain(cx, "(at the end of a query)" + hist);
    };
    open();
    int mode = (int)r.below(4);
    size_t cur = 0;
    std::set<size_t> used;
    long madeBefore = g_made, evBefore = g_evicted;
    size_t maxQs = r.chance(6) ? 12 : 3;
    for (int step = r.big(10, 60, 240, 6); step > 0; --step) {
        if (r.chance(maxQs > 3 ? 12 : 4) && qs.size() < maxQs) open();
        if (r.chance(3)) { close(r.below(qs.size())); if (qs.empty()) open(); }
        size_t qi = r.below(qs.size());
        PgSite *s = r.pick(qs[qi].s);
        switch (mode) {
            case 0: cur = r.below(np); break;
            case 1: cur = (cur + 1) % np; break;                                  // round robin
            case 2: if (r.chance(25)) cur = r.below(np); break;                    // bursts
            default: cur = r.chance(70) ? r.below(std::min<size_t>(np, 4)) : r.below(np); break;
        }
        Call c; c.fn = FN_STANDARDIZE; c.addr = r.pick(p.addr); c.lex = p.lex[pairs[cur].first]; c.gmr = p.gmr[pairs[cur].second]; c.loc = r.pick(p.loc); c.flt = r.pick(p.flt); fill(r, c);
        std::string w = want(c);
        // is this pair's standardizer alive in this call expression?
        g_pairCached = false;
        for (auto &a : g_live) if (a.second.site == (void *)s && a.second.lex && a.second.text == c.lex)
            for (auto &b : g_live) if (b.second.site == (void *)s && !b.second.lex && b.second.text == c.gmr && b.second.call == a.second.call) g_pairCached = true;
        if (g_pairCached) cx.count("calls_with_cached_pair"); else cx.count("calls_with_new_pair");
        used.insert(cur);
        hist += " " + std::to_string(cur) + (qs.size() > 1 || qs[0].s.size() > 1 ? "@" + std::to_string(qi) : "");
        PgRow row; char *err = nullptr;
        int rc = start(s, c, &row, &err);
        g_pairCached = false;
        std::string got = rc == PG_ERROR ? std::string("error ") + err : rc == PG_ROW ? rowStr(row) : "nothing";
        if (got != w) cx.viol("wrong-standardizer", "got " + got + " expected " + w + " after" + hist + " " + show(c));
        pg_row_free(&row); free(err);
        cx.count("calls");
        long a = aliveOf(s, true, -2), b = aliveOf(s, false, -2);
        cx.maxof("alive_per_call_expression", std::max(a, b));
        if (a > 4 || b > 4) cx.viol("too-many-alive", std::to_string(a) + " lexicons and " + std::to_string(b) + " grammars alive:" + hist);
        drain(cx, "history:" + hist);
        if (rc == PG_ERROR) break;
    }
    while (!qs.empty()) close(qs.size() - 1);
    pg_session_end();
    drain(cx, "(at the end of the session)" + hist);
    cx.count("objects_made", g_made - madeBefore);
    cx.count("evictions", g_evicted - evBefore);
    cx.maxof("pairs", (long)np);
    cx.eval(used.size() > 1, "C23" + hist + p.lex[0]);
    cx.sample(std::to_string(np) + " pairs:" + hist.substr(0, 150));
}

// ---- C24 ------------------------------------------------------------------
static std::atomic<long> g_blocks{0};
static void onMalloc(const volatile void *p, size_t) { if (p) g_blocks.fetch_add(1, std::memory_order_relaxed); }
static void onFree(const volatile void *p) { if (p) g_blocks.fetch_sub(1, std::memory_order_relaxed); }
void init_pg(Ctx &);
void init_C24(Ctx &cx) { init_pg(cx); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }

namespace {
struct Step { Call c; std::vector<std::string> exp; bool fails; std::string why; int rows; /* rows to take, -1 all */ int siteNo; };
struct QPlan { bool spi; std::vector<int> fns; std::vector<Step> steps; };
// runs one session; problems are only reported on the first run
void session(Ctx &cx, const std::vector<QPlan> &plan, bool report) {
    pg_session_begin();
    for (auto &qp : plan) {
        PgQuery *Q = pg_query_begin(qp.spi);
        std::vector<PgSite *> s;
        for (int f : qp.fns) s.push_back(pg_site(Q, f));
        for (auto &st : qp.steps) {
            PgRow row; char *err = nullptr;
            PgSite *site = s[(size_t)st.siteNo];
            int rc = start(site, st.c, &row, &err);
            size_t got = 0;
            bool srf = st.c.fn == FN_PARSE || st.c.fn == FN_MATCH;
            std::string what;
            while (rc == PG_ROW) {
                if (!st.fails) { std::string x = rowStr(row); if (got >= st.exp.size() || x != st.exp[got]) what = "row " + std::to_string(got + 1) + ": " + x + " expected " + (got < st.exp.size() ? st.exp[got] : "no row"); }
                else what = "a row from arguments that cannot be loaded: " + rowStr(row);
                ++got; pg_row_free(&row); row.natts = 0; row.val = nullptr;
                if (!srf || got > st.exp.size() + 2) break;
                if (st.rows >= 0 && (int)got >= st.rows) break;
                rc = pg_next(site, &row, &err);
            }
            if (rc == PG_ERROR) {
                std::string e = err ? err : "";
                if (!st.fails) what = "an error for valid arguments: " + e;
                else if (st.why.empty() || e.find(st.why.substr(0, 900)) == std::string::npos) what = "the error does not carry the reason: " + e + " reason: " + st.why;
                if (report) cx.count("errors_raised");
            } else if (st.fails && !srf) what = "no error although the library reports: " + st.why;
            else if (!st.fails && srf && st.rows < 0 && got != st.exp.size()) what = std::to_string(got) + " rows of " + std::to_string(st.exp.size());
            else if (report && st.fails) cx.count("set_functions_without_rows");
            if (report && srf && st.rows >= 0 && rc == PG_ROW) cx.count("abandoned");
            if (rc == PG_ROW) pg_abandon(site);
            pg_row_free(&row); free(err);
            if (report && !what.empty()) cx.viol("sql-error-handling", what + " " + show(st.c));
            if (report) { drain(cx, show(st.c)); cx.count("calls"); } else { char *m = pg_misuse(); free(m); g_bad.clear(); }
            if (rc == PG_ERROR) break;                    // the query is over
        }
        pg_query_end(Q);
        if (report) drain(cx, "(at the end of a query)");
    }
    pg_session_end();
    if (report) {
        drain(cx, "(at the end of the session)");
        long left = 0; for (auto &x : g_live) if (x.second.call >= 0) ++left;
        if (left) cx.viol("object-left", std::to_string(left) + " lexicons or grammars are alive after the session");
    }
    for (auto it = g_live.begin(); it != g_live.end();) it = it->second.call >= 0 ? g_live.erase(it) : std::next(it);
}
}

void case_C24(Ctx &cx) {
    Rng &r = cx.rng;
    Pool p = pool(cx, 1, 1, 2, true);
    std::vector<QPlan> plan;
    std::string desc;
    bool anyFail = false;
    for (int q = r.range(2, 5); q > 0; --q) {
        QPlan qp; qp.spi = r.chance(30);
        for (int i = r.range(1, 3); i > 0; --i) qp.fns.push_back(r.chance(50) ? FN_STANDARDIZE : (int)r.below(4));
        for (int i = r.range(1, 5); i > 0; --i) {
            Step st; st.siteNo = (int)r.below(qp.fns.size());
            st.c = pick(r, p, qp.fns[(size_t)st.siteNo]);
            if (r.chance(40)) { st.c.lex = p.lex[0]; st.c.gmr = p.gmr[0]; }
            st.exp = expected(st.c, st.why, st.fails);
            // a mutated text can turn out valid; the work it causes is not bounded then
            bool known = std::find(p.lex.begin(), p.lex.begin() + 1, st.c.lex) != p.lex.begin() + 1;
            if (!st.fails && !known && st.c.fn != FN_COMPILE) { st.c.lex = p.lex[0]; st.exp = expected(st.c, st.why, st.fails); }
            st.rows = r.chance(25) ? 1 : -1;
            anyFail |= st.fails;
            desc += std::string(FNAME[st.c.fn]) + (st.fails ? "!" : "") + (st.rows > 0 ? "1" : "") + " ";
            qp.steps.push_back(st);
        }
        desc += "| ";
        plan.push_back(qp);
    }
    session(cx, plan, true);
    if (cx.viols == 0 || true) {
        long live[6]; live[0] = g_blocks.load();
        int n = 1;
        for (; n < 5; ++n) { session(cx, plan, false); live[n] = g_blocks.load(); if (live[n] == live[n - 1]) break; }
        if (n == 5) {
            bool grow = true; for (int i = 1; i < 5; ++i) if (live[i] <= live[i - 1]) grow = false;
            if (grow) {
                std::string all; for (auto &q : plan) for (auto &s : q.steps) all += show(s.c) + (s.rows > 0 ? " (one row taken)" : "") + "; ";
                cx.viol("memory-left", std::to_string(live[4] - live[3]) + " heap blocks are left by each session: " + desc + all);
            }
        }
        cx.count("leak_rounds", n);
    }
    cx.eval(anyFail, "C24" + desc + p.lex[0] + p.gmr[0]);
    cx.sample(desc);
}
