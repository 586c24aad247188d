// C32: the programs of src/tester, run on generated files; what they print or write is
// compared with what the library answers to the same arguments.
#include "program.h"
#include "searchcase.h"
#include "lexicon.h"
#include "grammar.h"
#include <cmath>

namespace {
Out cli(const Dir &d, const char *name, const std::vector<std::string> &args, const std::string &input = "") {
    const char *p = getenv((std::string("ASV_PROG_") + name).c_str());
    if (!p) { fprintf(stderr, "no program %s\n", name); _exit(97); }
    return program(d, p, args, input);
}
const std::string DASH(31, '-'), DASH2(53, '-');
struct PT { std::string text, std, cls, out, att; bool inlex; };
// a printed token; the text may hold anything but a line end
bool token(const std::string &l, PT &t) {
    auto f = cut(l, '\t');
    if (f.size() < 7 || f[0] != "TOKEN:") return false;
    size_t n = f.size();
    t.text = f[1]; for (size_t i = 2; i + 5 < n; ++i) t.text += "\t" + f[i];
    t.std = f[n - 5]; t.cls = f[n - 4]; t.out = f[n - 3]; t.att = f[n - 2]; t.inlex = f[n - 1] == "1";
    return true;
}
std::string after(const std::vector<std::string> &v, const std::string &k) { for (auto &l : v) if (l.compare(0, k.size(), k) == 0) return l.substr(k.size()); return "\1"; }
std::string row(int pat, const std::string &w, const std::string &c) { return std::to_string(pat) + ":" + w + ":" + c + "\n"; }
std::string rows(const api::Parse &p, bool first = false) { std::string s; for (auto &t : p.v) if (!first || t.pat == 0) s += row(t.pat, t.word, t.cls); return s; }
bool near(double a, double b) { return std::fabs(a - b) <= 1.1e-5 * std::max(1e-3, std::fabs(b)); }

struct Files { std::string lex, gmr, lexText; bool compiled; };
std::string lexMd5(const std::string &t) { auto p = api::lexPtr(t); if (!p.p) return ""; std::string s = api::takeStr(getLexiconMd5(p.p)); freeLexiconPtr(p.p); return s; }

void runT2(Ctx &cx, const Dir &d, const Case &c, const std::string &lexText, const std::string &gmr, bool withFilter, const std::string &how) {
    put(d.p + "/a lex.txt", lexText); put(d.p + "/g.gmr", gmr);
    std::string flt = withFilter ? c.flt : "PUNCT,SPACE,EMDASH,STOPWORD";
    std::vector<std::string> args = {d.p + "/a lex.txt", d.p + "/g.gmr", c.addr}; if (withFilter) args.push_back(c.flt);
    Out o = cli(d, "t2", args);
    std::string at = " (" + how + ") filter=" + flt + c.at() + "\noutput:\n" + o.out.substr(0, 6000) + "\nstderr: " + o.err.substr(0, 2000);
    cx.count("t2_" + how);
    auto p = api::parse(c.addr, lexText, "en", flt);
    auto m = api::match(c.addr, gmr, lexText, "en", flt);
    auto s = api::stdz(c.addr, gmr, lexText, "en", flt);
    cx.eval(!p.v.empty(), "C32t2" + how + c.addr + lexText + gmr);
    auto v = lines(o.out);
    if (p.null || (m.null && m.err.set)) {
        cx.count("t2_refused");
        if (o.rc == 0) cx.viol("t2 invalid-input-accepted", p.err.msg + m.err.msg + at);
        if (!p.null && o.out.find(m.err.msg) == std::string::npos && o.err.find(m.err.msg) == std::string::npos) cx.viol("t2 reason-not-shown", m.err.msg + at);
        return;
    }
    // the readings
    size_t i = 0; while (i < v.size() && v[i] != DASH) ++i;
    std::string got; int pat = -1; PT t;
    size_t blocks = 0; for (size_t j = i; j < v.size(); ++j) if (v[j] == DASH) ++blocks;
    for (; i < v.size(); ++i) {
        if (v[i] == DASH) { ++pat; continue; }
        if (!token(v[i], t)) break;
        got += row(pat, t.text, t.cls); cx.count("tokens_shown");
        if (!t.att.empty()) cx.count("tokens_with_attachment");
    }
    if (got != rows(p)) { cx.viol("t2 readings-differ", "got\n" + got + "expected\n" + rows(p) + at); return; }
    size_t want = 1; for (auto &x : p.v) want = std::max(want, (size_t)x.pat + 1);
    if (blocks != want + 1 && !p.v.empty()) cx.viol("t2 readings-differ", std::to_string(blocks) + " lines of dashes for " + std::to_string(want) + " readings" + at);
    if (want > 1) cx.count("with_alternates");
    // identification of what was used
    std::string lm = after(v, "Lexicon md5: "), gm = after(v, "Grammar md5: ");
    auto gp = api::gmrPtr(gmr); std::string wg = gp.p ? api::takeStr(getGrammarMd5(gp.p)) : ""; if (gp.p) freeGrammarPtr(gp.p);
    if (lm != lexMd5(lexText)) cx.viol("t2 lexicon-digest", lm + at);
    if (gm != wg) cx.viol("t2 grammar-digest", gm + at);
    bool warn = after(v, "WARNING loading grammar") != "\1"; bool mw = false; try { mw = loadGrammar(gmr).warn; } catch (LoadError &) { }
    if (warn != mw) cx.viol("t2 warning", at);
    // the best match
    if (s.null) {
        cx.count("t2_no_match");
        if (o.rc == 0 || o.out.find("#### Failed") == std::string::npos || after(v, "bestCost: ") != "\1") cx.viol("t2 failure-not-reported", "exit " + std::to_string(o.rc) + at);
        return;
    }
    if (o.rc != 0) { cx.viol("t2 failed", "exit " + std::to_string(o.rc) + at); return; }
    size_t b = 0; while (b < v.size() && v[b].compare(0, 10, "bestCost: ") != 0) ++b;
    if (b == v.size()) { cx.viol("t2 no-best-match", at); return; }
    double cost = atof(v[b].c_str() + 10);
    Std fs; std::vector<std::string> part(16);
    std::string cls, outs;
    for (++b; b < v.size() && token(v[b], t); ++b) {
        int o1 = outCode(t.out), f;
        static const std::map<std::string, int> F = {{"BLDNG", 0}, {"HOUSE", 1}, {"PREDIR", 2}, {"QUALIF", 3}, {"PRETYP", 4}, {"STREET", 5}, {"SUFTYP", 6}, {"SUFDIR", 7}, {"RR", 8}, {"STOP", 9}, {"EXTRA", 9},
                                                     {"BADTOKEN", 9}, {"CITY", 10}, {"PROV", 11}, {"NATION", 12}, {"POSTAL", 13}, {"BOXH", 14}, {"BOXT", 14}, {"UNITH", 15}, {"UNITT", 15}, {"IGNORE", -1}};
        auto it = F.find(t.out); f = it == F.end() ? -2 : it->second;
        if (f == -2) cx.viol("t2 unknown-class", t.out + at);
        if (f >= 0) part[(size_t)f] += t.std + " ";
        (void)o1; cls += (cls.empty() ? "" : " ") + t.cls; outs += (outs.empty() ? "" : " ") + t.out; cx.count("best_tokens");
    }
    for (size_t k = 0; k < 16; ++k) { std::string x = part[k]; bool has = !x.empty(); if (has) x.pop_back();
        if (has != s.s.has[k] || (has && x != s.s.f[k])) cx.viol(std::string("t2 field-differs ") + FIELD[k], "got " + x + " expected " + (s.s.has[k] ? s.s.f[k] : "NULL") + at); }
    std::string ml = after(v, "matched: "), wantp = s.s.f[16];
    auto comma = ml.rfind(", ");
    if (comma == std::string::npos || ml.substr(0, comma) != wantp) { cx.viol("t2 pattern-differs", ml + " expected " + wantp + at); return; }
    double nr = atof(ml.c_str() + comma + 2);
    bool found = false; double top = -1; for (auto &x : m.v) { if (x.pat == wantp && near(x.score, cost) && x.nrules == nr) found = true; top = std::max(top, x.score); }
    if (!found) cx.viol("t2 best-not-among-matches", ml + " cost " + std::to_string(cost) + at);
    (void)top;
    if (outs != wantp.substr(std::min(wantp.size(), wantp.find("->") == std::string::npos ? wantp.size() : wantp.find("->") + 3)) && wantp.find("->") != std::string::npos) cx.count("pattern_shown_in_pieces");
    // all matches, best first
    size_t e = b; while (e < v.size() && v[e] != DASH2) ++e;
    std::vector<api::MRow> all;
    for (++e; e < v.size(); ++e) {
        auto c2 = v[e].rfind(", "); auto c1 = c2 == std::string::npos || !c2 ? std::string::npos : v[e].rfind(", ", c2 - 1);
        if (c1 == std::string::npos) { cx.viol("t2 line-malformed", v[e] + at); return; }
        all.push_back({v[e].substr(0, c1), atof(v[e].c_str() + c1 + 2), atof(v[e].c_str() + c2 + 2)});
    }
    for (size_t k = 1; k < all.size(); ++k) if (all[k].score > all[k - 1].score) cx.viol("t2 matches-not-in-order", at);
    std::vector<bool> used(m.v.size());
    bool ok = all.size() == m.v.size();
    for (auto &x : all) {
        bool f = false;
        for (size_t k = 0; k < m.v.size() && !f; ++k) if (!used[k] && m.v[k].pat == x.pat && near(x.score, m.v[k].score) && x.nrules == m.v[k].nrules) f = used[k] = true;
        if (!f) ok = false;
        cx.count("matches_shown");
    }
    if (!ok) cx.viol("t2 matches-differ", api::show(m) + at);
}

// tokens of one address and the patterns of the lexicon
void runT45(Ctx &cx, const Dir &d, const Case &c, bool t5) {
    const char *n = t5 ? "t5" : "t4"; std::string N = n;
    put(d.p + "/l.lex", c.g.text);
    Out o = cli(d, n, {d.p + "/l.lex", c.addr});
    std::string at = c.at() + "\noutput:\n" + o.out.substr(0, 6000) + "\nstderr: " + o.err.substr(0, 1000);
    cx.count("runs_" + N);
    auto p = api::parse(c.addr, c.g.text, "en", t5 ? "PUNCT" : "");
    cx.eval(!p.v.empty(), "C32" + N + c.addr + c.g.text);
    if (o.rc != 0) { cx.viol(N + " failed", "exit " + std::to_string(o.rc) + at); return; }
    auto lp = api::lexPtr(c.g.text); if (!lp.p) { cx.viol("lexicon-not-loaded", lp.err.msg + at); return; }
    Lexicon *L = static_cast<Lexicon *>(lp.p);
    std::string re[3] = {"Lexicon regex: '" + L->regex() + "'\n", "Lexicon regexPrefixAtt: '" + L->regexPrefixAtt() + "'\n", "Lexicon regexSuffixAtt: '" + L->regexSuffixAtt() + "'\n"};
    std::ostringstream os; os << *L;
    freeLexiconPtr(lp.p);
    size_t at0 = 0;
    for (auto &x : re) { auto k = o.out.find(x, at0); if (k == std::string::npos) { cx.viol(N + " lexicon-pattern-differs", x + at); return; } at0 = k + x.size(); }
    auto v = lines(o.out.substr(at0)); std::string got, w = rows(p, true); PT t; size_t cnt = 0;
    for (auto &l : v) if (token(l, t)) { got += row(0, t.text, t.cls); ++cnt; cx.count("tokens_shown"); }
    if (got != w) cx.viol(N + " tokens-differ", "got\n" + got + "expected\n" + w + at);
    if (t5) {
        if (after(v, "tokens.size() = ") != std::to_string(cnt)) cx.viol("t5 count-differs", at);
        auto k = o.out.find("LEXICON:\t"), e = o.out.find(re[0]);
        std::string dump = k == std::string::npos || k > e ? "" : o.out.substr(k, e - k);
        auto p2 = api::parse(c.addr, dump, "en", "PUNCT");
        if (api::show(p2) != api::show(p)) cx.viol("t5 dump-differs", api::show(p) + "from the dump\n" + api::show(p2) + at);
        auto a = lines(dump), b = lines(os.str()); if (!a.empty() && !b.empty()) { a.erase(a.begin()); b.erase(b.begin()); }
        while (!a.empty() && a.back().empty()) a.pop_back();
        while (!b.empty() && b.back().empty()) b.pop_back();
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) cx.viol("t5 dump-differs", "expected\n" + os.str() + at);
        cx.count("lexicons_shown");
    }
}

// a compiled file stands for its source
void same(Ctx &cx, const Case &c, const std::string &what, const std::string &f, const std::string &at0) {
    std::string t = gen::rdfile(f), at = at0 + c.at();
    if (t.empty() || t.compare(0, 8, "LEXICON:") == 0) { cx.viol(what + " not-compiled", at); return; }
    auto lp = api::lexPtr(t); if (!lp.p) { cx.viol(what + " not-loadable", lp.err.msg + at); return; }
    freeLexiconPtr(lp.p);
    if (lexMd5(t) != lexMd5(c.g.text)) cx.viol(what + " digest-differs", at);
    std::string a = api::show(api::parse(c.addr, c.g.text, "en", c.flt)), b = api::show(api::parse(c.addr, t, "en", c.flt));
    if (a != b) cx.viol(what + " parse-differs", a + "vs\n" + b + at);
    a = api::show(api::match(c.addr, c.gg.text, c.g.text, "en", c.flt)); b = api::show(api::match(c.addr, c.gg.text, t, "en", c.flt));
    if (a != b) cx.viol(what + " match-differs", a + "vs\n" + b + at);
    a = api::show(api::stdz(c.addr, c.gg.text, c.g.text, "en", c.flt)); b = api::show(api::stdz(c.addr, c.gg.text, t, "en", c.flt));
    if (a != b) cx.viol(what + " standardize-differs", a + "vs\n" + b + at);
    auto d1 = api::lexPtr(t), d2 = api::lexPtr(c.g.text);
    if (d1.p && d2.p) {
        auto dump = [](void *p) { std::ostringstream o; o << *static_cast<Lexicon *>(p); auto v = lines(o.str()); if (!v.empty()) v.erase(v.begin()); std::sort(v.begin(), v.end()); return v; };
        if (dump(d1.p) != dump(d2.p)) cx.viol(what + " entries-differ", at);
    }
    if (d1.p) freeLexiconPtr(d1.p); if (d2.p) freeLexiconPtr(d2.p);
    cx.count("compiled_files_compared");
}
void runCompile(Ctx &cx, const Dir &d, Case &c) {
    Rng &r = cx.rng;
    std::string in = d.p + "/in.lex", out = d.p + "/my out.clex";
    if (r.chance(15)) {        // files that cannot be read, or hold no lexicon
        std::string bad; bool want = false;
        switch (r.below(4)) {
            case 0: in = d.p + "/missing"; break;
            case 1: bad = "LEXICON:\tx\tENG\ten_US\nLEXENTRY:\tA\tA\tNOCLASS\t\n"; put(in, bad); break;
            case 2: bad = "LEXENTRY:\tA\tA\tWORD\t\n" + c.g.text; put(in, bad); break;
            default: put(in, c.g.text); out = d.p + "/no/such/place"; break;
        }
        Out o = cli(d, "compile_lexicon", {in, out});
        cx.count("compile_refused"); cx.eval(true, "C32cr" + bad + std::to_string(cx.idx)); (void)want;
        if (o.rc == 0) cx.viol("compile-lexicon failure-not-reported", "file " + bad + " stdout " + o.out + " stderr " + o.err);
        return;
    }
    put(in, c.g.text);
    if (r.chance(30)) { put(out, std::string(300000, 'x')); cx.count("output_replaced"); }
    Out o = cli(d, "compile_lexicon", {in, out});
    cx.count("compiled"); cx.eval(true, "C32c" + c.g.text);
    std::string at = " exit " + std::to_string(o.rc) + " " + o.out + o.err.substr(0, 500);
    if (o.rc != 0) { cx.viol("compile-lexicon failed", at + c.at()); return; }
    std::string got = gen::rdfile(out);
    if (got.find("xxxxxxxxxxxxxxxx") != std::string::npos && c.g.text.find("xxxxxxxxxxxxxxxx") == std::string::npos) cx.viol("compile-lexicon old-content-left", c.at());
    same(cx, c, "compile-lexicon", out, at);
    if (gen::rdfile(in) != c.g.text) cx.viol("compile-lexicon source-changed", c.at());
    if (r.chance(60)) runT2(cx, d, c, got, c.gg.text, true, "compiled");
}
void runDumpLexicon(Ctx &cx, const Dir &d, const Case &c) {
    put(d.p + "/in.lex", c.g.text);
    Out o = cli(d, "read_dump_lexicon", {d.p + "/in.lex"});
    std::string at = " exit " + std::to_string(o.rc) + " " + o.out + o.err.substr(0, 500);
    cx.count("lexicons_dumped"); cx.eval(true, "C32d" + c.g.text);
    if (o.rc != 0) { cx.viol("read-dump-lexicon failed", at + c.at()); return; }
    same(cx, c, "read-dump-lexicon lex-serial.txt", d.p + "/lex-serial.txt", at);
    same(cx, c, "read-dump-lexicon lex-serial-w.txt", d.p + "/lex-serial-w.txt", at);
    if (gen::rdfile(d.p + "/lex-serial.dat").empty()) cx.viol("read-dump-lexicon nothing-written", at);
}
void runDumpGrammar(Ctx &cx, const Dir &d, const Case &c) {
    Rng &r = cx.rng;
    std::string g = c.gg.text, f = d.p + "/g.gmr";
    if (r.chance(25)) {
        static const std::vector<std::string> bad = {"[ADDRESS]\n@nowhere\n", "", "[a]\nNUMBER -> HOUSE -> 0.5\n", "[ADDRESS]\n@a\n[a]\nNUMBER -> HOUSE STREET -> 0.5\n", "NUMBER -> HOUSE -> 0.5\n", "[ADDRESS]\n@a\n[a]\nNUMBER -> NOCLASS -> 0.5\n"};
        g = r.chance(30) ? gen::mutate(r, g) : r.pick(bad);
    }
    auto gp = api::gmrPtr(g); bool ok = gp.p != nullptr; if (ok) freeGrammarPtr(gp.p);
    put(f, g);
    Out o = cli(d, "read_dump_grammar", {f});
    std::string at = " exit " + std::to_string(o.rc) + "\n" + o.out.substr(0, 3000) + o.err.substr(0, 500) + c.at() + "\ngrammar given: " + g;
    cx.count(ok ? "grammars_dumped" : "grammars_refused"); cx.eval(ok, "C32g" + g);
    if (!ok) { if (o.rc == 0) cx.viol("read-dump-grammar failure-not-reported", gp.err.msg + at); return; }
    if (o.rc != 0) { cx.viol("read-dump-grammar failed", at); return; }
    if (g == c.gg.text) {
        std::string a = api::show(api::match(c.addr, g, c.g.text, "en", c.flt)), b = api::show(api::match(c.addr, o.out, c.g.text, "en", c.flt));
        if (a != b) cx.viol("read-dump-grammar match-differs", a + "vs\n" + b + at);
        a = api::show(api::stdz(c.addr, g, c.g.text, "en", c.flt)); b = api::show(api::stdz(c.addr, o.out, c.g.text, "en", c.flt));
        if (a != b) cx.viol("read-dump-grammar standardize-differs", a + "vs\n" + b + at);
        cx.count("dumps_compared");
    }
}
// ---- regular expressions -------------------------------------------------------
struct Atom { std::vector<std::u32string> alt; char rep; };        // one of these strings, and how often
bool matchRe(const std::vector<Atom> &re, size_t i, const U &s, size_t p) {
    if (i == re.size()) return p == s.size();
    const Atom &a = re[i];
    auto one = [&](size_t q, std::vector<size_t> &nx) { for (auto &x : a.alt) { if (x == U"\1") { if (q < s.size()) nx.push_back(q + 1); } else if (x == U"\2") { if (q < s.size() && isNd(s[q])) nx.push_back(q + 1); } else if (s.compare(q, x.size(), x) == 0) nx.push_back(q + x.size()); } };
    std::set<size_t> seen; std::vector<size_t> cur = {p};
    if (a.rep == '?' || a.rep == '*') if (matchRe(re, i + 1, s, p)) return true;
    for (int k = 0; !cur.empty(); ++k) {
        std::vector<size_t> nx; for (size_t q : cur) one(q, nx);
        cur.clear();
        for (size_t q : nx) { if (matchRe(re, i + 1, s, q)) return true; if (seen.insert(q).second) cur.push_back(q); }
        if (a.rep != '+' && a.rep != '*') break;
    }
    return false;
}
void runRegex(Ctx &cx, const Dir &d) {
    Rng &r = cx.rng;
    static const std::vector<std::string> L = {"A", "B", "C", "a", "é", "ß", "Ж", "1", "2", "٣", "x", "-", "中"};
    std::string in; std::vector<std::string> want; std::vector<std::string> desc;
    int n = r.big(1, 8, 60);
    for (int k = 0; k < n; ++k) {
        std::vector<Atom> re; std::string e, s;
        for (int m = r.range(1, 5); m > 0; --m) {
            Atom a; a.rep = 0; int w = (int)r.below(10); std::string pick;
            if (w < 5) { pick = r.pick(L); a.alt = {dec(pick)}; e += pick; }
            else if (w == 5) { a.alt = {U"\1"}; e += "."; pick = r.pick(L); }
            else if (w == 6) { a.alt = {U"\2"}; e += "\\d"; pick = r.pick(std::vector<std::string>{"1", "7", "٣"}); }
            else { e += "("; for (int q = r.range(1, 4); q > 0; --q) { std::string t; for (int z = r.range(1, 3); z > 0; --z) t += r.pick(L); a.alt.push_back(dec(t)); e += t + (q > 1 ? "|" : ""); pick = t; } e += ")"; }
            int c = (int)r.below(10), times = 1;
            if (c == 0) { a.rep = '?'; e += "?"; times = r.range(0, 1); } else if (c == 1) { a.rep = '*'; e += "*"; times = r.range(0, 3); } else if (c == 2) { a.rep = '+'; e += "+"; times = r.range(1, 3); }
            for (; times > 0; --times) s += pick;
            re.push_back(a);
        }
        if (r.chance(35)) { if (r.chance(50)) s += r.pick(L); else { U u = dec(s); if (!u.empty()) { u.erase(r.below(u.size()), 1); s = enc(u); } } }
        if (s.empty()) s = "A";
        if (e == "quit") continue;
        std::string se = r.chance(20) ? nfd(e) : e, ss = r.chance(20) ? nfd(s) : s;
        in += se + (r.chance(50) ? "\n" : " ") + ss + "\n";
        bool y = matchRe(re, 0, dec(s), 0);
        want.push_back("'" + e + (y ? "' matches '" : "' does not match '") + s + "'"); desc.push_back(e + " on " + s);
        cx.count(y ? "expressions_matching" : "expressions_not_matching");
    }
    in += "quit\n";
    Out o = cli(d, "regex_tester", {}, in);
    cx.count("runs_regex_tester"); cx.eval(!want.empty(), "C32r" + in);
    if (o.rc != 0) { cx.viol("regex-tester failed", "exit " + std::to_string(o.rc) + " input\n" + in + o.err.substr(0, 500)); return; }
    size_t p = 0;
    for (auto &w : want) { auto k = o.out.find('\'', p), e = o.out.find('\n', k); std::string g = k == std::string::npos ? "" : o.out.substr(k, e - k); if (g != w) { cx.viol("regex-tester answer-differs", g + " expected " + w + "\ninput\n" + in); return; } p = e; }
    if (o.out.find('\'', p) != std::string::npos) cx.viol("regex-tester answer-made-up", o.out + "\ninput\n" + in);
}
}

void case_C32(Ctx &cx) {
    Rng &r = cx.rng;
    Dir d(cx);
    int w = (int)r.below(100);
    if (w < 8) { runRegex(cx, d); return; }
    Case c;
    for (int k = 0; k < 8; ++k) { c = Case(); if (mkCase(cx, c, "en")) break; if (k == 7) { cx.count("skipped"); return; } }
    if (cx.idx % 80 == 3 && !gen::samples().empty()) {         // the shipped data
        const auto &s = gen::samples()[(size_t)(cx.idx / 80) % gen::samples().size()];
        if (!s.gmr.empty()) { c.g.text = s.lex; c.gg.text = s.gmr; c.addr = r.pick(gen::sampleAddresses()).substr(0, 40); if (!c.addr.empty()) { cx.count("shipped_data"); } }
        Lex L = loadLexicon(c.g.text); L.index();
        auto v = readings(L, filterToks(tokenize(L, c.addr, "en"), parseTypes("PUNCT,SPACE,EMDASH,STOPWORD")), 64);
        size_t n = 0; for (auto &x : v) { size_t k = 1; for (auto &t : x) k *= std::max<size_t>(1, t.cls.size()); n += k; }
        if (n > 300) c.addr = "12 MAIN ST";
        runT2(cx, d, c, c.g.text, c.gg.text, false, "shipped");
        return;
    }
    // the filter t2 uses by itself must keep the work small as well
    bool wf = r.chance(60);
    if (!wf) {
        auto v = readings(c.g.lex, filterToks(tokenize(c.g.lex, c.addr, "en"), parseTypes("PUNCT,SPACE,EMDASH,STOPWORD")), 64);
        size_t n = 0; for (auto &x : v) { size_t k = 1; for (auto &t : x) k *= std::max<size_t>(1, t.cls.size()); n += k; }
        std::vector<Deriv> dd;
        if (v.empty() || n > 3000 || !derivations(c.gg.g, v, 400, 15000, dd)) wf = true;
    }
    if (w < 50) {
        std::string lt = c.g.text, gt = c.gg.text; std::string how = "source";
        if (r.chance(25)) { auto z = api::compile(lt); if (!z.null) { lt = z.s; how = "compiled"; } }
        else if (r.chance(4)) { lt = "LEXENTRY:\tA\tA\tWORD\t\n" + lt; how = "bad_lexicon"; }
        if (r.chance(8)) { static const std::vector<std::string> bad = {"[ADDRESS]\n@nowhere\n", "[a]\nNUMBER -> HOUSE -> 0.5\n", "[ADDRESS]\n@a\n[a]\nNUMBER -> HOUSE STREET -> 0.5\n"}; gt = r.pick(bad); how = "bad_grammar"; }
        else if (r.chance(10)) { gt += "[unused]\nNUMBER -> HOUSE -> 0.5\n"; }
        runT2(cx, d, c, lt, gt, wf, how);
        if (r.chance(5)) {
            Out o = r.chance(50) ? cli(d, "t2", {d.p + "/missing", d.p + "/g.gmr", c.addr}) : cli(d, "t2", {d.p + "/a lex.txt", d.p + "/missing", c.addr});
            cx.count("missing_files"); if (o.rc == 0) cx.viol("t2 missing-file-not-reported", o.out.substr(0, 500));
        }
    }
    else if (w < 60) runT45(cx, d, c, false);
    else if (w < 72) runT45(cx, d, c, true);
    else if (w < 86) runCompile(cx, d, c);
    else if (w < 90) runDumpLexicon(cx, d, c);
    else runDumpGrammar(cx, d, c);
    if (cx.idx % 60 == 0) cx.sample(c.addr);
}
