// Monitors for grammars and rules: loader, rule arithmetic, search ownership.
#include "common.h"
#include <fstream>
#include <memory>
#include <unistd.h>
#include "grammar.h"
#include "rule.h"
#include "search.h"
#include "token.h"
#include <algorithm>
#include <cmath>
#include <sstream>
using namespace ref;

struct GCase { gen::GLex g; std::string addr, loc, flt; std::vector<std::vector<Tok>> rd; gen::GGram gg; };
static bool mk(Ctx &cx, GCase &c) {
    gen::LexOpt o; o.maxEntries = 10; o.minEntries = 2; o.special = false; o.unicode = cx.rng.chance(25);
    c.g = gen::lexicon(cx.rng, o);
    c.loc = gen::locale(cx.rng); c.flt = "PUNCT,SPACE,DASH";
    gen::AddrOpt ao; ao.maxItems = 4; ao.spacePct = 85;
    c.addr = gen::address(cx.rng, c.g, ao);
    auto tk = filterToks(tokenize(c.g.lex, c.addr, c.loc), parseTypes(c.flt));
    if (readingCount(tk) > 8) return false;
    c.rd = readings(c.g.lex, tk, 8);
    size_t combos = 0;
    for (auto &r : c.rd) { size_t n = 1; for (auto &t : r) { n *= std::max<size_t>(1, t.cls.size()); if (n > 3000) break; } combos += n; }
    if (combos > 1500) return false;
    c.gg = gen::grammar(cx.rng, c.rd);
    std::vector<Deriv> d;
    return derivations(c.gg.g, c.rd, 300, 10000, d);
}

// ------------------------------------------------------------------ C18
// a long section name, or a long comment
static std::string longName(Ctx &cx, std::string t) {
    std::string by = "ho" + std::string((size_t)cx.rng.big(20, 60, 20000, 60), 'u') + "se";
    if (cx.rng.chance(30)) return t + "\n# " + by + " @nowhere " + by;
    for (size_t p = 0; (p = t.find("house", p)) != std::string::npos; p += by.size()) t.replace(p, 5, by);
    cx.count("long_names"); cx.maxof("characters_of_a_name", (long)by.size());
    return t;
}
// the same grammar written differently
static std::string rewrite(Ctx &cx, const std::string &t, int how) {
    std::vector<std::string> l; std::string cur;
    for (char c : t) if (c == '\n') { l.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) l.push_back(cur);
    static const std::vector<std::string> CM = {"# comment", "   # [ADDRESS]", "#", "# @nowhere", "\t# A -> B -> 1", "# \xc3\xa9t\xc3\xa9"};
    static const std::vector<std::string> BL = {"", " ", "\t", "  \t "};
    std::string o;
    if (how & 1) o += "\xEF\xBB\xBF";
    if (how & 8) {      // reorder the sections
        std::vector<std::vector<std::string>> s(1);
        for (auto &x : l) { if (!x.empty() && x[0] == '[') s.push_back({}); s.back().push_back(x); }
        for (size_t i = s.size(); i > 2; --i) std::swap(s[i - 1], s[1 + cx.rng.below(i - 1)]);
        l.clear(); for (auto &x : s) for (auto &y : x) l.push_back(y);
    }
    for (auto &x : l) {
        if ((how & 4) && cx.rng.chance(25)) o += cx.rng.pick(cx.rng.chance(50) ? CM : BL) + ((how & 2) ? "\r\n" : "\n");
        std::string y = x;
        if ((how & 16) && !y.empty() && y[0] != '#') {
            if (cx.rng.chance(40)) y = std::string((size_t)cx.rng.range(1, 3), cx.rng.chance(70) ? ' ' : '\t') + y;
            if (cx.rng.chance(40)) y += std::string((size_t)cx.rng.range(1, 3), cx.rng.chance(70) ? ' ' : '\t');
        }
        o += y + ((how & 2) ? "\r\n" : "\n");
    }
    if ((how & 32) && !o.empty() && o.back() == '\n') o.pop_back();       // no newline at the end
    return cx.rng.chance(2) ? longName(cx, o) : o;
}
static std::string soup(Ctx &cx) {
    static const std::vector<std::string> NM = {"ADDRESS", "a", "b", "house", "x_1", "\xc3\xa9", "with space", "a"};
    static const std::vector<std::string> IN2 = {"NUMBER", "WORD", "TYPE", "CITY", "NOSUCH", "STOP"};
    static const std::vector<std::string> OU = {"HOUSE", "STREET", "SUFTYP", "CITY", "NOWHERE", "STOP"};
    static const std::vector<std::string> SC = {"0.5", "1", "0", "-0.5", "abc", "0.25 0", "0.5 -> 0.1", "", "1e-3", ".5", "nan", "0.5 nan", "-inf", "1e-60"};
    std::string t;
    bool vast = cx.rng.below(400) == 0;
    int n = cx.rng.big(0, 5, vast ? 900 : 90, vast ? 60 : 3);
    if (cx.rng.chance(8)) t += "WORD -> STREET -> 0.5\n";
    bool haveA = false;
    for (int i = 0; i < n; ++i) {
        std::string nm = (i == n - 1 && !haveA && cx.rng.chance(85)) ? "ADDRESS" : i >= 5 && cx.rng.chance(95) ? "n" + std::to_string(i) : cx.rng.chance(70) ? NM[1 + (size_t)i % 5] : cx.rng.pick(NM);
        if (nm == "ADDRESS") haveA = true;
        t += "[" + nm + "]\n";
        bool meta = nm == "ADDRESS" ? cx.rng.chance(70) : cx.rng.chance(35);
        for (int k = cx.rng.big(cx.rng.chance(10) ? 0 : 1, 3, n > 8 ? 4 : vast ? 2500 : 60, vast ? 70 : 2); k > 0; --k) {
            if (cx.rng.chance(10)) t += cx.rng.chance(50) ? "# c\n" : "\n";
            bool m = cx.rng.chance(3) ? !meta : meta;
            if (m) {
                int q = cx.rng.big(1, 3, 30); std::string l;
                for (int z = 0; z < q; ++z) l += std::string(z ? " " : "") + "@" + (n > 6 && cx.rng.chance(85) ? "n" + std::to_string(cx.rng.range(std::min(std::max(5, i), n - 1), n - 1)) : cx.rng.chance(92) ? NM[1 + cx.rng.below((size_t)std::min(5, std::max(1, n - 1)))] : cx.rng.pick(NM));
                if (cx.rng.chance(4)) l += " tail";
                t += l + "\n";
            } else {
                int a = cx.rng.big(cx.rng.chance(10) ? 0 : 1, 3, 50), b = cx.rng.chance(92) ? a : cx.rng.chance(50) ? std::max(0, a + cx.rng.range(-1, 1)) : cx.rng.range(0, 3);
                std::string l;
                for (int z = 0; z < a; ++z) l += cx.rng.pick(IN2) + " ";
                l += "-> ";
                for (int z = 0; z < b; ++z) l += cx.rng.pick(OU) + " ";
                l += "-> " + (cx.rng.chance(88) ? SC[cx.rng.chance(50) ? 0 : 1] : cx.rng.pick(SC));
                if (cx.rng.chance(3)) l = cx.rng.chance(50) ? "WORD STREET 0.5" : "WORD -> STREET";
                t += l + "\n";
            }
        }
    }
    cx.maxof("sections", n); cx.maxof("lines", (long)std::count(t.begin(), t.end(), '\n'));
    return cx.rng.chance(1) ? longName(cx, t) : t;
}
static void gmrRoutes(Ctx &cx, const std::string &t, Grammar *want) {
    const char *sd = getenv("ASV_SCRATCH");
    std::string f = std::string(sd && *sd ? sd : "/tmp") + "/gmr-" + std::to_string(getpid()) + ".gmr";
    { std::ofstream o(f, std::ios::binary); o << t; }
    static const char *NAME[] = {"file", "stream", "text", "no-file"};
    auto show = [](Grammar &g) { std::ostringstream o; o << (int)g.status() << "|" << g.issues() << "|" << g.getMd5() << "|" << g; return o.str(); };
    std::string w = want ? show(*want) : "";
    for (int how = 0; how < 4; ++how) {
        std::string d, why;
        try {
            std::istringstream is(t);
            std::unique_ptr<Grammar> g(how == 0 ? new Grammar(f) : how == 1 ? new Grammar(is) : how == 2 ? new Grammar(t.c_str()) : new Grammar(f + ".missing"));
            d = show(*g);
        } catch (std::exception &e) { why = e.what(); if (why.empty()) why = "?"; }
        cx.count(std::string("loaded_by_") + NAME[how]);
        if (how == 3) { if (why.empty()) cx.viol("missing-file-accepted", d); }
        else if (why.empty() != (want != nullptr) || d != w) cx.viol(std::string("loads-differently-by-") + NAME[how], (why.empty() ? d : why) + "\nvs\n" + w + " text=" + t);
    }
    unlink(f.c_str());
}
void case_C18(Ctx &cx) {
    if (cx.idx % 2) {
        for (int k = 0; k < 8; ++k) {
            std::string t = soup(cx), why;
            bool ok = true, warn = false;
            try { warn = loadGrammar(t).warn; } catch (LoadError &e) { ok = false; why = e.what(); }
            // a meta line with anything else on it has no defined meaning
            if (t.find(" tail") != std::string::npos || t.find("@with space") != std::string::npos) { cx.count("undefined_lines"); continue; }
            auto r = api::gmrPtr(t);
            if (ok && !r.p) cx.viol("valid-grammar-rejected", r.err.msg + " text=" + t);
            if (!ok && r.p) cx.viol("invalid-grammar-accepted", why + " text=" + t);
            if (!r.p && (!r.err.set || r.err.msg.empty())) cx.viol("rejected-without-message", why + " text=" + t);
            if (r.p && ok) {
                auto st = static_cast<Grammar *>(r.p)->status();
                if ((st == Grammar::CHECK_WARN) != warn || st == Grammar::CHECK_FATAL) cx.viol("warning-status", std::to_string((int)st) + " text=" + t);
            }
            if (cx.rng.chance(15)) gmrRoutes(cx, t, static_cast<Grammar *>(r.p));
            if (r.p) freeGrammarPtr(r.p);
            cx.count(ok ? (warn ? "accepted_with_warning" : "accepted") : "rejected_" + why);
            // the text API gives the same verdict
            if (cx.rng.chance(20)) {
                auto m = api::match("1 A", t, "LEXICON:\tx\tENG\ten\t0\n", "en", "SPACE");
                if (m.null == ok) cx.viol("text-api-verdict", why + " text=" + t);
            }
            cx.eval(!t.empty(), "C18" + t);
        }
        return;
    }
    GCase c;
    if (!mk(cx, c)) { cx.count("skipped"); return; }
    auto base = api::match(c.addr, c.gg.text, c.g.text, c.loc, c.flt);
    auto bstd = api::stdz(c.addr, c.gg.text, c.g.text, c.loc, c.flt);
    if (base.null) { cx.viol("valid-grammar-rejected", base.err.msg + " text=" + c.gg.text); return; }
    std::string at = " grammar=" + c.gg.text + " address=" + c.addr + " lexicon=" + c.g.text;
    for (int k = 0; k < 5; ++k) {
        int how = k == 0 ? 2 : k == 1 ? 1 : k == 2 ? 8 : (int)cx.rng.range(1, 63);
        std::string t = rewrite(cx, c.gg.text, how);
        auto m = api::match(c.addr, t, c.g.text, c.loc, c.flt);
        std::string tag = std::string(how & 1 ? "bom " : "") + (how & 2 ? "crlf " : "") + (how & 4 ? "comments " : "") + (how & 8 ? "order " : "") + (how & 16 ? "blanks " : "") + (how & 32 ? "no-final-newline" : "");
        if (m.null) cx.viol("variant-rejected", tag + m.err.msg + " text=" + t);
        else if (api::show(m) != api::show(base)) cx.viol("variant-differs", tag + "\n" + api::show(base) + "vs\n" + api::show(m) + " text=" + t + at);
        else {
            auto z = api::stdz(c.addr, t, c.g.text, c.loc, c.flt);
            if (api::show(z) != api::show(bstd)) cx.viol("variant-standardizes-differently", tag + api::show(z) + " text=" + t + at);
        }
        cx.count("variants"); if (how & 1) cx.count("variants_bom"); if (how & 2) cx.count("variants_crlf"); if (how & 8) cx.count("variants_reordered");
        cx.eval(true, "C18v" + t);
    }
    auto h = api::gmrPtr(c.gg.text);
    if (!h.p) { cx.viol("valid-grammar-rejected", h.err.msg + at); return; }
    if (cx.rng.chance(30)) gmrRoutes(cx, c.gg.text, static_cast<Grammar *>(h.p));
    std::ostringstream os; os << *static_cast<Grammar *>(h.p);
    freeGrammarPtr(h.p);
    std::string dump = os.str();
    auto m = api::match(c.addr, dump, c.g.text, c.loc, c.flt);
    if (m.null) cx.viol("dump-rejected", m.err.msg + " dump=" + dump);
    else if (api::show(m) != api::show(base)) cx.viol("dump-differs", "dump=" + dump + at);
    auto z = api::stdz(c.addr, dump, c.g.text, c.loc, c.flt);
    if (!m.null && api::show(z) != api::show(bstd)) cx.viol("dump-standardizes-differently", "dump=" + dump + at);
    cx.count("dumps"); cx.eval(true, "C18d" + dump);
    // the shipped grammars load
    if (cx.idx % 50 == 0 && !gen::samples().empty()) {
        const auto &s = gen::samples()[(size_t)(cx.idx / 50) % gen::samples().size()];
        if (!s.gmr.empty()) {
            auto r = api::gmrPtr(s.gmr);
            if (!r.p) cx.viol("shipped-grammar-rejected", s.country + r.err.msg);
            else {
                std::ostringstream o2; o2 << *static_cast<Grammar *>(r.p); freeGrammarPtr(r.p);
                auto r2 = api::gmrPtr(o2.str());
                if (!r2.p) cx.viol("shipped-grammar-dump-rejected", s.country + r2.err.msg);
                else freeGrammarPtr(r2.p);
            }
            cx.count("shipped_grammars");
        }
    }
    if (cx.idx % 60 == 0) cx.sample(dump.substr(0, 150));
}

// ------------------------------------------------------------------ C26
static std::string ruleKey(const Rule &r) {
    std::string s;
    for (auto c : r.in()) s += std::to_string((int)c) + ",";
    s += "|";
    for (auto c : r.out()) s += std::to_string((int)c) + ",";
    return s;
}
static bool closeTo(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)); }
static std::string ruleLine(Ctx &cx, bool valid, GRule &m) {
    static const std::vector<std::string> SC = {"0.5", "0.125", "1", ".75", "1e-2", "0.333333", "2.5", "100", "0.9375", "7e-5"};
    int n = cx.rng.big(cx.rng.chance(10) ? 0 : 1, 7, 90, 6), b = n;
    if (!valid && cx.rng.chance(60)) b = cx.rng.chance(50) ? std::max(0, n + cx.rng.range(-1, 1)) : cx.rng.range(0, 8);
    std::string l, sep = cx.rng.chance(15) ? "  " : " ";
    if (cx.rng.chance(10)) l += " \t";
    for (int i = 0; i < n; ++i) l += (cx.rng.chance(4) ? std::string("NOSUCH") : std::string(IN[cx.rng.below(IN.size())].name)) + sep;
    l += "->" + sep;
    for (int i = 0; i < b; ++i) l += (cx.rng.chance(4) ? std::string("NOSUCH") : std::string(OUT[cx.rng.below(OUT.size())].name)) + sep;
    l += "->" + sep;
    if (!valid && cx.rng.chance(40)) l += cx.rng.pick(std::vector<std::string>{"0", "-1", "x", "-0.001", "0.0", "nan", "-nan", "NAN", "nan(7)", "-inf", "-0", "1e-60"});
    else l += cx.rng.pick(SC);
    if (cx.rng.chance(10)) l += " ";
    m = GRule();
    parseRule(l, m);
    return l;
}
void case_C26(Ctx &cx) {
    std::vector<Rule> pool; std::vector<GRule> mod;
    for (int k = 0; k < 12; ++k) {
        GRule m; bool want;
        std::string l = ruleLine(cx, cx.rng.chance(75), m);
        want = parseRule(l, m);
        bool got = true; Rule r;
        try { r = Rule(l); } catch (std::exception &e) { got = false; if (!*e.what()) cx.viol("rejected-without-message", l); }
        if (want != got) { cx.viol(want ? "valid-rule-rejected" : "invalid-rule-accepted", l); continue; }
        cx.eval(true, "C26" + l); cx.count(want ? "accepted" : "rejected");
        if (!want) continue;
        bool same = r.in().size() == m.in.size() && r.out().size() == m.out.size() && closeTo(r.score(), m.score) && r.inSize() == m.in.size() && r.outSize() == m.out.size() && r.isValid() && !r.isEmpty();
        for (size_t i = 0; same && i < m.in.size(); ++i) same = (int)r.in()[i] == m.in[i] && (int)r.in(i) == m.in[i] && (int)r.out()[i] == m.out[i] && (int)r.out(i) == m.out[i];
        if (!same) { cx.viol("rule-content", l + " read as " + ruleKey(r) + " " + std::to_string(r.score())); continue; }
        if ((int)r.in(m.in.size()) != 99 || (int)r.out(m.out.size()) != 99) cx.viol("out-of-range-class", l);
        std::ostringstream os; os << r;
        try {
            Rule r2(os.str());
            if (ruleKey(r2) != ruleKey(r) || !closeTo(r2.score(), r.score())) cx.viol("print-read", l + " printed " + os.str());
        } catch (std::exception &e) { cx.viol("print-read", l + " printed " + os.str() + ": " + e.what()); }
        pool.push_back(r); mod.push_back(m);
    }
    // prefix match
    for (size_t k = 0; k < pool.size(); ++k) {
        for (int j = 0; j < 4; ++j) {
            std::vector<InClass::Type> p; std::vector<int> pi;
            size_t keep = cx.rng.chance(70) ? mod[k].in.size() : cx.rng.below(mod[k].in.size() + 1);
            for (size_t i = 0; i < keep; ++i) pi.push_back(mod[k].in[i]);
            if (cx.rng.chance(40) && !pi.empty()) pi[cx.rng.chance(40) ? pi.size() - 1 : cx.rng.below(pi.size())] = IN[cx.rng.below(IN.size())].code;
            for (int i = cx.rng.big(0, 3, 60); i > 0; --i) pi.push_back(IN[cx.rng.below(IN.size())].code);
            bool want = pi.size() >= mod[k].in.size() && std::equal(mod[k].in.begin(), mod[k].in.end(), pi.begin());
            for (int x : pi) p.push_back((InClass::Type)x);
            if (pool[k].match(p) != want) cx.viol("prefix-match", ruleKey(pool[k]));
            cx.count(want ? "prefix_matches" : "prefix_mismatches");
        }
    }
    for (size_t a = 0; a < pool.size(); ++a) {
        size_t b = cx.rng.below(pool.size());
        std::string ka = ruleKey(pool[a]), kb = ruleKey(pool[b]);
        Rule c = pool[a] + pool[b], d = pool[a].concat(pool[b]);
        std::vector<int> in = mod[a].in, out = mod[a].out, gi, go;
        in.insert(in.end(), mod[b].in.begin(), mod[b].in.end()); out.insert(out.end(), mod[b].out.begin(), mod[b].out.end());
        for (auto x : c.in()) gi.push_back((int)x);
        for (auto x : c.out()) go.push_back((int)x);
        double sc = ((double)mod[a].score + (double)mod[b].score) / 2;
        if (gi != in || go != out || !closeTo(c.score(), sc)) cx.viol("concat", ka + " + " + kb + " = " + ruleKey(c) + " " + std::to_string(c.score()) + " expected " + std::to_string(sc));
        if (ruleKey(d) != ruleKey(c)) cx.viol("concat-operator", ka + kb);
        if (ruleKey(pool[a]) != ka || ruleKey(pool[b]) != kb) cx.viol("concat-changed-operand", ka + kb);
        cx.count("concatenations");
    }
    // class choices of a phrase
    for (int k = 0; k < 3; ++k) {
        std::vector<Token> toks; std::vector<std::vector<int>> ch; size_t n = 1;
        const bool vast = cx.rng.below(500) == 0;
        const size_t most = vast ? 20000 : 500;
        int len = vast ? cx.rng.range(6, 13) : cx.rng.big(0, 5, 60);
        for (int i = len; i > 0; --i) {
            std::set<int> s; int q = vast ? cx.rng.range(2, 7) : cx.rng.chance(len > 5 ? 80 : 40) ? 1 : std::min((int)IN.size(), cx.rng.big(1, 4, (int)IN.size()));
            if (n * (size_t)q > most) q = 1;
            while ((int)s.size() < q) s.insert(IN[cx.rng.below(IN.size())].code);
            Token t("W");
            for (int x : s) t.inclass((InClass::Type)x);
            toks.push_back(t); ch.push_back(std::vector<int>(s.begin(), s.end())); n *= s.size();
        }
        if (n > most) continue;
        std::vector<std::vector<int>> want;
        std::vector<size_t> ix(ch.size(), 0);
        for (;;) {
            std::vector<int> one; for (size_t i = 0; i < ch.size(); ++i) one.push_back(ch[i][ix[i]]);
            want.push_back(one);
            size_t i = ch.size();
            while (i > 0 && ++ix[i - 1] == ch[i - 1].size()) { ix[i - 1] = 0; --i; }
            if (i == 0) break;
        }
        auto e = Token::enumerate(toks);
        std::vector<std::vector<int>> got;
        for (auto &v : e) { std::vector<int> o; for (auto x : v) o.push_back((int)x); got.push_back(o); }
        if (got != want) cx.viol("enumerate", std::to_string(want.size()) + " combinations expected, got " + std::to_string(got.size()));
        cx.count("combinations", (long)want.size()); cx.maxof("combinations_of_a_phrase", (long)want.size()); cx.eval(want.size() > 1, "C26e" + std::to_string(cx.idx) + "." + std::to_string(k));
    }
    if (!pool.empty() && cx.idx % 90 == 0) { std::ostringstream os; os << pool[0]; cx.sample(os.str()); }
}

// ------------------------------------------------------------------ C27
static std::string showPaths(const SearchPaths &v) {
    std::string s;
    for (auto &p : v) { for (auto &r : p.rules) { char b[32]; snprintf(b, sizeof b, " %.7g", (double)r.score()); s += ruleKey(r) + b + " ; "; } s += "\n"; }
    return s;
}
static std::vector<Token> sutPhrase(const std::vector<Tok> &v) {
    std::vector<Token> r;
    for (auto &t : v) { Token k(t.text); for (int c : t.cls) k.inclass((InClass::Type)c); r.push_back(k); }
    return r;
}
static std::string runSearch(Search &s, const std::vector<std::vector<Token>> &ph) {
    std::string o;
    for (auto &p : ph) o += showPaths(s.search(p)) + "--\n";
    auto all = s.searchAndReclassAll(ph);
    for (auto &m : all) { char b[80]; snprintf(b, sizeof b, " %.7g %.7g\n", m.score, m.nrules); o += m.matched + b; }
    float sc = 0, nr = 0; std::string mt;
    auto best = s.searchAndReclassBest(ph, sc, mt, nr);
    char b[80]; snprintf(b, sizeof b, " %.7g %.7g\n", (double)sc, (double)nr); o += "best " + mt + b;
    for (auto &t : best) o += t.text() + "/" + t.inclassAsString() + "/" + t.outclassAsString() + " ";
    return o;
}
void case_C27(Ctx &cx) {
    GCase c, c2;
    if (!mk(cx, c) || !mk(cx, c2)) { cx.count("skipped"); return; }
    std::vector<std::vector<Token>> ph;
    for (auto &r : c.rd) { for (auto &t : r) if (t.cls.empty()) return; ph.push_back(sutPhrase(r)); }
    std::string want;
    { std::istringstream is(c.gg.text); Grammar g(is); Search s(g); want = runSearch(s, ph); }
    std::string at = " grammar=" + c.gg.text + " address=" + c.addr;
    for (int how = 0; how < 5; ++how) {
        std::istringstream is(c.gg.text);
        Grammar *g = new Grammar(is);
        std::string got, got2;
        const char *name = "";
        std::vector<Grammar> *vec = nullptr;
        if (how == 4) { vec = new std::vector<Grammar>(); vec->push_back(*g); }
        Search s(how == 4 ? vec->back() : *g);
        if (how < 4) got = runSearch(s, ph);
        switch (how) {
            case 0: name = "destroyed"; delete g; g = nullptr; break;
            case 1: { name = "assigned another grammar"; std::istringstream i2(c2.gg.text); Grammar o(i2); *g = o; break; }
            case 2: { name = "assigned another grammar, then destroyed"; std::istringstream i2(c2.gg.text); Grammar o(i2); *g = o; delete g; g = nullptr; break; }
            case 3: { name = "moved from"; Grammar o(std::move(*g)); (void)o.status(); break; }
            case 4: { name = "relocated"; for (int i = 0; i < 9; ++i) vec->push_back(*g); delete g; g = nullptr; delete vec; vec = nullptr; break; }
        }
        got2 = runSearch(s, ph);
        if (how < 4 && got != want) cx.viol("search-differs", at);
        if (got2 != want) cx.viol("search-changed", std::string("grammar was ") + name + at + "\n" + want + "vs\n" + got2);
        delete g; delete vec;
        cx.count(std::string("grammar_") + name);
    }
    // a copy, an assigned one and a moved one are the same grammar, whatever its state
    {
        auto show = [](Grammar &g) { std::ostringstream o; o << (int)g.status() << "|" << g.issues() << "|" << g.getMd5() << "|" << g; return o.str(); };
        std::vector<std::string> texts = {c.gg.text, c2.gg.text, c.gg.text + "\n[unused_x]\nNUMBER -> HOUSE -> 0.5\n", "[ADDRESS]\n@nowhere\n[a]\nWORD -> CITY -> 0.4\n", "[a]\nWORD -> CITY -> 0.4\n"};
        for (size_t i = 0; i < texts.size(); ++i) for (size_t j = 0; j < texts.size(); ++j) {
            if (i == j || !cx.rng.chance(40)) continue;
            std::unique_ptr<Grammar> a, b;
            try { std::istringstream x(texts[i]), y(texts[j]); a.reset(new Grammar(x)); b.reset(new Grammar(y)); } catch (std::exception &) { continue; }
            std::string wa = show(*a), wb = show(*b), st = std::to_string((int)a->status()) + " over " + std::to_string((int)b->status());
            Grammar k(*a);
            if (show(k) != wa) cx.viol("copy-differs", st + at + "\n" + wa + "\nvs\n" + show(k));
            *b = *a;
            if (show(*b) != wa || show(*a) != wa) cx.viol("assigned-differs", st + at + "\n" + wa + "\nvs\n" + show(*b));
            *b = *b;
            if (show(*b) != wa) cx.viol("self-assigned-differs", st + at);
            Grammar m(std::move(*b));
            if (show(m) != wa) cx.viol("moved-differs", st + at + "\n" + wa + "\nvs\n" + show(m));
            { std::istringstream y(texts[j]); Grammar n(y); n = std::move(m); if (show(n) != wa) cx.viol("move-assigned-differs", st + at); a.reset(); if (show(n) != wa || show(k) != wa) cx.viol("copy-depends-on-original", st + at); }
            cx.count("copies_compared"); if (wa[0] != wb[0]) cx.count("copies_over_another_status");
        }
    }
    // the caller's grammar still works after searches over it were destroyed
    {
        std::istringstream is(c.gg.text); Grammar g(is);
        { Search s1(g); (void)runSearch(s1, ph); }
        Search s2(g);
        if (runSearch(s2, ph) != want) cx.viol("grammar-changed-by-search", at);
    }
    cx.eval(want.find('|') != std::string::npos, "C27" + c.gg.text);
    if (cx.idx % 80 == 0) cx.sample(want.substr(0, 160));
}
