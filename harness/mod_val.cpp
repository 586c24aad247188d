// Monitor for the value classes: entries, tokens, meta lines, sections, tokenizer filters.
#include "common.h"
#include "grammar.h"
#include "lexentry.h"
#include "lexicon.h"
#include "metarule.h"
#include "metasection.h"
#include "rulesection.h"
#include "token.h"
#include "tokenizer.h"
#include "utils.h"
#include <sstream>
using namespace ref;

namespace {
std::string ints(const std::set<int> &s) { std::string o; for (int x : s) o += std::to_string(x) + ","; return o; }
template <class T> std::set<int> toInts(const std::set<T> &s) { std::set<int> r; for (auto x : s) r.insert((int)x); return r; }
template <class T> std::set<T> fromInts(const std::set<int> &s) { std::set<T> r; for (int x : s) r.insert((T)x); return r; }
template <class T> std::string print(const T &x) { std::ostringstream o; o << x; return o.str(); }

std::string word(Rng &r) {
    static const std::vector<std::string> W = {"ST", "STREET", "", "A B", "\xc3\x89TOILE", "x,y", "TOKEN", "#", "\xe4\xb8\xad\xe5\xb1\xb1", "LEXENTRY", "N. W.", " ", "a:b", "0", "-1", "-> @x"};
    if (r.chance(70)) return r.pick(W);
    std::string s; for (int i = r.range(1, r.chance(5) ? 400 : 8); i > 0; --i) s += (char)r.range('A', 'Z');
    return s;
}
std::set<int> some(Rng &r, const std::vector<NameCode> &t, int mx) {
    std::set<int> s; int n = r.chance(5) ? (int)t.size() * 2 : r.range(0, mx);
    for (int i = 0; i < n; ++i) s.insert(r.pick(t).code);
    return s;
}
std::string names(Rng &r, const std::set<int> &s, const std::vector<NameCode> &t) {
    std::vector<std::string> v; for (auto &x : t) if (s.count(x.code)) v.push_back(x.name);
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    std::string o; for (auto &x : v) o += (o.empty() ? "" : ",") + x;
    return o;
}

// ---------------------------------------------------------------- entries
void entries(Ctx &cx) {
    Rng &r = cx.rng;
    struct M { std::string w, s; std::set<int> t, a; };
    std::vector<LexEntry> real; std::vector<M> mod;
    std::string log;
    for (int i = r.range(2, 4); i > 0; --i) {
        M m;
        if (!mod.empty() && r.chance(50)) m = r.pick(mod);          // a look-alike
        else { m.w = word(r); m.s = word(r); m.t = some(r, IN, 3); m.a = some(r, ATT, 2); }
        int how = (int)r.below(4);
        std::string tn = names(r, m.t, IN), an = names(r, m.a, ATT);
        LexEntry e;
        if (how == 0) e = LexEntry(m.w, m.s, tn, an);
        else if (how == 1) e = LexEntry("LEXENTRY:\t" + m.w + "\t" + m.s + "\t" + tn + "\t" + an);
        else if (how == 2 && m.w != "LEXENTRY:") e = LexEntry(m.w + "\t" + m.s + "\t" + tn + "\t" + an);
        else { e.word(m.w); e.stdword(m.s); e.type(fromInts<InClass::Type>(m.t)); e.attached(fromInts<InClass::AttachType>(m.a)); }
        log += "make" + std::to_string(how) + " " + m.w + "|" + m.s + "|" + tn + "|" + an + "; ";
        for (int k = r.range(0, 4); k > 0; --k) {
            switch (r.below(6)) {
                case 0: m.w = word(r); e.word(m.w); log += "word; "; break;
                case 1: m.s = word(r); e.stdword(m.s); log += "std; "; break;
                case 2: { int c = r.pick(IN).code; m.t.insert(c); e.type((InClass::Type)c); log += "add class " + std::to_string(c) + "; "; break; }
                case 3: m.t = some(r, IN, 3); e.type(fromInts<InClass::Type>(m.t)); log += "classes; "; break;
                case 4: m.a = some(r, ATT, 3); e.attached(fromInts<InClass::AttachType>(m.a)); log += "attached; "; break;
                default: { int c = r.pick(IN).code; m.w = word(r); m.s = word(r); m.t = {c}; e.set(m.w, m.s, (InClass::Type)c); log += "set; "; }
            }
        }
        real.push_back(e); mod.push_back(m);
    }
    for (size_t i = 0; i < real.size(); ++i) {
        const LexEntry &e = real[i]; const M &m = mod[i];
        std::string at = " entry " + m.w + "|" + m.s + "|" + ints(m.t) + "|" + ints(m.a) + " after " + log;
        if (e.word() != m.w || e.stdword() != m.s || toInts(e.type()) != m.t || toInts(e.attached()) != m.a) cx.viol("entry-content", print(e) + at);
        auto has = [&](const char *n) { for (auto &x : ATT) if (std::string(n) == x.name) return m.a.count(x.code) > 0; return false; };
        bool dp = has("DET_PRE"), ds = has("DET_SUF"), ap = has("ATT_PRE"), as = has("ATT_SUF");
        if (e.isPrefix() != (dp || ap)) cx.viol("entry-is-prefix", at);
        if (e.isSuffix() != (ds || as)) cx.viol("entry-is-suffix", at);
        if (e.isAttached() != (ap || as)) cx.viol("entry-is-attached", at);
        if (e.isDetached() != (m.a.empty() || dp || ds)) cx.viol("entry-is-detached", at);
        if (e.isPrefixAttached() != ap || e.isSuffixAttached() != as) cx.viol("entry-is-attached-side", at);
        for (auto &x : IN) if (e.isInClass((InClass::Type)x.code) != (m.t.count(x.code) > 0)) { cx.viol("entry-in-class", std::string(x.name) + at); break; }
        for (size_t j = 0; j < real.size(); ++j) {
            bool eq = m.w == mod[j].w && m.s == mod[j].s && m.t == mod[j].t && m.a == mod[j].a;
            if ((e == real[j]) != eq || (e != real[j]) == eq) { cx.viol("entry-equality", at); break; }
            if (i != j) cx.count(eq ? "entries_equal" : "entries_different");
        }
        LexEntry back(print(e));
        bool tab = m.w.find_first_of("\t\n") != std::string::npos;
        if (!tab && !(back == e)) cx.viol("entry-print-read", print(e) + " read as " + print(back) + at);
        LexEntry c2(e), as2; as2 = e;
        if (!(c2 == e) || !(as2 == e)) cx.viol("entry-copy", at);
        cx.count("entries");
    }
    cx.eval(true, "E" + log);
    if (cx.idx % 400 == 0) cx.sample(log);
}

// ---------------------------------------------------------------- tokens
struct MT { std::string t, s; std::set<int> in, at; int out; bool lex; };
std::string trimmed(std::string s, int which) {
    if (s.empty()) return s;
    auto bl = [](char c) { return c == ' ' || c == '\f' || c == '\n' || c == '\r' || c == '\t' || c == '\v'; };
    if (which != 2) { size_t i = 0; while (i < s.size() && bl(s[i])) ++i; s = s.substr(i); }
    if (which != 1) while (!s.empty() && bl(s.back())) s.pop_back();
    return s.empty() ? " " : s;
}
void tokens(Ctx &cx) {
    Rng &r = cx.rng;
    static const std::vector<std::string> BL = {" ", "  ", "\t", "\n", "\r\n", "\f", "\v", "", " \t \n"};
    MT m{"", "", {}, {}, 99, false};
    Token t; std::string log;
    if (r.chance(60)) {
        m.t = word(r); m.s = word(r); m.in = some(r, IN, 3); m.at = some(r, ATT, 2); m.out = r.pick(OUT).code;
        std::string l = (m.t == "TOKEN:" || r.chance(60) ? "TOKEN:\t" : "") + m.t + "\t" + m.s + "\t" + names(r, m.in, IN) + "\t" + outName(m.out) + "\t" + names(r, m.at, ATT);
        t = Token(l); log = "read " + l + "; ";
    }
    for (int k = r.range(1, 12); k > 0; --k) {
        switch (r.below(9)) {
            case 0: m.t = r.pick(BL) + word(r) + r.pick(BL); t.text(m.t); log += "text; "; break;
            case 1: m.s = word(r); t.stdtext(m.s); log += "std; "; break;
            case 2: { int c = r.pick(IN).code; m.in.insert(c); t.inclass((InClass::Type)c); log += "add " + std::to_string(c) + "; "; break; }
            case 3: m.in = some(r, IN, 4); t.inclass(fromInts<InClass::Type>(m.in)); log += "classes; "; break;
            case 4: { int c = r.pick(ATT).code; m.at.insert(c); t.attached((InClass::AttachType)c); log += "add att; "; break; }
            case 5: m.at = some(r, ATT, 3); t.attached(fromInts<InClass::AttachType>(m.at)); log += "atts; "; break;
            case 6: m.out = r.pick(OUT).code; t.outclass((OutClass::Type)m.out); log += "out; "; break;
            case 7: m.lex = r.chance(50); t.inLex(m.lex); log += "lex; "; break;
            default: { int w = r.range(0, 3); m.t = trimmed(m.t, w); t.trim(w); log += "trim" + std::to_string(w) + "; "; cx.count("trims"); }
        }
        std::string at = " token " + jstr(m.t) + "|" + m.s + "|" + ints(m.in) + "|" + std::to_string(m.out) + "|" + ints(m.at) + " after " + log;
        if (t.text() != m.t) cx.viol("token-text", jstr(t.text()) + at);
        if (t.stdtext() != m.s || t.inLex() != m.lex || (int)t.outclass() != m.out) cx.viol("token-content", print(t) + at);
        if (toInts(t.inclass()) != m.in || t.inSize() != m.in.size() || t.isInClassEmpty() != m.in.empty()) cx.viol("token-classes", print(t) + at);
        if (toInts(t.attached()) != m.at) cx.viol("token-attached", print(t) + at);
        for (auto &x : IN) if (t.isInClass((InClass::Type)x.code) != (m.in.count(x.code) > 0)) { cx.viol("token-in-class", std::string(x.name) + at); break; }
        std::set<int> q = some(r, IN, 4); bool any = false; for (int c : q) any = any || m.in.count(c);
        if (t.isInClass(fromInts<InClass::Type>(q)) != any) cx.viol("token-in-any-class", ints(q) + at);
        if (parseTypes(t.inclassAsString()) != m.in || parseAtt(t.attachedAsString()) != m.at || outCode(t.outclassAsString()) != m.out) cx.viol("token-names", print(t) + at);
        cx.count("token_steps");
    }
    if (m.t.find_first_of("\t\n\r") == std::string::npos && m.out != 99) {
        Token b(print(t));
        if (b.text() != m.t || b.stdtext() != m.s || toInts(b.inclass()) != m.in || toInts(b.attached()) != m.at || (int)b.outclass() != m.out) cx.viol("token-print-read", print(t) + " read as " + print(b));
        cx.count("tokens_read_back");
    }
    cx.eval(true, "T" + log + m.t);
}

// ---------------------------------------------------------------- sections
std::string nm(Rng &r) { static const std::vector<std::string> N = {"ADDRESS", "a", "b_1", "house", "\xc3\xa9t\xc3\xa9", "X9", "_", "0"}; return r.pick(N); }
void sections(Ctx &cx) {
    Rng &r = cx.rng;
    // meta lines
    std::vector<std::string> names_; std::string line;
    for (int i = r.range(0, r.chance(5) ? 40 : 5); i > 0; --i) { names_.push_back(nm(r)); line += (line.empty() ? (r.chance(10) ? " " : "") : r.chance(80) ? " " : r.chance(50) ? "\t" : "   ") + std::string("@") + names_.back(); }
    MetaRule mr(line);
    std::vector<std::string> want = names_;
    for (int i = r.range(0, 3); i > 0; --i) { SectionPtr p(nm(r)); want.push_back(p.name()); mr.push_back(p); }
    auto got = [](const MetaRule &x) { std::vector<std::string> v; for (auto &p : x.refs()) v.push_back(p.name()); return v; };
    std::string at = " meta line '" + line + "' plus " + std::to_string(want.size() - names_.size());
    if (got(mr) != want || mr.size() != want.size()) cx.viol("meta-refs", print(mr) + at);
    std::vector<std::string> it; for (auto &p : mr) it.push_back(p.name());
    if (it != want) cx.viol("meta-iteration", print(mr) + at);
    std::string pr; for (auto &x : want) pr += (pr.empty() ? "@" : " @") + x;
    if (print(mr) != pr) cx.viol("meta-print", print(mr) + at);
    if (got(MetaRule(print(mr))) != want) cx.viol("meta-print-read", print(mr) + at);
    { MetaRule o; o.refs(mr.refs()); if (got(o) != want) cx.viol("meta-refs-set", at); }
    cx.count("meta_lines");
    // meta sections
    std::string n = nm(r);
    MetaSection ms(n); std::vector<std::vector<std::string>> wm;
    for (int i = r.range(0, r.chance(5) ? 60 : 5); i > 0; --i) {
        std::string l; std::vector<std::string> v; for (int k = r.range(1, 4); k > 0; --k) { v.push_back(nm(r)); l += "@" + v.back() + " "; }
        MetaRule x(l); ms.push_back(x); wm.push_back(v);
    }
    if (r.chance(20)) { n = nm(r); ms.name(n); }
    if (r.chance(20)) { MetaSection o; o.name(n); o.rules(ms.rules()); ms = o; }
    bool ok = ms.name() == n && ms.size() == wm.size() && ms.rules().size() == wm.size();
    for (size_t i = 0; ok && i < wm.size(); ++i) ok = got(ms.rule(i)) == wm[i];
    if (!ok) cx.viol("meta-section", print(ms));
    for (unsigned long i : {(unsigned long)wm.size(), (unsigned long)wm.size() + 1 + r.below(5), ~0ul}) { bool th = false; try { (void)ms.rule(i); } catch (std::exception &) { th = true; } if (!th) cx.viol("meta-section-range", std::to_string(i) + " of " + std::to_string(wm.size())); cx.count("out_of_range"); }
    // rule sections
    RuleSection rs(n); std::vector<GRule> wr;
    for (int i = r.range(0, r.chance(5) ? 60 : 5); i > 0; --i) {
        int k = r.range(0, 5); std::string a, b; static const std::vector<std::string> SC = {"0.5", "1", "0.25", "12.5"};
        for (int q = 0; q < k; ++q) { a += std::string(r.pick(IN).name) + " "; b += std::string(r.pick(OUT).name) + " "; }
        std::string l = a + "-> " + b + "-> " + r.pick(SC);
        GRule g; if (!parseRule(l, g)) continue;
        Rule x(l); rs.push_back(x); wr.push_back(g);
    }
    if (r.chance(20)) { n = nm(r); rs.name(n); }
    if (r.chance(20)) { RuleSection o; o.name(n); o.rules(rs.rules()); rs = o; }
    auto same = [](const Rule &x, const GRule &g) {
        if (x.inSize() != g.in.size() || x.outSize() != g.out.size() || x.score() != g.score) return false;
        for (size_t i = 0; i < g.in.size(); ++i) if ((int)x.in(i) != g.in[i] || (int)x.out(i) != g.out[i]) return false;
        size_t i = 0; for (auto c : x) { if (i >= g.in.size() || (int)c != g.in[i]) return false; ++i; }
        return i == g.in.size() && (int)x.in(g.in.size()) == 99 && (int)x.out(g.out.size()) == 99;
    };
    ok = rs.name() == n && rs.size() == wr.size() && rs.rules().size() == wr.size();
    for (size_t i = 0; ok && i < wr.size(); ++i) ok = same(rs.rule(i), wr[i]);
    size_t i = 0; for (auto &x : rs) { ok = ok && i < wr.size() && same(x, wr[i]); ++i; }
    if (!ok || i != wr.size()) cx.viol("rule-section", print(rs));
    for (unsigned long k : {(unsigned long)wr.size(), (unsigned long)wr.size() + 1 + r.below(5), ~0ul}) { bool th = false; try { (void)rs.rule(k); } catch (std::exception &) { th = true; } if (!th) cx.viol("rule-section-range", std::to_string(k) + " of " + std::to_string(wr.size())); cx.count("out_of_range"); }
    if (!wr.empty()) { Rule x = rs.rule(r.below(wr.size())); x.clear(); if (!x.isEmpty() || x.inSize() || x.outSize() || x.isValid() || x.score() != 0) cx.viol("rule-clear", print(x)); }
    cx.count("sections", 2);
    cx.eval(true, "S" + line + print(ms) + print(rs));
}

// ---------------------------------------------------------------- filters, counters
void filters(Ctx &cx) {
    Rng &r = cx.rng;
    std::string lt = "LEXICON:\tn\tENG\ten\t1\nLEXENTRY:\tST\tSTREET\tTYPE\t\n";
    Lexicon lex(const_cast<char *>(lt.c_str())), lex2("second");
    Tokenizer tk(lex);
    std::set<int> m; std::string log;
    for (int k = r.range(1, 14); k > 0; --k) {
        switch (r.below(8)) {
            case 0: m = some(r, IN, 5); tk.filter(fromInts<InClass::Type>(m)); log += "set " + ints(m) + "; "; break;
            case 1: if (r.chance(40)) { m.clear(); tk.clearFilter(); log += "clear; "; break; } // fall through
            case 2: case 3: case 4: { int c = r.pick(IN).code; m.insert(c); tk.addFilter((InClass::Type)c); log += "add " + std::to_string(c) + "; "; break; }
            default: { int c = !m.empty() && r.chance(70) ? *std::next(m.begin(), (long)r.below(m.size())) : r.pick(IN).code; m.erase(c); tk.removeFilter((InClass::Type)c); log += "remove " + std::to_string(c) + "; "; }
        }
        if (toInts(tk.filter()) != m) cx.viol("filter-content", ints(toInts(tk.filter())) + " expected " + ints(m) + " after " + log);
        std::vector<Token> in; std::vector<std::string> want;
        for (int i = r.range(0, 8); i > 0; --i) {
            std::set<int> c = some(r, IN, 3); Token t; t.text("w" + std::to_string(i)); t.inclass(fromInts<InClass::Type>(c)); in.push_back(t);
            bool hit = false; for (int x : c) hit = hit || m.count(x);
            if (!hit) want.push_back(t.text()); else cx.count("filtered_out");
        }
        auto out = tk.applyFilter(in); std::vector<std::string> g; for (auto &t : out) g.push_back(t.text());
        if (g != want) cx.viol("filter-result", "after " + log);
        cx.count("filter_steps");
    }
    cx.eval(true, "F" + log);
    // counters
    std::map<std::string, unsigned long> cm;
    static const std::vector<std::string> K = {"a", "b", "", "A", "a b"};
    for (auto &k : K) { Utils::clear(k); cm[k] = 0; }
    for (int k = r.range(1, 20); k > 0; --k) {
        const std::string &x = r.pick(K);
        if (r.chance(80)) { Utils::count(x); ++cm[x]; } else { Utils::clear(x); cm[x] = 0; }
        for (auto &c : cm) if (Utils::getCount(c.first) != c.second) { cx.viol("counter", c.first); break; }
        cx.count("counter_steps");
    }
    // lexicon header fields
    static const std::vector<NameCode> LG = {{"ENG", (int)InClass::asLang("ENG")}, {"GER", (int)InClass::asLang("GER")}, {"TUR", (int)InClass::asLang("TUR")}, {"UNKNOWN", -1}};
    const auto &l = r.pick(LG);
    std::string nn = word(r), lo = gen::locale(r);
    lex2.name(nn); if (r.chance(50)) lex2.lang((InClass::Lang)l.code); else lex2.lang(std::string(l.name)); lex2.locale(lo);
    if (lex2.name() != nn || (int)lex2.lang() != l.code || lex2.locale() != lo) cx.viol("lexicon-header", nn + " " + l.name + " " + lo);
}
}

void case_C31(Ctx &cx) {
    for (int k = 0; k < 5; ++k) { entries(cx); tokens(cx); sections(cx); filters(cx); }
}
