// Monitors for matching and standardizing: derivations, choice, fields, ranking.
#include "searchcase.h"
#include <cmath>
using namespace ref;

static void feat(Ctx &cx, Case &c) {
    bool multi = false;
    for (auto &x : c.d) if (x.phrase > 0) multi = true;
    if (multi) cx.count("with_alternate_reading");
    for (auto &s : c.gg.g.sec) if (s.meta) { bool rec = false; for (auto &m : s.metas) for (auto &r : m) if (r == s.name) rec = true; if (rec) { cx.count("recursive_grammars"); break; } }
    std::set<std::string> pats; for (auto &x : c.d) pats.insert(x.pattern());
    if (pats.size() < c.d.size()) cx.count("ambiguous_patterns");
}
static std::string derivKey(const Case &c) { return c.gg.text + "\x01" + api::show(c.rd[0]); }
static api::Match doMatch(Ctx &cx, Case &c) {
    cx.count("matches");
    return api::match(c.addr, c.gg.text, c.g.text, c.loc, c.flt);
}
static bool sentinel(const api::Match &m) { return m.v.size() == 1 && m.v[0].score == -1.0 && m.v[0].nrules == -1.0; }

// ------------------------------------------------------------------ C08
void case_C08(Ctx &cx) {
    for (int k = 0; k < 4; ++k) {
        Case c;
        if (!mkCase(cx, c)) continue;
        auto m = doMatch(cx, c);
        if (m.null) { cx.viol("match-failed", m.err.msg + c.at()); continue; }
        std::multiset<std::string> want, got;
        for (auto &d : c.d) want.insert(d.pattern());
        if (!sentinel(m)) for (auto &r : m.v) got.insert(r.pat);
        if (want != got) {
            std::string d;
            for (auto &x : want) if (want.count(x) != got.count(x)) { d = "derivation '" + x + "' expected " + std::to_string(want.count(x)) + " times, reported " + std::to_string(got.count(x)); break; }
            if (d.empty()) for (auto &x : got) if (!want.count(x)) { d = "reported '" + x + "' is not a derivation"; break; }
            cx.viol(want.size() < got.size() ? "extra-derivations" : "missing-derivations", d + c.at());
        }
        cx.eval(!c.d.empty(), "C08" + derivKey(c));
        feat(cx, c);
        if (c.d.size() > 3) cx.sample(c.addr + " => " + std::to_string(c.d.size()) + " derivations, first " + c.d[0].pattern());
    }
}

// ------------------------------------------------------------------ C09
void case_C09(Ctx &cx) {
    for (int k = 0; k < 4; ++k) {
        Case c;
        if (!mkCase(cx, c)) continue;
        api::StdR s;
        if (cx.rng.chance(40)) {
            LexHandle l(cx, c.g.text); GmrHandle g(cx, c.gg.text);
            if (!l.p || !g.p) continue;
            s = api::stdzP(c.addr, g.p, l.p, c.loc, c.flt);
        } else s = api::stdz(c.addr, c.gg.text, c.g.text, c.loc, c.flt);
        cx.count("standardized");
        cx.eval(c.d.size() > 1, "C09" + derivKey(c));
        if (c.d.empty()) {
            if (!s.null) cx.viol("result-without-derivation", s.s.show() + c.at());
            else if (s.err.set) cx.viol("message-without-derivation", s.err.msg + c.at());
            cx.count("null_results");
            continue;
        }
        if (s.null) { cx.viol("no-result", (s.err.set ? s.err.msg : "") + c.at()); continue; }
        double best = 0;
        for (auto &d : c.d) best = std::max(best, d.mean());
        std::vector<const Deriv *> cand;
        for (auto &d : c.d) if (d.mean() > best - 1e-6 * (1 + best)) cand.push_back(&d);
        auto scores = [](const Deriv *d) { std::vector<float> v; for (auto *r : d->rules) v.push_back(r->score); return v; };
        bool exactTie = true;       // the mean of equal score lists is equal in any arithmetic
        for (auto *d : cand) if (scores(d) != scores(cand[0])) exactTie = false;
        std::vector<const Deriv *> ok = cand;
        if (exactTie) ok.assign(1, cand[0]);
        if (cand.size() > 1) cx.count(exactTie ? "exact_ties" : "near_ties");
        bool same = true; for (auto *d : cand) if (d->pattern() != cand[0]->pattern() || d->phrase != cand[0]->phrase) same = false;
        if (cand.size() > 1 && exactTie && !same) cx.count("ties_between_different_parses");
        if (c.d.size() > cand.size()) cx.count("worse_parses_present");
        std::string pat = s.s.has[16] ? s.s.f[16] : "(null)";
        bool hit = false;
        for (auto *d : ok) if (d->pattern() == pat) hit = true;
        if (!hit) {
            std::string w; double sc = -1;
            for (auto &d : c.d) if (d.pattern() == pat) sc = std::max(sc, d.mean());
            cx.viol(sc < best - 1e-6 ? "not-best" : "tie-break", "expected '" + ok[0]->pattern() + "' mean " + std::to_string(best) + " got '" + pat + "' mean " + std::to_string(sc) + c.at());
            continue;
        }
        // same pattern, but another reading: visible in the fields
        bool fok = false, fother = false;
        for (auto &d : c.d) if (d.pattern() == pat) {
            bool in = false; for (auto *o : ok) if (o == &d) in = true;
            if (assemble(c.g.lex, c.rd[d.phrase], d) == s.s) (in ? fok : fother) = true;
        }
        if (!fok && fother) cx.viol("wrong-reading", s.s.show() + c.at());
        feat(cx, c);
        if (cand.size() > 1 && c.d.size() > cand.size()) cx.sample(c.addr + " => best of " + std::to_string(c.d.size()) + " with " + std::to_string(cand.size()) + " tied: " + pat);
    }
}

// ------------------------------------------------------------------ C10
static bool readPattern(const std::string &p, std::vector<int> &in, std::vector<int> &out) {
    auto a = p.find("->"); if (a == std::string::npos) return false;
    for (auto &w : words(p.substr(0, a))) in.push_back(inCode(w));
    for (auto &w : words(p.substr(a + 2))) out.push_back(outCode(w));
    return in.size() == out.size();
}
void case_C10(Ctx &cx) {
    for (int k = 0; k < 4; ++k) {
        Case c;
        if (!mkCase(cx, c)) continue;
        if (c.d.empty() && cx.rng.chance(80)) continue;
        bool ptr = cx.rng.chance(40);
        api::StdR s;
        if (ptr) {
            LexHandle l(cx, c.g.text); GmrHandle g(cx, c.gg.text);
            if (!l.p || !g.p) continue;
            s = api::stdzP(c.addr, g.p, l.p, c.loc, c.flt);
        } else s = api::stdz(c.addr, c.gg.text, c.g.text, c.loc, c.flt);
        cx.count("standardized");
        if (s.null) { cx.count("null_results"); continue; }
        GRule one; std::vector<int> in;
        if (!s.s.has[16] || !readPattern(s.s.f[16], in, one.out)) { cx.viol("bad-pattern", s.s.show() + c.at()); continue; }
        std::vector<Std> want;
        bool noReading = true;
        for (size_t p = 0; p < c.rd.size(); ++p) {
            if (c.rd[p].size() != in.size()) continue;
            bool fit = true;
            for (size_t i = 0; i < in.size(); ++i) if (!c.rd[p][i].cls.count(in[i])) fit = false;
            if (!fit) continue;
            noReading = false;
            Deriv d; d.phrase = p; d.cls = in; d.rules.push_back(&one);
            want.push_back(assemble(c.g.lex, c.rd[p], d));
        }
        if (noReading) { cx.viol("pattern-fits-no-reading", s.s.show() + c.at()); continue; }
        bool hit = false;
        for (auto &w : want) { w.f[16] = s.s.f[16]; if (w == s.s) hit = true; }
        if (!hit) cx.viol("fields", "expected " + want[0].show() + " got " + s.s.show() + c.at());
        for (int i = 0; i < 16; ++i) if (s.s.has[i]) cx.count(std::string("field_") + FIELD[i]);
        for (int o : one.out) if (o == 98) cx.count("ignored_tokens");
        bool std1 = false;
        for (auto &t : c.rd[0]) if (auto *v = c.g.lex.find(t.text)) for (auto &e : *v) if (!e.std.empty() && e.std != e.word) std1 = true;
        if (std1) cx.count("standard_form_differs");
        cx.eval(in.size() > 0, "C10" + derivKey(c) + c.g.text);
        if (in.size() > 2) cx.sample(c.addr + " => " + s.s.show());
    }
}

// ------------------------------------------------------------------ C11
void case_C11(Ctx &cx) {
    for (int k = 0; k < 4; ++k) {
        Case c;
        if (!mkCase(cx, c)) continue;
        auto m = doMatch(cx, c);
        if (m.null) { cx.viol("match-failed", m.err.msg + c.at()); continue; }
        cx.eval(m.v.size() > 1, "C11" + derivKey(c));
        if (c.d.empty() || sentinel(m)) {
            if (c.d.empty() && !sentinel(m)) {
                std::set<std::string> none; bool real = false;
                for (auto &r : m.v) if (r.score > 0) real = true;
                if (!real) cx.viol("no-match-row", api::show(m) + c.at());     // rows that are no derivation at all are C08's
            }
            if (m.v.size() == 1 && m.v[0].pat.empty()) cx.viol("no-match-row-silent", api::show(m) + c.at());
            cx.count("no_match_rows");
            continue;
        }
        for (size_t i = 1; i < m.v.size(); ++i)
            if (m.v[i - 1].score < m.v[i].score) { cx.viol("not-sorted", api::show(m) + c.at()); break; }
        // per pattern and number of rules, the scores in ascending order
        typedef std::map<std::pair<std::string, double>, std::vector<double>> Rows;
        Rows exp, got;
        std::map<std::string, size_t> nexp, ngot;
        for (auto &d : c.d) { exp[{d.pattern(), (double)d.rules.size()}].push_back(d.mean()); ++nexp[d.pattern()]; }
        for (auto &r : m.v) { got[{r.pat, r.nrules}].push_back(r.score); ++ngot[r.pat]; }
        for (auto &x : got) {
            const std::string &pat = x.first.first;
            if (!nexp.count(pat)) { cx.count("unknown_pattern"); continue; }
            auto it = exp.find(x.first);
            std::vector<double> e = it == exp.end() ? std::vector<double>() : it->second, v = x.second;
            std::sort(e.begin(), e.end()); std::sort(v.begin(), v.end());
            bool ok = true; size_t at = 0;
            if (nexp[pat] == ngot[pat]) {        // the same rows: compare one to one
                if (e.size() != v.size()) ok = false;
                for (size_t i = 0; ok && i < e.size(); ++i) if (std::fabs(e[i] - v[i]) >= 1e-5 + 2e-6 * e[i]) { ok = false; at = i; }
            } else                               // rows missing or too many (C08): each shown one must still be some derivation's
                for (size_t i = 0; ok && i < v.size(); ++i) {
                    bool hit = false; for (double d : e) if (std::fabs(d - v[i]) < 1e-5 + 2e-6 * d) hit = true;
                    if (!hit) { ok = false; at = i; }
                }
            if (!ok) {
                auto &d = *std::find_if(c.d.begin(), c.d.end(), [&](const Deriv &q) { return q.pattern() == pat; });
                cx.viol("score-or-count", "pattern '" + pat + "' score " + std::to_string(v[at]) + " nrules " + std::to_string(x.first.second) + " expected e.g. " +
                        (at < e.size() ? std::to_string(e[at]) : std::to_string(d.mean()) + " with " + std::to_string(d.rules.size()) + " rules") + c.at());
                break;
            }
            cx.count("rows_checked", (long)v.size());
            if (x.first.second > 1) cx.count("rows_with_several_rules", (long)v.size());
        }
        if (m.v.size() > 2) cx.sample(c.addr + " => " + api::show(m).substr(0, 200));
    }
}
