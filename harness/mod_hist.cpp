// C13: results do not depend on what was called before.  Each request is also
// answered by a pristine process that has made no other call.
#include "common.h"
#include "lexicon.h"
#include "grammar.h"
#include <sstream>
#include <sys/wait.h>
using namespace ref;

namespace {
struct Req { std::string op, addr, lex, gmr, loc, flt; };

std::string answer(const Req &q) {
    if (q.op == "parse") return api::show(api::parse(q.addr, q.lex, q.loc, q.flt));
    if (q.op == "match") return api::show(api::match(q.addr, q.gmr, q.lex, q.loc, q.flt));
    if (q.op == "stdz") return api::show(api::stdz(q.addr, q.gmr, q.lex, q.loc, q.flt));
    if (q.op == "compile") { auto c = api::compile(q.lex); return c.null ? "NULL err=" + c.err.msg : c.s; }
    if (q.op == "md5") return api::md5(q.lex);
    if (q.op == "lexptr") {
        auto p = api::lexPtr(q.lex); if (!p.p) return "NULL err=" + p.err.msg;
        std::string s = api::takeStr(getLexiconMd5(p.p)); std::ostringstream o; o << *static_cast<Lexicon *>(p.p); freeLexiconPtr(p.p);
        return s + "\n" + o.str();
    }
    if (q.op == "gmrptr") {
        auto p = api::gmrPtr(q.gmr); if (!p.p) return "NULL err=" + p.err.msg;
        std::string s = api::takeStr(getGrammarMd5(p.p)); std::ostringstream o; o << *static_cast<Grammar *>(p.p); freeGrammarPtr(p.p);
        return s + "\n" + o.str();
    }
    return "?";
}
int zin = -1, zout = -1;       // to and from the pristine process
bool wr(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; } return true; }
bool rd(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; } return true; }
bool wrs(int fd, const std::string &s) { uint64_t n = s.size(); return wr(fd, &n, 8) && wr(fd, s.data(), n); }
bool rds(int fd, std::string &s) { uint64_t n; if (!rd(fd, &n, 8)) return false; if (n > (1u << 28)) return false; s.resize(n); return rd(fd, &s[0], n); }

void serve(int in, int out) {
    for (;;) {
        Req q;
        if (!rds(in, q.op) || !rds(in, q.addr) || !rds(in, q.lex) || !rds(in, q.gmr) || !rds(in, q.loc) || !rds(in, q.flt)) _exit(0);
        pid_t p = fork();
        if (p == 0) { alarm(100); bool ok = wrs(out, answer(q)); _exit(ok ? 0 : 1); }
        int st = 0; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { uint64_t bad = ~0ull; wr(out, &bad, 8); }
    }
}
bool pristine(const Req &q, std::string &res) {
    if (!wrs(zin, q.op) || !wrs(zin, q.addr) || !wrs(zin, q.lex) || !wrs(zin, q.gmr) || !wrs(zin, q.loc) || !wrs(zin, q.flt)) return false;
    return rds(zout, res);
}
std::string lexState(void *p) { std::ostringstream o; std::string m = api::takeStr(getLexiconMd5(p)); o << m << "\n" << *static_cast<Lexicon *>(p); return o.str(); }
std::string gmrState(void *p) { std::ostringstream o; std::string m = api::takeStr(getGrammarMd5(p)); o << m << "\n" << *static_cast<Grammar *>(p); return o.str(); }
struct Live { void *p; size_t which; std::string state; };
}

void init_C13(Ctx &) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { perror("pipe"); exit(97); }
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(97); }
    if (p == 0) { close(a[1]); close(b[0]); serve(a[0], b[1]); }
    close(a[0]); close(b[1]);
    zin = a[1]; zout = b[0];
}

void case_C13(Ctx &cx) {
    Rng &r = cx.rng;
    // a small pool of arguments, so that calls meet each other's leftovers
    std::vector<std::string> lex, gmr, addr, loc, flt;
    std::vector<gen::GLex> gl;
    int nl = r.big(2, 4, 8);
    for (int i = 0; i < nl; ++i) {
        gen::LexOpt o; o.maxEntries = 10; o.minEntries = 1;
        if (i && r.chance(50)) {        // the same words with other classes, standards or locale
            gen::GLex g = gl[0];
            auto e = g.entries;
            if (r.chance(40)) { e = gen::sameLengthLexicon(r, e); cx.count("same_length_lexicons"); }
            else for (auto &x : e) { if (r.chance(50)) x.types = {(int)r.range(0, 9)}; if (r.chance(40)) x.std = "S" + std::to_string(r.below(9)); if (r.chance(30)) x.att.clear(); }
            g.text = gen::lexText(g, e);
            gl.push_back(g);
        } else gl.push_back(gen::lexicon(r, o));
        std::string t = gl.back().text;
        if (r.chance(25)) { auto c = api::compile(t); if (!c.null) t = c.s; }
        lex.push_back(t);
    }
    for (auto &g : gl) g.lex = loadLexicon(g.text);
    if (r.chance(30)) lex.push_back(r.chance(50) ? gen::mutate(r, lex[0]) : "not a lexicon");
    loc = {gen::locale(r), gen::locale(r), "tr"};
    flt = {"PUNCT,SPACE,DASH,EMDASH", gen::filter(r), ""};
    int na = r.range(2, 4);
    std::vector<std::vector<Tok>> rds;
    for (int i = 0; i < na; ++i) {
        size_t li = r.below(gl.size());
        gen::AddrOpt ao; ao.maxItems = 4;
        std::string a = gen::address(r, gl[li], ao);
        bool ok = true;
        for (auto &g : gl) for (auto &f : flt) for (auto &l : loc) if (readingCount(filterToks(tokenize(g.lex, a, l), parseTypes(f))) > 16) ok = false;
        if (!ok) continue;
        addr.push_back(a);
        auto tk = filterToks(tokenize(gl[li].lex, a, loc[0]), parseTypes(flt[0]));
        if (!tk.empty()) { auto v = readings(gl[li].lex, tk, 16); if (!v.empty()) rds.push_back(v[r.below(v.size())]); }
    }
    if (addr.empty()) addr.push_back("12 MAIN ST");
    if (rds.empty()) { Tok t; t.text = "12"; t.cls = {0}; rds.push_back({t}); }
    for (int i = 0; i < 2; ++i) gmr.push_back(gen::grammar(r, rds).text);
    for (int i = r.chance(50) ? 1 : 0; i > 0 || (i == 0 && r.chance(20)); --i) {     // the same sections, other rules
        gmr.push_back(gen::sameLengthGrammar(r, gmr[r.below(2)]));
    }
    if (r.chance(30)) gmr.push_back("[ADDRESS]\n@nowhere\n");
    auto parsed = [&](size_t i, Gram &g) { try { g = loadGrammar(gmr[i]); return true; } catch (LoadError &) { return false; } };
    std::map<std::string, std::string> base;
    std::vector<Live> lls, lgs;
    std::string hist;
    auto check = [&](Req q, const std::string &got, const std::string &how) {
        std::string key = q.op + "\1" + q.addr + "\1" + q.lex + "\1" + q.gmr + "\1" + q.loc + "\1" + q.flt;
        auto it = base.find(key);
        if (it == base.end()) {
            std::string w;
            if (!pristine(q, w)) { w = "(the pristine process crashed)"; cx.count("pristine_crashed"); }
            cx.count("pristine_processes");
            it = base.emplace(key, w).first;
        } else cx.count("repeated_requests");
        cx.count("calls");
        hist += how + "(" + q.addr + ") ";
        if (it->second != got)
            cx.viol("differs-from-pristine", how + " addr=" + q.addr + " loc=" + q.loc + " filter=" + q.flt + "\nfresh process: " + it->second.substr(0, 600) + "\nhere: " + got.substr(0, 600) +
                    "\nafter " + hist + "\ngrammar " + q.gmr + "\nlexicon " + q.lex);
        cx.eval(got.compare(0, 4, "NULL") != 0, key);
    };
    for (int i = 0; i < 2; ++i) {
        size_t li = r.below(lex.size()), gi = r.below(gmr.size());
        auto p = api::lexPtr(lex[li]); if (p.p) { lls.push_back({p.p, li, lexState(p.p)}); hist += "new lexicon "; }
        auto q = api::gmrPtr(gmr[gi]); if (q.p) { lgs.push_back({q.p, gi, gmrState(q.p)}); hist += "new grammar "; }
    }
    int steps = cx.thorough ? 80 : 40, lastW = -1;
    size_t lastL = 0, lastG = 0;
    Req last;
    for (int k = 0; k < steps; ++k) {
        size_t li = r.below(lex.size()), gi = r.below(gmr.size());
        Req q; q.addr = r.pick(addr); q.lex = lex[li]; q.gmr = gmr[gi]; q.loc = r.pick(loc); q.flt = r.pick(flt);
        Gram g;
        int w = (int)r.below(100);
        if (lastW >= 0 && r.chance(35)) {       // the last call again with one other argument
            std::string a = last.addr, l = last.loc, f = last.flt;
            w = lastW;
            switch (r.below(6)) {
                case 0: a = q.addr; li = lastL; gi = lastG; break;
                case 1: l = q.loc; li = lastL; gi = lastG; break;
                case 2: f = q.flt; li = lastL; gi = lastG; break;
                case 3: li = lastL; break;
                default: gi = lastG; break;
            }
            q.addr = a; q.loc = l; q.flt = f; q.lex = lex[li]; q.gmr = gmr[gi];
            cx.count("one_argument_changed");
        }
        if (w < 50) { lastW = w; lastL = li; lastG = gi; last = q; }
        bool search = (w >= 20 && w < 50) || (w >= 65 && w < 80);
        if (search && parsed(gi, g)) {          // keep the search small
            bool big = false;
            for (auto &x : gl) {
                auto v = readings(x.lex, filterToks(tokenize(x.lex, q.addr, q.loc), parseTypes(q.flt)), 32);
                if (v.empty()) v.push_back(filterToks(tokenize(x.lex, q.addr, q.loc), parseTypes(q.flt)));
                std::vector<Deriv> d;
                if (!derivations(g, v, 300, 8000, d)) big = true;
            }
            if (big) { cx.count("skipped_budget"); continue; }
        }
        if (w < 20) { q.op = "parse"; q.gmr = ""; check(q, answer(q), "parse"); }
        else if (w < 32) { q.op = "match"; check(q, answer(q), "match"); }
        else if (w < 50) { q.op = "stdz"; check(q, answer(q), "standardize"); }
        else if (w < 65 && !lls.empty()) {
            Live &l = lls[r.below(lls.size())];
            q.op = "parse"; q.gmr = ""; q.lex = lex[l.which];
            check(q, api::show(api::parseP(q.addr, l.p, q.loc, q.flt)), "parse with object");
            cx.count("object_calls");
        } else if (w < 80 && !lls.empty() && !lgs.empty()) {
            Live &l = lls[r.below(lls.size())], &m = lgs[r.below(lgs.size())];
            q.op = "stdz"; q.lex = lex[l.which]; q.gmr = gmr[m.which];
            Gram g2; bool big = false;
            if (parsed(m.which, g2)) for (auto &x : gl) {
                auto v = readings(x.lex, filterToks(tokenize(x.lex, q.addr, q.loc), parseTypes(q.flt)), 32);
                if (v.empty()) v.push_back(filterToks(tokenize(x.lex, q.addr, q.loc), parseTypes(q.flt)));
                std::vector<Deriv> d;
                if (!derivations(g2, v, 300, 8000, d)) big = true;
            }
            if (big) { cx.count("skipped_budget"); continue; }
            check(q, api::show(api::stdzP(q.addr, m.p, l.p, q.loc, q.flt)), "standardize with objects");
            cx.count("object_calls");
        } else if (w < 84) { q.op = "compile"; q.addr = q.gmr = q.loc = q.flt = ""; check(q, answer(q), "compile"); }
        else if (w < 86) { q.op = "md5"; q.addr = q.gmr = q.loc = q.flt = ""; check(q, answer(q), "digest"); }
        else if (w < 88) { q.op = "lexptr"; q.addr = q.gmr = q.loc = q.flt = ""; check(q, answer(q), "load lexicon"); }
        else if (w < 90) { q.op = "gmrptr"; q.addr = q.lex = q.loc = q.flt = ""; check(q, answer(q), "load grammar"); }
        else if (w < 93 || lls.empty()) {
            auto p = api::lexPtr(lex[li]);
            if (p.p) { lls.push_back({p.p, li, lexState(p.p)}); hist += "new lexicon "; }
        } else if (w < 96 || lgs.empty()) {
            auto p = api::gmrPtr(gmr[gi]);
            if (p.p) { lgs.push_back({p.p, gi, gmrState(p.p)}); hist += "new grammar "; }
        } else {
            if (r.chance(50)) { size_t i = r.below(lls.size()); freeLexiconPtr(lls[i].p); lls.erase(lls.begin() + (long)i); hist += "free lexicon "; }
            else { size_t i = r.below(lgs.size()); freeGrammarPtr(lgs[i].p); lgs.erase(lgs.begin() + (long)i); hist += "free grammar "; }
        }
        cx.maxof("live_objects", (long)(lls.size() + lgs.size()));
    }
    for (auto &l : lls) { if (lexState(l.p) != l.state) cx.viol("object-changed", "lexicon " + lex[l.which] + " became " + lexState(l.p)); cx.count("objects_compared"); freeLexiconPtr(l.p); }
    for (auto &l : lgs) { if (gmrState(l.p) != l.state) cx.viol("object-changed", "grammar " + gmr[l.which] + " became " + gmrState(l.p)); cx.count("objects_compared"); freeGrammarPtr(l.p); }
    cx.sample(hist.substr(0, 300));
}
