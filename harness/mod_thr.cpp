// C21: threads with their own objects, run first in a fresh process (nothing is
// warmed up) under ThreadSanitizer; the same calls are then repeated alone.
#include "common.h"
#include <atomic>
#include <thread>
#include <unicode/normalizer2.h>
#include <sys/wait.h>
using namespace ref;

namespace {
struct Call { int op; size_t lex, gmr; std::string addr, loc, flt; };
struct Plan {
    std::vector<std::string> lex, gmr;
    std::vector<std::vector<Call>> th;
    int rounds = 1;
};
std::vector<std::string> runThread(const Plan &p, const std::vector<Call> &calls) {
    std::vector<std::string> res;
    std::map<size_t, void *> ls, gs;
    auto L = [&](size_t i) -> void * { auto it = ls.find(i); if (it != ls.end()) return it->second; return ls[i] = api::lexPtr(p.lex[i]).p; };
    auto G = [&](size_t i) -> void * { auto it = gs.find(i); if (it != gs.end()) return it->second; return gs[i] = api::gmrPtr(p.gmr[i]).p; };
    for (int k = 0; k < p.rounds; ++k)
        for (auto &c : calls) {
            switch (c.op) {
                case 0: res.push_back(api::show(api::parse(c.addr, p.lex[c.lex], c.loc, c.flt))); break;
                case 1: res.push_back(api::show(api::match(c.addr, p.gmr[c.gmr], p.lex[c.lex], c.loc, c.flt))); break;
                case 2: res.push_back(api::show(api::stdz(c.addr, p.gmr[c.gmr], p.lex[c.lex], c.loc, c.flt))); break;
                case 3: { void *l = L(c.lex); if (l) res.push_back(api::show(api::parseP(c.addr, l, c.loc, c.flt))); break; }
                case 4: { void *l = L(c.lex), *g = G(c.gmr); if (l && g) res.push_back(api::show(api::stdzP(c.addr, g, l, c.loc, c.flt))); break; }
                case 5: { auto s = api::compile(p.lex[c.lex]); res.push_back(s.null ? s.err.msg : s.s); break; }
                case 6: { void *l = L(c.lex), *g = G(c.gmr); res.push_back((l ? api::takeStr(getLexiconMd5(l)) : "") + (g ? api::takeStr(getGrammarMd5(g)) : "") + api::md5(c.addr)); break; }
                case 7: { auto it = ls.find(c.lex); if (it != ls.end()) { if (it->second) freeLexiconPtr(it->second); ls.erase(it); } auto ig = gs.find(c.gmr); if (ig != gs.end()) { if (ig->second) freeGrammarPtr(ig->second); gs.erase(ig); } break; }
            }
        }
    for (auto &x : ls) if (x.second) freeLexiconPtr(x.second);
    for (auto &x : gs) if (x.second) freeGrammarPtr(x.second);
    return res;
}
}

void case_C21(Ctx &cx) {
    Rng &r = cx.rng;
    // the plan is made in another process: this one must not have called anything
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(97); }
    fflush(stdout); fflush(stderr); fflush(cx.out);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(97); }
    if (p == 0) {
        alarm(120);
        Plan pl;
        std::vector<std::string> addr;
        std::string loc[3] = {gen::locale(r), gen::locale(r), "tr"};
        // the model uses ICU as well, so it runs in a child of its own
        int md[2]; if (pipe(md)) _exit(97);
        pid_t m = fork();
        if (m == 0) {
            FILE *f = fdopen(md[1], "w");
            std::vector<gen::GLex> gl;
            std::vector<std::vector<Tok>> rds;
            for (int i = r.range(1, 3); i > 0; --i) {
                gen::LexOpt o; o.maxEntries = 8; o.minEntries = 2;
                gl.push_back(gen::lexicon(r, o));
            }
            auto put = [&](const std::string &s) { fprintf(f, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); };
            int na = r.range(2, 5);
            for (int i = 0; i < na; ++i) {
                gen::AddrOpt ao; ao.maxItems = 4;
                std::string a = gen::address(r, gl[r.below(gl.size())], ao);
                bool ok = true;
                for (auto &g : gl) for (auto &l : loc) {
                    auto tk = tokenize(g.lex, a, l);
                    if (readingCount(tk) > 8) { ok = false; continue; }
                    auto v = readings(g.lex, tk, 16); if (v.empty()) v.push_back(tk);
                    size_t combos = 0;      // class choices tried by the search
                    for (auto &x : v) { size_t n = 1; for (auto &t : x) { n *= std::max<size_t>(1, t.cls.size()); if (n > 5000) break; } combos += n; }
                    if (combos > 1500) ok = false;
                }
                if (!ok) continue;
                addr.push_back(a);
                rds.push_back(filterToks(tokenize(gl[0].lex, a, loc[0]), parseTypes("PUNCT,SPACE,DASH,EMDASH")));
            }
            if (addr.empty()) { addr.push_back("12 A ST"); rds.push_back(filterToks(tokenize(gl[0].lex, "12 A ST", "en"), parseTypes("SPACE"))); }
            std::vector<std::string> gm;
            for (int t = 0; t < 8 && gm.size() < 2; ++t) {
                auto gg = gen::grammar(r, rds);
                bool big = false;
                for (auto &a : addr) for (auto &g : gl) for (auto &l : loc) for (auto f : {"PUNCT,SPACE,DASH,EMDASH", ""}) {
                    auto tk = filterToks(tokenize(g.lex, a, l), parseTypes(f));
                    auto v = readings(g.lex, tk, 16); if (v.empty()) v.push_back(tk);
                    std::vector<Deriv> d;
                    if (!derivations(gg.g, v, 60, 1500, d)) { big = true; break; }
                }
                if (!big) gm.push_back(gg.text);
            }
            if (gm.empty()) gm.push_back("[ADDRESS]\n@a\n[a]\nNUMBER WORD -> HOUSE STREET -> 0.5\nNUMBER -> HOUSE -> 0.4\n");
            put(std::to_string(gl.size())); for (auto &a : gl) put(a.text);
            put(std::to_string(addr.size())); for (auto &a : addr) put(a);
            put(std::to_string(gm.size())); for (auto &a : gm) put(a);
            fclose(f); _exit(0);
        }
        close(md[1]);
        FILE *f = fdopen(md[0], "r");
        auto get = [&]() { size_t n = 0; if (fscanf(f, "%zu", &n) != 1) _exit(97); fgetc(f); std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) _exit(97); return s; };
        for (int n = atoi(get().c_str()); n > 0; --n) pl.lex.push_back(get());
        for (int n = atoi(get().c_str()); n > 0; --n) addr.push_back(get());
        for (int n = atoi(get().c_str()); n > 0; --n) pl.gmr.push_back(get());
        fclose(f);
        int st = 0; waitpid(m, &st, 0);
        if (r.chance(20)) pl.lex.push_back("broken"), pl.gmr.push_back("broken");
        int nt = r.range(2, 6);
        pl.rounds = cx.thorough ? 3 : 1;
        for (int t = 0; t < nt; ++t) {
            std::vector<Call> c;
            if (t && r.chance(50)) c = pl.th[0];        // the same calls at the same time
            else for (int k = r.range(4, 8); k > 0; --k)
                c.push_back({(int)r.below(8), r.below(pl.lex.size()), r.below(pl.gmr.size()), addr[r.below(addr.size())], loc[r.below(3)], r.chance(70) ? "PUNCT,SPACE,DASH,EMDASH" : ""});
            pl.th.push_back(c);
        }
        // ICU publishes its NFC singleton with atomics in a library that is not
        // instrumented, so ThreadSanitizer cannot see that order: make it before
        { UErrorCode e = U_ZERO_ERROR; icu::Normalizer2::getNFCInstance(e); }
        std::vector<std::vector<std::string>> res(pl.th.size());
        std::atomic<int> ready{0};
        std::atomic<long> inside{0}, peak{0}, ops{0};
        std::vector<std::thread> ths;
        for (size_t t = 0; t < pl.th.size(); ++t)
            ths.emplace_back([&, t]() {
                ++ready; while (ready.load() < (int)pl.th.size()) {}
                res[t] = runThread(pl, pl.th[t]);
            });
        for (auto &x : ths) x.join();
        FILE *o = fdopen(fd[1], "w");
        long calls = 0;
        std::string all;
        for (size_t t = 0; t < pl.th.size(); ++t) {
            auto alone = runThread(pl, pl.th[t]);
            calls += (long)res[t].size();
            for (size_t i = 0; i < alone.size() && i < res[t].size(); ++i) {
                all += alone[i];
                if (alone[i] != res[t][i]) fprintf(o, "V%s\n", jstr("thread " + std::to_string(t) + " call " + std::to_string(i) + " in parallel: " + res[t][i].substr(0, 400) + " alone: " + alone[i].substr(0, 400)).c_str());
            }
            if (alone.size() != res[t].size()) fprintf(o, "V\"number of results differs\"\n");
        }
        fprintf(o, "N%zu %ld %llu\n", pl.th.size(), calls, (unsigned long long)hash64(all));
        fclose(o);
        _exit(0);
    }
    close(fd[1]);
    FILE *f = fdopen(fd[0], "r");
    char *line = nullptr; size_t cap = 0; ssize_t n;
    bool done = false;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[0] == 'V') cx.viol("result-differs-in-parallel", line + 1);
        if (line[0] == 'N') {
            long t = 0, c = 0; unsigned long long h = 0; sscanf(line + 1, "%ld %ld %llu", &t, &c, &h);
            cx.count("threads", t); cx.count("parallel_calls", c); cx.maxof("threads", t);
            cx.eval(c > 0, "C21" + std::to_string(h)); done = true;
        }
    }
    free(line); fclose(f);
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { signal(SIGALRM, SIG_DFL); raise(SIGALRM); }
    if (WIFSIGNALED(st)) { fprintf(stderr, "worker killed by signal %d\n", WTERMSIG(st)); _exit(98); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    if (!done) _exit(97);
    cx.count("fresh_processes");
}
