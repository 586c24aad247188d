// Helpers shared by the monitor modules.
#include "common.h"
using namespace ref;

std::vector<api::PTok> pat0(const api::Parse &p) {
    std::vector<api::PTok> r;
    for (auto &t : p.v) if (t.pat == 0) r.push_back(t);
    return r;
}
size_t readingCount(const std::vector<Tok> &v) { size_t k = 0; for (auto &t : v) if (multiWord(t)) ++k; return k > 20 ? (size_t)1 << 20 : (size_t)1 << k; }

std::vector<Tok> toTok(const std::vector<api::PTok> &v) { std::vector<Tok> r; for (auto &t : v) { Tok x; x.text = t.word; x.cls = parseTypes(t.cls); r.push_back(x); } return r; }
std::vector<std::vector<Tok>> obsReadings(const api::Parse &p) {
    std::vector<std::vector<Tok>> r(1);
    for (auto &t : p.v) {
        if (t.pat < 0 || t.pat > 4096) continue;
        while ((int)r.size() <= t.pat) r.push_back({});
        r[(size_t)t.pat].push_back(toTok({t})[0]);
    }
    return r;
}
std::string genAddr(Ctx &cx, gen::GLex &g, std::string &loc) {
    loc = gen::locale(cx.rng);
    if (!gen::samples().empty() && g.profile == 99) return gen::recase(cx.rng, cx.rng.pick(gen::sampleAddresses()));
    for (int k = 0; k < 6; ++k) {
        gen::AddrOpt o; o.vast = true;
        std::string a = gen::address(cx.rng, g, o);
        if (gen::covered(a, loc, g.lex.locale)) return a;
    }
    return "12 MAIN ST";
}
// sometimes a lexicon shipped with the repository
gen::GLex genLex(Ctx &cx, const gen::LexOpt &o) {
    if (!gen::samples().empty() && cx.idx % 40 == 7) {
        gen::GLex g;
        const auto &s = gen::samples()[(size_t)(cx.idx / 40) % gen::samples().size()];
        g.text = s.lex; g.lex = loadLexicon(s.lex); g.lex.index(); g.profile = 99; g.locale = g.lex.locale;
        for (auto &kv : g.lex.m) g.keys.push_back(kv.first);
        g.pre.assign(g.lex.pre.begin(), g.lex.pre.end());
        g.suf.assign(g.lex.suf.begin(), g.lex.suf.end());
        g.stems = {"ALT", "NEU", "KURFURST", "X"};
        cx.count("sample_lexicons");
        if (cx.rng.chance(60)) g.profile = 98;      // generated addresses over the shipped lexicon
        return g;
    }
    return gen::lexicon(cx.rng, o);
}
