// A short address over a small lexicon, its readings and a grammar that fits some of them.
#pragma once
#include "common.h"
using namespace ref;

struct Case {
    gen::GLex g;
    std::string loc, addr, flt;
    std::vector<std::vector<Tok>> rd;       // as observed
    gen::GGram gg;
    std::vector<Deriv> d;
    std::string at() const { return " address=" + addr + " locale=" + loc + " filter=" + flt + " grammar=" + gg.text + " lexicon=" + g.text; }
};
// a long list: one derivation that is many expansions deep, or a few
static void mkList(Ctx &cx, Case &c) {
    Rng &r = cx.rng;
    int n = r.chance(70) ? r.range(8, 34) : r.range(34, 70);
    bool pairs = r.chance(30);
    c.addr.clear();
    for (int i = 0; i < n; ++i) {
        bool num = pairs ? i % 2 == 0 : r.chance(40);
        std::string w;
        if (num) for (int k = r.range(6, 9); k > 0; --k) w += (char)('1' + r.below(9));
        else { w = "Q"; for (int k = r.range(2, 6); k > 0; --k) w += (char)('A' + r.below(26)); }
        c.addr += (i ? " " : "") + w;
    }
    if (r.chance(20) && !c.g.keys.empty()) c.addr += " " + r.pick(c.g.keys);
    c.flt = "PUNCT,SPACE,DASH,EMDASH";
    static const std::vector<std::string> SC = {"0.5", "0.25", "0.9", "1", "0.1", "0.333333"};
    static const std::vector<std::string> OUTS = {"HOUSE", "STREET", "CITY", "EXTRA", "IGNORE", "BOXH", "STOP"};
    std::string item;
    if (pairs) item = "NUMBER WORD -> " + r.pick(OUTS) + " " + r.pick(OUTS) + " -> " + r.pick(SC) + "\n";
    else for (auto k : {"NUMBER", "WORD"}) item += std::string(k) + " -> " + r.pick(OUTS) + " -> " + r.pick(SC) + "\n";
    std::string first = pairs ? "NUMBER WORD -> HOUSE STREET -> 0.4\n" : "WORD -> STREET -> 0.4\nNUMBER -> HOUSE -> 0.6\n";
    std::vector<std::string> sec = {"[item]\n" + item, "[first]\n" + first};
    std::string top;
    switch (r.below(5)) {
        case 0: sec.push_back(std::string("[ADDRESS]\n") + (r.chance(50) ? "@item @ADDRESS\n@item\n" : "@item\n@item @ADDRESS\n")); break;
        case 1: top = "@list"; sec.push_back("[list]\n@item @list\n@item\n"); break;
        case 2: top = "@first @list"; sec.push_back("[list]\n@item @list\n@item\n"); break;
        case 3: top = "@list"; sec.push_back("[list]\n@item @rest\n@first\n"); sec.push_back("[rest]\n@list\n"); break;      // two expansions per item
        default: top = "@list"; sec.push_back("[list]\n@item @item @item @list\n@item @item @item\n@item @item\n@item\n");
    }
    if (!top.empty()) {         // some levels above the list
        int up = r.range(0, 4);
        for (int i = 0; i < up; ++i) { std::string m = "up" + std::to_string(i); sec.push_back("[" + m + "]\n" + top + "\n"); top = "@" + m; }
        sec.push_back("[ADDRESS]\n" + top + "\n");
    }
    if (r.chance(20)) for (int i = r.range(20, 90); i > 0; --i) sec.push_back("[more" + std::to_string(i) + "]\nNUMBER -> HOUSE -> 0.5\n");   // many sections
    for (size_t i = sec.size(); i > 1; --i) std::swap(sec[i - 1], sec[r.below(i)]);
    c.gg.text.clear(); for (auto &x : sec) c.gg.text += x;
    c.gg.g = loadGrammar(c.gg.text);
}
// a short address over a small lexicon, its observed readings and a grammar that fits some of them
static bool mkCase(Ctx &cx, Case &c, const char *onlyLocale = nullptr) {
    gen::LexOpt o; o.maxEntries = 12; o.minEntries = 2; o.special = cx.rng.chance(20); o.unicode = cx.rng.chance(40);
    c.g = gen::lexicon(cx.rng, o);
    c.loc = gen::locale(cx.rng);
    gen::AddrOpt ao; ao.minItems = 1; ao.maxItems = cx.rng.chance(15) ? 7 : 4; ao.spacePct = 85;
    c.addr = gen::address(cx.rng, c.g, ao);
    if (cx.rng.chance(30)) {        // a phrase or two, for alternate readings
        std::vector<std::string> ph; for (auto &x : c.g.keys) if (words(x).size() > 1) ph.push_back(x);
        if (!ph.empty()) {
            if (cx.rng.chance(50)) c.addr = "";
            int n = cx.rng.range(1, 2);
            for (int i = 0; i < n; ++i) c.addr = cx.rng.chance(50) || c.addr.empty() ? cx.rng.pick(ph) + (c.addr.empty() ? "" : " " + c.addr) : c.addr + " " + cx.rng.pick(ph);
        }
    }
    if (cx.rng.chance(2)) c.addr = "";
    if (onlyLocale) { c.loc = onlyLocale; for (auto &ch : c.addr) if ((unsigned char)ch < 0x20) ch = ' '; }
    c.flt = cx.rng.chance(75) ? "PUNCT,SPACE,DASH,EMDASH" : gen::filter(cx.rng);
    bool list = cx.rng.chance(3);
    if (list) mkList(cx, c);
    auto tk = filterToks(tokenize(c.g.lex, c.addr, c.loc), parseTypes(c.flt));
    if (readingCount(tk) > 16) { cx.count("skipped_readings"); return false; }
    api::Parse p = api::parse(c.addr, c.g.text, c.loc, c.flt);
    if (p.null) { cx.viol("parse-failed", p.err.msg + c.at()); return false; }
    c.rd = obsReadings(p);
    size_t combos = 0;
    for (auto &r : c.rd) { size_t n = 1; for (auto &t : r) { n *= std::max<size_t>(1, t.cls.size()); if (n > 5000) break; } combos += n; }
    if (combos > 3000 || c.rd.size() > 16) { cx.count("skipped_combinations"); return false; }
    for (auto &r : c.rd) for (auto &t : r) if (t.cls.empty()) return false;
    if (!list) c.gg = gen::grammar(cx.rng, c.rd);
    bool vast = cx.rng.chance(4);       // thousands of derivations now and then
    if (!derivations(c.gg.g, c.rd, vast ? 6000 : 400, vast ? 150000 : 15000, c.d)) { cx.count(list ? "skipped_lists" : "skipped_budget"); return false; }
    if (list) { cx.count("long_lists"); if (!c.d.empty()) cx.count("long_lists_matched"); }
    cx.count("derivations", (long)c.d.size());
    if (c.d.size() > 400) cx.count("more_than_400_derivations");
    if (c.d.empty()) cx.count("no_derivation");
    cx.maxof("derivations", (long)c.d.size()); cx.maxof("tokens", (long)c.rd[0].size());
    if (!c.d.empty()) { size_t n = 0; for (auto &d : c.d) n = std::max(n, d.rules.size()); cx.maxof("rules_of_a_derivation", (long)n); }
    return true;
}
