// Monitors for tokenization: segmentation, classes, splitting, readings,
// filtering, and invariance under case and composition.
#include "common.h"
#include "tokenizer.h"
#include "lexicon.h"
#include "utils.h"
#include <algorithm>
using namespace ref;

static std::string at(const gen::GLex &g, const std::string &a, const std::string &loc, const std::string &f = "") {
    std::string s = "address=" + a + " locale=" + loc;
    if (!f.empty()) s += " filter=" + f;
    return s + " lexicon=" + g.text;
}
// observed words of one address; false if the case cannot be judged
static bool observe(Ctx &cx, const gen::GLex &g, void *h, const std::string &a, const std::string &loc, const std::string &f, api::Parse &p) {
    p = cx.rng.chance(12) ? api::parse(a, g.text, loc, f) : api::parseP(a, h, loc, f);
    cx.count("parses");
    if (p.null) { cx.viol("parse-failed", (p.err.set ? p.err.msg : "no message") + std::string(" ") + at(g, a, loc, f)); return false; }
    return true;
}
static bool sameWord(const std::string &obs, const std::string &raw) {
    if (obs == raw) return true;
    auto p = raw.find(',');       // a decimal comma becomes a point
    if (p == std::string::npos) return false;
    std::string x = raw; x[p] = '.';
    U u = dec(raw); bool num = true;
    for (char32_t c : u) if (!(isNd(c) || c == ',')) num = false;
    return num && obs == x;
}
// group the observed words by the scanned words; empty when they do not line up
static bool align(const std::vector<std::string> &obs, const std::vector<Piece> &sc, std::vector<std::vector<size_t>> &grp) {
    size_t i = 0;
    grp.clear();
    for (auto &s : sc) {
        std::vector<size_t> one;
        if (i >= obs.size()) return false;
        if (sameWord(obs[i], s.text)) one.push_back(i++);
        else {
            if (s.sep) return false;
            std::string acc;
            while (i < obs.size() && acc.size() < s.text.size()) { acc += obs[i]; one.push_back(i++); if (obs[i - 1].empty()) return false; }
            if (!sameWord(acc, s.text)) return false;
        }
        grp.push_back(one);
    }
    return i == obs.size();
}

static std::string visible(const std::string &s) {      // the non-blank characters, decimal comma = point
    std::string o;
    for (char32_t c : dec(s)) if (!isSpace(c)) o += enc(U(1, c == ',' ? '.' : c));
    return o;
}

// ------------------------------------------------------------------ C02
void case_C02(Ctx &cx) {
    gen::GLex g = genLex(cx);
    LexHandle h(cx, g.text);
    if (!h.p) return;
    for (int k = 0; k < 6; ++k) {
        std::string loc, a = genAddr(cx, g, loc);
        Features f;
        auto sc = scan(g.lex, a, loc, &f);
        if (readingCount(tokenize(g.lex, a, loc, &f)) > 256) { cx.count("skipped_readings"); continue; }
        api::Parse p;
        if (!observe(cx, g, h.p, a, loc, "", p)) continue;
        std::vector<std::string> w; std::string all;
        for (auto &t : pat0(p)) { w.push_back(t.word); all += t.word; }
        std::vector<std::vector<size_t>> grp;
        std::string want; for (auto &s : sc) want += "|" + s.text;
        std::string got; for (auto &x : w) got += "|" + x;
        if (!align(w, sc, grp)) cx.viol("segmentation", "expected " + want + " got " + got + " " + at(g, a, loc));
        else for (size_t i = 0; i < sc.size(); ++i) {       // a number is one word, whatever its length
            const std::string &x = sc[i].text;
            size_t m = x.find_first_of("/,.");
            if (sc[i].sep || x.find_first_not_of("0123456789/,.") != std::string::npos) continue;
            cx.count(m == std::string::npos ? "integers" : "decimals_and_fractions"); cx.maxof("number_characters", (long)x.size());
            if (grp[i].size() == 1) continue;
            Tok t; t.text = x; classify(g.lex, t, 1);
            if (t.inlex || splitToken(g.lex, t).size() < 2) cx.viol("number-cut", "'" + x + "' expected " + want + " got " + got + " " + at(g, a, loc));
        }
        if (gen::covered(a, loc, g.lex.locale) && visible(all) != visible(normalized(g.lex, a, loc)))
            cx.viol("characters-lost", "text " + normalized(g.lex, a, loc) + " got " + got + " " + at(g, a, loc));
        cx.eval(sc.size() >= 2, "C02" + want + "#" + std::to_string(g.keys.size()));
        cx.count("tokens", (long)w.size()); cx.maxof("tokens", (long)w.size()); for (auto &x : w) cx.maxof("token_bytes", (long)x.size()); cx.count("lexicon_hits", f.lexHit); cx.count("lexicon_phrases", f.lexMulti);
        cx.count("lexicon_longest_rejected", f.lexBacktrack); cx.count("separators", f.seps); cx.count("line_restarts", f.lineStart);
        if (cx.idx % 97 == 0 && k == 0) cx.sample(a + " => " + got);
    }
}

// ------------------------------------------------------------------ C03
static std::set<int> expectedClasses(const Lex &lx, const std::string &word) {
    Tok t; t.text = word;
    bool sepOnly = true;
    for (char32_t c : dec(word)) if (!isSep(c)) sepOnly = false;
    classify(lx, t, inCode(sepOnly ? "PUNCT" : "WORD"));
    return t.cls;
}
void case_C03(Ctx &cx) {
    gen::GLex g = genLex(cx);
    LexHandle h(cx, g.text);
    if (!h.p) return;
    for (int k = 0; k < 6; ++k) {
        std::string loc, a = genAddr(cx, g, loc);
        if (readingCount(tokenize(g.lex, a, loc)) > 256) continue;
        api::Parse p;
        if (!observe(cx, g, h.p, a, loc, "", p)) continue;
        std::string key;
        for (auto &t : p.v) {
            std::set<int> got = parseTypes(t.cls), want = expectedClasses(g.lex, t.word);
            // separator characters of several kinds have no shape of their own: a run
            // counts as punctuation, a word broken out of it as a word
            if (t.pat > 0 && want == std::set<int>{30} && got == std::set<int>{1}) { cx.count("broken_out_separators"); continue; }
            // a decimal comma was turned into a point after the lookup
            bool decimal = t.word.find('.') != std::string::npos && got == std::set<int>{0};
            if (got != want && !(decimal && g.lex.find(t.word))) {
                std::string w; for (int c : want) w += std::string(inName(c)) + ",";
                cx.viol("classes", "token '" + t.word + "' expected " + w + " got " + t.cls + " " + at(g, a, loc));
            }
            cx.count("class_sets_checked");
            for (int c : want) cx.count(std::string("class_") + inName(c));
            if (g.lex.find(t.word)) cx.count("from_lexicon");
            if (t.pat == 0) { key += t.word + ":" + t.cls + ";"; if (want.size() > 1) cx.count("multi_class"); }
        }
        cx.eval(p.v.size() >= 1, "C03" + key);
        if (cx.idx % 97 == 1 && k == 0) cx.sample(a + " => " + key);
    }
    // classification is a function of the word and the lexicon: direct calls
    Lexicon *lex = static_cast<Lexicon *>(h.p);
    for (int k = 0; k < 8; ++k) {
        std::string w = ref::upper(ref::nfc(gen::address(cx.rng, g, gen::AddrOpt{1, 1, false, false, 100})), "en");
        size_t b = w.find_first_not_of(" \t,"); if (b == std::string::npos) continue;
        w = w.substr(b);
        if (w.find('\t') != std::string::npos || w.empty()) continue;
        bool plain = true; for (char32_t c : dec(w)) if (!isL(c) && !isNd(c)) plain = false;
        if (!plain && !g.lex.find(w)) continue;
        Token t(w); lex->classify(t, InClass::WORD);
        std::set<int> got; for (auto c : t.inclass()) got.insert((int)c);
        Tok m; m.text = w; classify(g.lex, m, 1);
        if (got != m.cls || t.inLex() != m.inlex) cx.viol("classify", "word '" + w + "' got " + t.inclassAsString() + " lexicon=" + g.text);
        cx.eval(true, "cl" + w + t.inclassAsString());
    }
}

// ------------------------------------------------------------------ C04
void case_C04(Ctx &cx) {
    gen::LexOpt o; o.multi = cx.rng.chance(40); o.maxEntries = 14; o.special = cx.rng.chance(30);
    gen::GLex g = genLex(cx, o);
    LexHandle h(cx, g.text);
    if (!h.p) return;
    for (int k = 0; k < 8; ++k) {
        std::string loc, a;
        if (cx.rng.chance(70)) {
            loc = gen::locale(cx.rng);
            // one or two words built from affixes, stems, digits and letters
            int n = cx.rng.range(1, 2);
            for (int i = 0; i < n; ++i) {
                if (i) a += " ";
                int v = (int)cx.rng.below(10);
                if (v < 6 && (!g.pre.empty() || !g.suf.empty())) {
                    int c = (int)cx.rng.below(6);
                    std::string st = cx.rng.pick(g.stems);
                    if ((c == 0 || c == 2 || c == 4) && !g.pre.empty()) a += cx.rng.pick(g.pre);
                    if (c == 4 && !g.pre.empty()) a += cx.rng.pick(g.pre);
                    if (c != 3) a += st;
                    if (c == 5 && !g.suf.empty()) a += cx.rng.pick(g.suf);
                    if (c != 0 && !g.suf.empty()) a += cx.rng.pick(g.suf);
                    if (a.empty()) a += st;
                } else if (v < 8) { for (int d = cx.rng.big(1, 5, 70); d > 0; --d) a += (char)('0' + cx.rng.below(10)); for (int d = cx.rng.range(1, 2); d > 0; --d) a += (char)('A' + cx.rng.below(26)); }
                else { a += cx.rng.chance(20) ? std::string("\xc3\x89") : std::string(1, (char)('A' + cx.rng.below(26))); if (cx.rng.chance(20)) a += "B"; for (int d = cx.rng.big(1, 4, 70); d > 0; --d) a += (char)('0' + cx.rng.below(10)); if (cx.rng.chance(20)) a += "C"; }
            }
            if (!gen::covered(a, loc, g.lex.locale)) continue;
        } else a = genAddr(cx, g, loc);
        if (readingCount(tokenize(g.lex, a, loc)) > 64) continue;
        api::Parse p;
        if (!observe(cx, g, h.p, a, loc, "", p)) continue;
        auto t0 = pat0(p);
        auto sc = scan(g.lex, a, loc);
        std::vector<std::string> w; for (auto &t : t0) w.push_back(t.word);
        std::vector<std::vector<size_t>> grp;
        if (!align(w, sc, grp)) {
            // lost or altered characters inside a split word
            std::string x, y; for (auto &s : w) x += s; for (auto &s : sc) y += s.text;
            if (visible(x) != visible(y)) cx.viol("pieces-do-not-concatenate", "scanned " + y + " got " + x + " " + at(g, a, loc));
            for (auto &s : w) if (s.empty()) cx.viol("empty-piece", at(g, a, loc));
            cx.count("not_aligned");
            continue;
        }
        std::string key;
        for (size_t i = 0; i < sc.size(); ++i) {
            if (sc[i].sep) continue;
            Tok t; t.text = sc[i].text; classify(g.lex, t, 1);
            std::vector<Tok> want;
            if (!t.inlex) want = splitToken(g.lex, t);
            if (want.empty()) want.push_back(t);
            std::string ws, gs; bool same = want.size() == grp[i].size();
            for (auto &x : want) ws += x.text + "|";
            for (size_t j = 0; j < grp[i].size(); ++j) {
                const auto &ob = t0[grp[i][j]];
                gs += ob.word + "|";
                if (same && ob.word != want[j].text) same = false;
                if (same && want.size() > 1 && parseTypes(ob.cls) != want[j].cls) { cx.viol("piece-classes", "piece '" + ob.word + "' of '" + sc[i].text + "' got " + ob.cls + " expected " + api::show(want[j]) + " " + at(g, a, loc)); }
            }
            if (!same) cx.viol("split", "word '" + sc[i].text + "' expected " + ws + " got " + gs + " " + at(g, a, loc));
            if (want.size() == 2) cx.count("split_2"); if (want.size() == 3) cx.count("split_3");
            if (t.inlex) cx.count("kept_lexicon_words");
            cx.eval(want.size() > 1 || t.inlex, "C04" + ws + (t.inlex ? "L" : ""));
            key += ws + " ";
        }
        if (cx.idx % 97 == 2 && k == 0) cx.sample(a + " => " + key);
    }
}

// ------------------------------------------------------------------ C05
// thousands of readings, all of whose words are in the lexicon
static void manyReadings(Ctx &cx) {
    gen::GLex g; g.locale = "en"; g.lang = "ENG"; g.name = "many";
    std::vector<std::string> ph = {"NEW YORK", "SAN JUAN", "LE MANS"}, one = {"NEW", "YORK", "SAN", "JUAN", "LE", "MANS"};
    std::string txt = "LEXICON:\tmany\tENG\ten\n";
    for (auto &w : ph) txt += "LEXENTRY:\t" + w + "\t" + w + "\tCITY\t\n";
    for (auto &w : one) txt += "LEXENTRY:\t" + w + "\t" + w + "\tWORD\t\n";
    g.text = txt; g.lex = loadLexicon(txt); g.lex.index();
    int n = cx.rng.range(11, 13); std::string a;
    for (int i = 0; i < n; ++i) a += (i ? " " : "") + cx.rng.pick(ph);
    auto p = api::parse(a, g.text, "en", "SPACE");
    cx.count("parses");
    if (p.null) { cx.viol("parse-failed", p.err.msg + " " + at(g, a, "en")); return; }
    // reading by reading: which phrases are whole; every combination exactly once
    std::set<long> seen; size_t i = 0; int rd = 0; bool bad = false;
    std::vector<std::string> w = words(a);
    for (; i < p.v.size() && !bad; ++rd) {
        long mask = 0; size_t j = 0; int k = 0;
        for (; i < p.v.size() && p.v[i].pat == rd; ++i, ++k) {
            const std::string &x = p.v[i].word;
            if (j + 1 < w.size() && j % 2 == 0 && x == w[j] + " " + w[j + 1]) { mask |= 1L << (j / 2); j += 2; }
            else if (j < w.size() && x == w[j]) ++j;
            else { bad = true; break; }
        }
        if (j != w.size() || !seen.insert(mask).second) bad = true;
        if (rd == 0 && mask != (1L << n) - 1) cx.viol("first-reading-not-unsplit", at(g, a, "en"));
    }
    if (bad) cx.viol("readings", "reading " + std::to_string(rd) + " of " + at(g, a, "en"));
    else if (seen.size() != (size_t)1 << n) cx.viol("reading-count", "expected " + std::to_string(1 << n) + " got " + std::to_string(seen.size()) + " " + at(g, a, "en"));
    cx.maxof("readings", (long)seen.size()); cx.count("addresses_with_thousands_of_readings");
    cx.eval(true, "C05many" + a);
}
void case_C05(Ctx &cx) {
    if (cx.idx % 800 == 11) return manyReadings(cx);
    gen::LexOpt o; o.multi = true; o.minEntries = 3;
    gen::GLex g = genLex(cx, o);
    LexHandle h(cx, g.text);
    if (!h.p) return;
    for (int k = 0; k < 6; ++k) {
        std::string loc = gen::locale(cx.rng), a, f = gen::filter(cx.rng);
        if (cx.rng.chance(60)) {        // many phrases
            std::vector<std::string> ph; for (auto &x : g.keys) if (words(x).size() > 1) ph.push_back(x);
            int n = cx.rng.big(1, 6, 11, 1);
            for (int i = 0; i < n; ++i) { if (i) a += cx.rng.chance(80) ? " " : ", "; a += (!ph.empty() && cx.rng.chance(65)) ? cx.rng.pick(ph) : gen::address(cx.rng, g, gen::AddrOpt{1, 1, false, false, 100}); }
        } else a = gen::address(cx.rng, g);
        if (!gen::covered(a, loc, g.lex.locale)) continue;
        if (readingCount(tokenize(g.lex, a, loc)) > 2048) { cx.count("skipped_readings"); continue; }
        api::Parse p;
        if (!observe(cx, g, h.p, a, loc, f, p)) continue;
        std::map<int, std::vector<api::PTok>> by; int lastPat = 0; bool numbering = true;
        for (size_t i = 0; i < p.v.size(); ++i) {
            if (p.v[i].pat < lastPat || p.v[i].seq != (int)i) numbering = false;
            lastPat = p.v[i].pat;
            by[p.v[i].pat].push_back(p.v[i]);
        }
        auto base = toTok(by[0]);
        auto want = readings(g.lex, base, 8192);
        if (want.empty()) continue;
        // a reading whose tokens are all gone cannot be seen; only the empty phrase has that
        if (!numbering) cx.viol("numbering", at(g, a, loc, f) + "\n" + api::show(p));
        size_t n = want.size();
        if (base.empty()) { if (!p.v.empty()) cx.viol("first-reading-missing", at(g, a, loc, f)); continue; }
        if (by.size() != n || (int)by.rbegin()->first != (int)n - 1)
            cx.viol("reading-count", "expected " + std::to_string(n) + " got " + std::to_string(by.size()) + " " + at(g, a, loc, f));
        else {
            std::multiset<std::string> W, G;
            for (size_t i = 1; i < n; ++i) { W.insert(api::show(want[i])); G.insert(api::show(toTok(by[(int)i]))); }
            if (W != G) {
                std::string d; for (auto &x : W) if (W.count(x) != G.count(x)) { d += "missing/dup: " + x; break; }
                for (auto &x : G) if (!W.count(x)) { d += " unexpected: " + x; break; }
                cx.viol("readings", d + " " + at(g, a, loc, f));
            }
            // the first reading is the unsplit phrase
            auto kept = filterToks(tokenize(g.lex, a, loc), parseTypes(f));
            bool unsplit = true; size_t mw = 0, mw0 = 0;
            for (auto &t : kept) if (multiWord(t)) ++mw;
            for (auto &t : base) if (multiWord(t)) ++mw0;
            if (mw != mw0) unsplit = false;
            if (!unsplit) cx.viol("first-reading-not-unsplit", at(g, a, loc, f));
            cx.maxof("readings", (long)n);
        }
        cx.count("readings", (long)n);
        cx.eval(n > 1, "C05" + api::show(base));
        if (n > 2 && cx.rng.chance(3)) cx.sample(a + " => " + std::to_string(n) + " readings");
    }
}

// ------------------------------------------------------------------ C06
void case_C06(Ctx &cx) {
    gen::GLex g = genLex(cx);
    LexHandle h(cx, g.text);
    if (!h.p) return;
    for (int k = 0; k < 5; ++k) {
        std::string loc, a = genAddr(cx, g, loc);
        if (readingCount(tokenize(g.lex, a, loc)) > 128) continue;
        api::Parse all;
        if (!observe(cx, g, h.p, a, loc, "", all)) continue;
        auto base = toTok(pat0(all));
        std::set<int> present; for (auto &t : base) present.insert(t.cls.begin(), t.cls.end());
        for (int j = 0; j < 3; ++j) {
            std::string f = gen::filter(cx.rng);
            if (j == 1 && !present.empty()) {      // a class that is there
                std::vector<int> pv(present.begin(), present.end());
                f = inName(cx.rng.pick(pv)); if (cx.rng.chance(50)) f = " " + f + " ,NOSUCH, " + inName(cx.rng.pick(pv)) + "," + f;
            }
            api::Parse p;
            if (!observe(cx, g, h.p, a, loc, f, p)) continue;
            auto want = filterToks(base, parseTypes(f));
            auto got = toTok(pat0(p));
            if (!(want == got)) cx.viol("filter", "expected " + api::show(want) + " got " + api::show(got) + " " + at(g, a, loc, f));
            cx.count("tokens_removed", (long)(base.size() - want.size())); cx.count("tokens_kept", (long)want.size());
            cx.eval(want.size() < base.size(), "C06" + f + api::show(base));
            if (cx.rng.chance(1)) cx.sample(a + " filter " + f + " => " + api::show(got));
        }
    }
}

// ------------------------------------------------------------------ C07
static const std::vector<std::string> LOCS = {"en", "", "tr", "de", "el", "lt", "az", "fr_FR", "nl", "tur", "tr-TR", "TR", "tr_TR.UTF-8", "az_Latn_AZ", "aze", "lit", "lt_LT", "ell", "hy", "und_TR", "en_TR"};
static std::string randText(Ctx &cx) {
    std::string s;
    bool vast = cx.rng.below(600) == 0, dense = vast && cx.rng.chance(60);
    int n = vast ? cx.rng.range(500, 40000) : cx.rng.big(0, 14, 500);
    for (int i = 0; i < n; ++i) {
        char32_t c;
        if (dense) { s += (char)("AEOUaeoucn"[cx.rng.below(10)]); if (cx.rng.chance(90)) s += enc(U(1, (char32_t)cx.rng.range(0x300, 0x304))); continue; }      // composes everywhere
        switch (cx.rng.below(9)) {
            case 0: c = (char32_t)cx.rng.range(1, 0x7f); break;
            case 1: c = (char32_t)cx.rng.range(0xa0, 0x24f); break;
            case 2: c = (char32_t)cx.rng.range(0x300, 0x345); break;
            case 3: c = (char32_t)cx.rng.range(0x370, 0x52f); break;
            case 4: c = (char32_t)cx.rng.range(0x1e00, 0x1fff); break;
            case 5: c = (char32_t)cx.rng.range(0xac00, 0xd7a3); break;
            case 6: c = (char32_t)cx.rng.range(0x10400, 0x1044f); break;
            case 7: c = (char32_t)cx.rng.pick(std::vector<int>{0x131, 0x130, 'i', 'I', 0xdf, 0x1e9e, 0x3c2, 0x3c3, 0x149, 0xfb01, 0x212b, 0x2126, 0x1100, 0x1161, 0x11a8, 0x958, 0x6d5, 0x654, 0x1f80, 0x345}); break;
            default: c = (char32_t)cx.rng.range(0x20, 0x10ffff); if (c >= 0xd800 && c < 0xe000) c = 'x';
        }
        s += enc(U(1, c));
    }
    return s;
}
void case_C07(Ctx &cx) {
    if (cx.idx % 3 == 2) {
        for (int k = 0; k < 12; ++k) {
            std::string s = randText(cx), loc = cx.rng.pick(LOCS);
            if (cx.rng.chance(4)) s = gen::bytes(cx.rng, 12);
            UErrorCode e;
            std::string n = Utils::normalizeUTF8(s, e);
            if (n != nfc(s)) cx.viol("normalize", "text=" + s + " got " + n);
            if (Utils::normalizeUTF8(n, e) != n) cx.viol("normalize-idempotent", "text=" + s);
            std::string u = Utils::upperCaseUTF8(s, loc);
            if (u != upper(s, loc)) cx.viol("upper", "text=" + s + " locale=" + loc + " got " + u);
            if (Utils::upperCaseUTF8(u, loc) != u && upper(upper(s, loc), loc) == upper(s, loc)) cx.viol("upper-idempotent", "text=" + s + " locale=" + loc);
            std::string x = Utils::unaccentUTF8(s), want;
            for (char32_t c : dec(nfd(s))) if (!(U_GET_GC_MASK((UChar32)c) & U_GC_M_MASK)) want += enc(U(1, c));
            want = nfc(want);
            for (char32_t c : dec(x)) if (U_GET_GC_MASK((UChar32)c) & U_GC_M_MASK) cx.viol("unaccent-mark-left", "text=" + s + " got " + x);
            if (x != want) cx.viol("unaccent", "text=" + s + " got " + x + " want " + want);
            cx.eval(!s.empty(), "U" + s + loc); cx.count("utils_checks", 3);
        }
        return;
    }
    gen::GLex g = genLex(cx);
    LexHandle h(cx, g.text);
    if (!h.p) return;
    for (int k = 0; k < 3; ++k) {
        std::string loc, a = genAddr(cx, g, loc), f = gen::filter(cx.rng);
        auto tk = filterToks(tokenize(g.lex, a, loc), parseTypes(f));
        if (readingCount(tk) > 32) continue;
        auto rd = readings(g.lex, tk, 32);
        api::Parse p0;
        if (!observe(cx, g, h.p, a, loc, f, p0)) continue;
        std::string s0 = api::show(p0), m0, z0;
        gen::GGram gg; bool withG = cx.rng.chance(60);
        if (withG) {
            gg = gen::grammar(cx.rng, rd);
            std::vector<Deriv> d;
            withG = derivations(gg.g, rd, 300, 12000, d);
        }
        if (withG) { m0 = api::show(api::match(a, gg.text, g.text, loc, f)); z0 = api::show(api::stdz(a, gg.text, g.text, loc, f)); cx.count("match_standardize_compared"); }
        std::string norm = normalized(g.lex, a, loc);
        std::vector<std::string> vars = {lower(a), upper(a, loc), nfd(a), nfc(a), nfd(lower(a)), nfd(upper(a, loc)), norm, nfd(norm), gen::recase(cx.rng, a), gen::recase(cx.rng, nfd(a))};
        for (auto &v : vars) {
            if (v == a || normalized(g.lex, v, loc) != norm) { cx.count("variants_not_equivalent"); continue; }
            api::Parse p;
            if (!observe(cx, g, h.p, v, loc, f, p)) continue;
            if (api::show(p) != s0) cx.viol("parse-differs", "variant=" + v + " " + at(g, a, loc, f) + "\n" + s0 + "vs\n" + api::show(p));
            if (withG && cx.rng.chance(50)) {
                if (api::show(api::match(v, gg.text, g.text, loc, f)) != m0) cx.viol("match-differs", "variant=" + v + " grammar=" + gg.text + at(g, a, loc, f));
                if (api::show(api::stdz(v, gg.text, g.text, loc, f)) != z0) cx.viol("standardize-differs", "variant=" + v + " grammar=" + gg.text + at(g, a, loc, f));
            }
            cx.eval(true, "C07" + v + loc);
        }
        if (cx.idx % 97 == 0 && k == 0) cx.sample(a + " ~ " + vars[4]);
    }
}
