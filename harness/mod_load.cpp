// Monitors for lexicon loading and editing, compiled lexicons, the trie, the
// UTF-8 codec, names and digests.
#include "common.h"
#include <fstream>
#include <memory>
#include <unistd.h>
#include "inclass.h"
#include "lexicon.h"
#include "md5.h"
#include "outclass.h"
#include "trieutf8.h"
#include "utf8iterator.h"
#include "grammar.h"
#include <boost/regex/icu.hpp>
#include <sstream>
using namespace ref;

static std::vector<std::string> splitLines(const std::string &t) {
    std::vector<std::string> l; std::string cur;
    for (char c : t) if (c == '\n') { l.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) l.push_back(cur);
    return l;
}
static std::string mline(const Entry &e) { return gen::entryLine(e); }
// entries of a model lexicon as a dump prints them
static std::string mdump(const Lex &lx) {
    std::string s;
    for (auto &kv : lx.m) for (auto &e : kv.second) s += mline(e) + "\n";
    return s;
}
static std::string sdump(const Lexicon &l, std::string *header = nullptr) {
    std::ostringstream os; os << l;
    std::string s = os.str();
    auto p = s.find('\n');
    if (header) *header = s.substr(0, p);
    return p == std::string::npos ? "" : s.substr(p + 1);
}
static std::set<std::string> lineSet(const std::string &s) { auto v = splitLines(s); return std::set<std::string>(v.begin(), v.end()); }
// entries grouped by word, words in any order
static bool sameDump(const std::string &a, const std::string &b) {
    auto grp = [](const std::string &s) {
        std::map<std::string, std::vector<std::string>> m;
        for (auto &l : splitLines(s)) { auto p = l.find('\t'); auto q = l.find('\t', p + 1); m[l.substr(0, q)].push_back(l); }
        return m;
    };
    return grp(a) == grp(b);
}

// ------------------------------------------------------------------ C12
void case_C12(Ctx &cx) {
    gen::LexOpt o; o.maxEntries = cx.rng.chance(20) ? 60 : 20;
    gen::GLex g = genLex(cx, o);
    auto c = api::compile(g.text);
    if (c.null) { cx.viol("compile-failed", c.err.msg + " text=" + g.text); return; }
    if (cx.rng.chance(50)) { auto c2 = api::compile(g.text); if (c2.s != c.s) cx.viol("compile-not-deterministic", "text=" + g.text); cx.count("compiled_twice"); }
    LexHandle a(cx, g.text), b(cx, c.s);
    if (!a.p || !b.p) return;
    std::string ma = api::takeStr(getLexiconMd5(a.p)), mb = api::takeStr(getLexiconMd5(b.p));
    if (ma != mb) cx.viol("digest-differs", ma + " vs " + mb + " text=" + g.text);
    if (ma.size() != 32) cx.viol("digest-malformed", ma);
    std::string ha, hb;
    std::string da = sdump(*static_cast<Lexicon *>(a.p), &ha), db = sdump(*static_cast<Lexicon *>(b.p), &hb);
    if (da != db) cx.viol("entries-differ", "source\n" + da + "compiled\n" + db);
    if (ha != hb) cx.viol("header-differs", ha + " vs " + hb + " text=" + g.text);
    for (int k = 0; k < 4; ++k) {
        std::string loc, addr = genAddr(cx, g, loc), f = gen::filter(cx.rng);
        if (cx.rng.chance(40)) {        // letters whose capital depends on the language
            static const std::vector<std::string> w = {"Αθήνα", "Άνω", "ΐ", "İi", "ıI", "i̇", "ışık", "straße", "įì", "Οδός", "MAIN i"};
            static const std::vector<std::string> ls = {"", "en", "el", "tr", "lt", "de"};
            addr += " " + cx.rng.pick(w); loc = cx.rng.pick(ls); cx.count("language_dependent_words");
        }
        auto tk = filterToks(tokenize(g.lex, addr, loc), parseTypes(f));
        if (readingCount(tk) > 32) continue;
        std::string at = " address=" + addr + " locale=" + loc + " filter=" + f + " text=" + g.text;
        std::string p = api::show(api::parse(addr, g.text, loc, f));
        std::string pc = api::show(api::parse(addr, c.s, loc, f));
        std::string pp = api::show(api::parseP(addr, a.p, loc, f)), pq = api::show(api::parseP(addr, b.p, loc, f));
        if (p != pc || pp != pq || p != pp) cx.viol("parse-differs", p + "vs\n" + pc + at);
        cx.count("parses_compared");
        cx.eval(!p.empty(), "C12" + addr + g.text);
        auto rd = readings(g.lex, tk, 32);
        auto gg = gen::grammar(cx.rng, rd);
        std::vector<Deriv> d;
        if (!derivations(gg.g, rd, 200, 8000, d)) continue;
        std::string m = api::show(api::match(addr, gg.text, g.text, loc, f)), mc = api::show(api::match(addr, gg.text, c.s, loc, f));
        if (m != mc) cx.viol("match-differs", m + "vs\n" + mc + at);
        std::string s = api::show(api::stdz(addr, gg.text, g.text, loc, f)), sc = api::show(api::stdz(addr, gg.text, c.s, loc, f));
        GmrHandle gh(cx, gg.text);
        std::string sp = gh.p ? api::show(api::stdzP(addr, gh.p, b.p, loc, f)) : s;
        if (s != sc || s != sp) cx.viol("standardize-differs", s + "vs\n" + sc + "\n" + sp + " grammar=" + gg.text + at);
        cx.count("match_standardize_compared");
        if (!d.empty()) cx.count("with_derivations");
    }
    // text that is not a compiled lexicon
    gen::LexOpt oo; oo.maxEntries = 12;
    gen::GLex other = cx.rng.chance(30) ? g : gen::lexicon(cx.rng, oo);
    for (int k = 0; k < 4; ++k) {
        std::string t; const char *what = "";
        size_t cut = c.s.size() > 60 ? c.s.size() - 50 : c.s.size() / 2;
        switch (cx.rng.below(5)) {
            case 0: what = "truncated"; t = c.s.substr(0, cx.rng.below(cut)); break;
            case 1: what = "signature"; t = c.s; { auto p = t.find("serialization"); if (p != std::string::npos) t[p + cx.rng.below(8)] = 'X'; } break;
            case 2: { what = "old-version"; t = c.s; auto p = t.find("archive "); p = p == std::string::npos ? p : t.find(' ', p + 8); if (p == std::string::npos || t.compare(p, 5, " 0 2 ") != 0) { cx.count("unknown_archive_layout"); continue; } t[p + 3] = (char)('0' + cx.rng.below(2)); break; }
            case 3: {   // cut where the missing part cannot be made up: among the entries, or in a pattern longer than the source
                what = "prefix-and-source";
                auto *lx = static_cast<Lexicon *>(b.p);
                size_t tail = lx->regexPrefixAtt().size() + lx->regexSuffixAtt().size() + 80, re = lx->regex().size() + 20;
                size_t end = c.s.size() > tail ? c.s.size() - tail : 0, entries = end > re ? end - re : 0, p = cx.rng.below(cut);
                if (p >= entries && other.text.size() + 1 >= (p < end ? end - p : 0)) p = cx.rng.below(entries + 1);
                t = c.s.substr(0, p) + "\n" + other.text; break; }
            case 4: what = "signature-and-source"; t = c.s.substr(0, c.s.find("archive ") == std::string::npos ? 0 : c.s.find("archive ") + 8 + cx.rng.below(8)) + "\n" + other.text; break;
        }
        auto r = api::lexPtr(t);
        bool source = what[0] == 'p' || (what[0] == 's' && what[9] == '-');
        if (!source && r.p) cx.viol(std::string("invalid-accepted ") + what, t.substr(0, 200) + " text=" + g.text);
        if (!source && !r.p && (!r.err.set || r.err.msg.empty())) cx.viol("rejected-without-message", what);
        if (std::string(what) == "old-version" && !r.p && r.err.msg.find("ompile") == std::string::npos) cx.count("old_version_message_without_hint");
        {   // every entry point takes or rejects it alike, for the same reason
            std::string gm = "[ADDRESS]\n@a\n[a]\nNUMBER -> HOUSE -> 0.5\n", why = r.err.msg;
            auto p = api::parse("1 A", t, "en", "PUNCT"); auto m = api::match("1", gm, t, "en", "PUNCT"); auto s = api::stdz("1", gm, t, "en", "PUNCT");
            bool ok = r.p != nullptr;
            if (!p.null != ok || !m.null != ok || s.err.set == ok) cx.viol(std::string("entry-points-disagree ") + what, "load " + (ok ? std::string("accepts") : why) + ", parse " + p.err.msg + ", match " + m.err.msg + ", standardize " + s.err.msg + " text=" + t);
            else if (!ok && (p.err.msg != why || m.err.msg != why || s.err.msg != why)) cx.viol(std::string("reasons-disagree ") + what, "load " + why + ", parse " + p.err.msg + ", match " + m.err.msg + ", standardize " + s.err.msg + " text=" + t);
        }
        if (source && r.p) {       // taken as source text: the compiled part may not contribute
            LexHandle ref(cx, other.text);
            std::string da = ref.p ? sdump(*static_cast<Lexicon *>(ref.p)) : "";
            std::string a = gen::address(cx.rng, other, gen::AddrOpt()), b = gen::address(cx.rng, g, gen::AddrOpt());
            for (auto &x : {a, b}) {
                if (readingCount(filterToks(tokenize(other.lex, x, "en"), parseTypes("SPACE"))) > 32) continue;
                std::string p = api::show(api::parse(x, t, "en", "SPACE")), q = api::show(api::parse(x, other.text, "en", "SPACE"));
                if (p != q) cx.viol("compiled-part-changes-parse", p + "vs\n" + q + " address=" + x + " text=" + t);
            }
            cx.count("source_after_compiled_part");
            if (!sameDump(sdump(*static_cast<Lexicon *>(r.p)), da)) cx.viol(std::string("part-of-compiled-taken ") + what, sdump(*static_cast<Lexicon *>(r.p)) + "vs\n" + da + " text=" + t);
        }
        if (r.p) freeLexiconPtr(r.p);
        cx.count(std::string("invalid_") + what); cx.eval(true, "C12i" + t);
    }
    if (cx.idx % 97 == 0) cx.sample(std::to_string(g.lex.m.size()) + " words, compiled " + std::to_string(c.s.size()) + " bytes, digest " + ma);
}

// ------------------------------------------------------------------ C14
void case_C14(Ctx &cx) {
    gen::LexOpt o; o.maxEntries = 8; o.minEntries = 2;
    gen::GLex g = gen::lexicon(cx.rng, o);
    bool viaText = cx.rng.chance(50);
    Lexicon *sut = nullptr;
    void *handle = nullptr;
    Lex model;
    if (viaText) {
        // sometimes the edited lexicon was loaded, maybe from its compiled form
        std::string t = g.text;
        if (cx.rng.chance(40)) { auto c = api::compile(t); if (!c.null) { t = c.s; cx.count("edited_compiled"); } }
        handle = api::lexPtr(t).p;
        if (!handle) { cx.viol("not-loaded", g.text); return; }
        sut = static_cast<Lexicon *>(handle); model = g.lex;
    } else { sut = new Lexicon("x"); model.locale = ""; g.locale = ""; g.lex = Lex(); g.keys.clear(); }
    // a small pool of words and entries, so that inserts, repeats and removes collide
    std::vector<Entry> pool = g.entries;
    for (int i = 0; i < 6; ++i) pool.push_back(gen::entry(cx.rng, g, o));
    for (size_t i = 0, n = pool.size(); i < n; ++i) {       // near duplicates
        if (!cx.rng.chance(40)) continue;
        Entry e = pool[i];
        switch (cx.rng.below(4)) { case 0: e.std += "X"; break; case 1: e.types.insert(inCode("RR")); break; case 2: if (!e.att.insert(cx.rng.range(0, 3)).second) e.att.clear(); break; default: e.word += "A"; }
        pool.push_back(e);
    }
    bool many = cx.rng.chance(12);        // one word with many entries
    if (many) {
        Entry e = cx.rng.pick(pool); size_t n = (size_t)cx.rng.range(6, 40);
        pool.resize(std::min<size_t>(pool.size(), 3));
        for (size_t i = 0; i < n; ++i) { Entry x = gen::entry(cx.rng, g, o); x.word = e.word; if (cx.rng.chance(70)) x.std += std::to_string(i); pool.push_back(x); }
        cx.count("many_homonyms");
    }
    auto mk = [](const Entry &e) {
        std::string l = gen::entryLine(e).substr(10);       // fields only
        return LexEntry("LEXENTRY:\t" + l);
    };
    auto show = [](const std::vector<LexEntry> &v) { std::string s; for (auto &e : v) { std::ostringstream os; os << e; s += os.str() + "\n"; } return s; };
    auto mshow = [](const std::vector<Entry> *v) { std::string s; if (v) for (auto &e : *v) s += gen::entryLine(e) + "\n"; return s; };
    std::string hist;
    int steps = cx.rng.range(3, cx.thorough ? 40 : 24);
    if (many) steps += 50;
    auto current = [&](const Entry &e) {
        gen::GLex now = g; now.lex = model; now.lex.index(); now.keys.clear();
        for (auto &kv : model.m) now.keys.push_back(kv.first);
        if (now.keys.empty()) now.keys = {e.word};
        now.pre.assign(now.lex.pre.begin(), now.lex.pre.end()); now.suf.assign(now.lex.suf.begin(), now.lex.suf.end());
        return now;
    };
    // an address is parsed as with a lexicon made of just the current entries
    auto same = [&](const std::string &a) {
        model.index();
        Lexicon fresh("y"); fresh.locale(sut->locale());
        for (auto &kv : model.m) for (auto &x : kv.second) fresh.insert(mk(x));
        auto tk = filterToks(tokenize(model, a, "en"), parseTypes("PUNCT,SPACE"));
        if (readingCount(tk) > 16) return;
        std::string p = api::show(api::parseP(a, sut, "en", "PUNCT,SPACE")), q = api::show(api::parseP(a, &fresh, "en", "PUNCT,SPACE"));
        if (p != q) cx.viol("parse-not-current", p + "vs\n" + q + " address=" + a + " history=" + hist + (viaText ? " start=" + g.text : ""));
        cx.count("parses");
        hist += "p\n";
    };
    for (int i = 0; i < steps; ++i) {
        const Entry &e = cx.rng.pick(pool);
        int what = (int)cx.rng.below(100);
        if (what < (many ? 65 : 45)) { hist += "+" + gen::entryLine(e) + "\n"; sut->insert(mk(e)); auto *v = model.find(e.word); bool dup = false; if (v) for (auto &x : *v) if (x == e) dup = true; model.insert(e); cx.count(dup ? "repeated_inserts" : "inserts"); }
        else if (what < 80) { hist += "-" + gen::entryLine(e) + "\n"; auto *v = model.find(e.word); bool has = false; if (v) for (auto &x : *v) if (x == e) has = true; sut->remove(mk(e)); model.remove(e); cx.count(has ? "removes" : "absent_removes"); }
        else if (what < 88) { hist += "?" + e.word + "\n"; }
        else {
            // parse now and compare with a lexicon made of just the current entries
            gen::GLex now = current(e);
            same(gen::address(cx.rng, now) + " " + e.word + " " + e.word + "A");
        }
        // words with this one attached in front or behind: it may just have come or gone
        if (cx.rng.chance(what < 80 ? 30 : 10)) {
            same("QZQZQZ" + e.word + " " + e.word + "QZQZQZ");
            if (cx.rng.chance(30)) same(e.word);
            cx.count("affix_parses");
        }
        for (auto &x : pool) {
            if (x.word != e.word && !cx.rng.chance(10)) continue;
            std::string s = show(sut->find(x.word)), m = mshow(model.find(x.word));
            if (s != m) { cx.viol("lookup", "word=" + x.word + "\n" + s + "vs\n" + m + " history=" + hist + (viaText ? " start=" + g.text : "")); goto done; }
            cx.count("lookups");
        }
        if (cx.rng.chance(25)) {
            std::string d = sdump(*sut);
            if (!sameDump(d, mdump(model))) { cx.viol("dump", d + "vs\n" + mdump(model) + " history=" + hist + (viaText ? " start=" + g.text : "")); goto done; }
            cx.count("dumps");
        }
        // attachment rules: exactly the current attachable words
        if (cx.rng.chance(20)) {
            model.index();
            for (int sfx = 0; sfx < 2; ++sfx) {
                std::string re = sfx ? sut->regexSuffixAtt() : sut->regexPrefixAtt();
                const std::set<std::string> &want = sfx ? model.suf : model.pre;
                for (auto &x : pool) {
                    bool w = want.count(x.word) > 0;
                    // by behaviour: a stem that is no word, with the affix attached
                    std::string stem = "QZQZQZ", t = sfx ? stem + x.word : x.word + stem;
                    if (model.find(t) || U(dec(x.word)).size() < 1) continue;
                    bool plain = true; for (char32_t c : dec(x.word)) if (!isL(c)) plain = false;
                    if (!plain || !w) continue;
                    auto p = api::parseP(t, sut, "en", "");
                    auto v = pat0(p);
                    if (v.size() < 2) cx.viol("attachment-not-current", std::string(sfx ? "suffix " : "prefix ") + x.word + " history=" + hist + (viaText ? " start=" + g.text : ""));
                    cx.count("attachments");
                }
                (void)re;
            }
        }
    }
    cx.eval(true, "C14" + hist);
    if (cx.idx % 60 == 0) cx.sample(hist.substr(0, 200));
done:
    if (handle) freeLexiconPtr(handle); else delete sut;
}

// ------------------------------------------------------------------ C15
void case_C15_bytes(Ctx &cx);       // mod_trie.cpp: the trie of bytes
void case_C15(Ctx &cx) {
    static const std::vector<std::string> AL = {"a", "b", "A", "B", "0", "9", " ", "-", ".", "+", "*", "~", "$", "^", "(", ")", "{", "}", "[", "]", "\\", "|", "?", ",", "/", "#", "&", ":", "=", "<", ">", "\"", "'", "!", "%", "@", "`", ";", "_",
        "\t", "\n", "\xc3\xa9", "\xc3\x89", "\xc2\xa0", "\xcc\x81", "\xe4\xb8\xad", "\xe2\x80\x94", "\xf0\x90\x90\x80", "\xf4\x8f\xbf\xbd", "\xef\xbf\xbd", "\x01", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80"};
    case_C15_bytes(cx);
    for (int rep = 0; rep < 6; ++rep) {
        auto anyChar = [&]() {          // any scalar value, often a neighbour of the last one
            static thread_local char32_t last = 'a';
            char32_t c = cx.rng.chance(50) ? last + 1 : cx.rng.chance(50) ? (char32_t)cx.rng.range(0x21, 0x2fff) : (char32_t)cx.rng.range(0x3000, 0x10ffff);
            if (c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) c = 0x4e00;
            last = c;
            return enc(U(1, c));
        };
        size_t asz = (size_t)cx.rng.big(1, 6, 400);
        std::vector<std::string> a;
        for (size_t i = 0; i < asz; ++i) a.push_back(cx.rng.chance(25) ? AL[cx.rng.below(6)] : cx.rng.chance(asz > 6 ? 80 : 8) ? anyChar() : cx.rng.pick(AL));
        auto word = [&](int mx) { std::string s; int n = cx.rng.big(1, mx, 70, 2); for (int i = 0; i < n; ++i) s += cx.rng.pick(a); return s; };
        std::set<std::string> set;
        std::vector<std::string> order;
        int n = cx.rng.big(1, cx.rng.chance(20) ? 40 : 10, 500);
        for (int i = 0; i < n; ++i) { std::string w = word(cx.rng.range(1, 5)); order.push_back(w); if (cx.rng.chance(30)) order.push_back(w + word(2)); }
        TrieUtf8 t; size_t added = 0;
        std::set<std::string> cand;
        cand.insert("");
        auto checkMember = [&](const std::string &w) {
            bool in = set.count(w) > 0;
            if (t.isWord(w) != in && !w.empty()) { cx.viol("member", "'" + w + "' " + (in ? "missing" : "wrongly present")); }
            bool pf = w.empty();
            if (!pf) { auto it = set.lower_bound(w); pf = it != set.end() && it->compare(0, w.size(), w) == 0; }
            if (t.isPrefix(w) != pf) cx.viol("prefix", "'" + w + "' prefix=" + std::to_string(!pf));
            cx.count("member_tests");
        };
        std::string all;
        for (auto &w : order) {
            t.addWord(w); ++added; set.insert(w); all += w + "|";
            if (cx.rng.chance(10)) { t.addWord(w); ++added; }
            if (cx.rng.chance(30)) checkMember(w);
        }
        if (cx.rng.chance(10)) t.addWord("");
        for (auto &w : set) {
            cand.insert(w);
            U u = dec(w);
            for (size_t i = 1; i < u.size(); ++i) { cand.insert(enc(u.substr(0, i))); cand.insert(enc(u.substr(i))); }
            cand.insert(w + cx.rng.pick(a)); cand.insert(cx.rng.pick(a) + w); cand.insert(w + w);
            U x = u; x[cx.rng.below(x.size())] = dec(cx.rng.pick(AL))[0]; cand.insert(enc(x));
            if (u.size() > 1) { x = u; x.erase(x.begin() + (long)cx.rng.below(x.size())); cand.insert(enc(x)); }
            x = u; for (auto &c : x) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } cand.insert(enc(x));
        }
        for (int i = 0; i < 10; ++i) cand.insert(word(6));
        for (auto &w : a) cand.insert(w);
        if (cx.rng.chance(40)) for (auto &w : AL) cand.insert(w);
        for (auto &w : cand) checkMember(w);
        if (t.size() != added) cx.viol("size", std::to_string(t.size()) + " after adding " + std::to_string(added) + " words " + all);
        WordSet ws; t.getWords(ws);
        if (ws != set) cx.viol("enumeration", "words added " + all);
        for (auto &w : cand) {
            if (!cx.rng.chance(30)) continue;
            WordSet sw, want; t.getWordsStartingWith(w, sw);
            for (auto it = set.lower_bound(w); it != set.end() && it->compare(0, w.size(), w) == 0; ++it) want.insert(*it);
            if (sw != want) cx.viol("enumeration-by-prefix", "prefix '" + w + "' words added " + all);
            cx.count("prefix_enumerations");
        }
        std::string re = t.getRegexp();
        try {
            auto x = boost::make_u32regex(re);
            for (auto &w : cand) {
                bool m = boost::u32regex_match(w, x), in = set.count(w) > 0;
                if (m != in) { cx.viol(in ? "pattern-misses-word" : "pattern-matches-other", "'" + w + "' pattern " + re + " words added " + all); break; }
                cx.count(in ? "pattern_hits" : "pattern_rejects");
            }
        } catch (std::exception &e) { cx.viol("pattern-invalid", std::string(e.what()) + " pattern " + re + " words added " + all); }
        cx.eval(set.size() > 1, "C15" + all);
        if (cx.idx % 50 == 0 && rep == 0) cx.sample(std::to_string(set.size()) + " words, " + std::to_string(cand.size()) + " candidates, pattern " + re.substr(0, 100));
    }
}

// ------------------------------------------------------------------ C16
void case_C16(Ctx &cx) {
    // every scalar value, in slices
    const long SL = 0x110000 / 256;
    long s = cx.idx % 256;
    std::string all; U want;
    for (long c = s * SL; c < (s + 1) * SL; ++c) {
        if (c >= 0xd800 && c < 0xe000) continue;
        std::string e;
        try { e = CodePointToUtf8((char32_t)c); } catch (std::exception &x) { cx.viol("valid-rejected", std::to_string(c)); continue; }
        std::string w = enc(U(1, (char32_t)c));
        if (e != w) { cx.viol("encoding", "U+" + std::to_string(c)); break; }
        all += w; want += (char32_t)c;
        cx.count("code_points");
    }
    cx.eval(true, "slice" + std::to_string(s));
    for (int k = 0; k < 20; ++k) {
        unsigned long v = cx.rng.chance(40) ? 0x110000 + cx.rng.below(4) : 0x110000 + cx.rng.below(0xfffffffful - 0x110000);
        bool thrown = false;
        try { CodePointToUtf8((char32_t)v); } catch (std::exception &) { thrown = true; }
        if (!thrown) cx.viol("invalid-accepted", std::to_string(v));
        cx.count("invalid_code_points");
    }
    // walks
    for (int k = 0; k < 12; ++k) {
        U u;
        if (k == 0) u = want;
        else {
            int n = cx.rng.range(0, 40);
            for (int i = 0; i < n; ++i) {
                char32_t c = 0;
                switch (cx.rng.below(5)) { case 0: c = (char32_t)cx.rng.range(1, 0x7f); break; case 1: c = (char32_t)cx.rng.range(0x80, 0x7ff); break; case 2: c = (char32_t)cx.rng.range(0x800, 0xffff); break; case 3: c = (char32_t)cx.rng.range(0x10000, 0x10ffff); break;
                    default: { static const std::vector<int> B = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x40, 0xc0, 0x3f}; c = (char32_t)cx.rng.pick(B); } }
                if (c >= 0xd800 && c < 0xe000) c = 'x';
                u += c;
            }
        }
        const std::string str = enc(u);
        std::vector<size_t> off(1, 0);
        for (char32_t c : u) off.push_back(off.back() + enc(U(1, c)).size());
        std::string what = k == 0 ? "slice " + std::to_string(s) : str;
        auto pos = [&](const Utf8Iterator &i, size_t p) { return i == (str.begin() + (long)off[p]) && !(i != (str.begin() + (long)off[p])); };
        {   // forwards then backwards
            Utf8Iterator it(str.begin()), end(str.end());
            size_t p = 0; bool ok = true;
            while (it != end && p < u.size()) { if (*it != u[p]) { ok = false; break; } if (p % 2) ++it; else it++; ++p; if (!pos(it, p)) { ok = false; break; } }
            if (!ok || p != u.size() || !(it == end)) { cx.viol("forward", what + " at " + std::to_string(p)); continue; }
            while (p > 0) { if (p % 2) --it; else it--; --p; if (!pos(it, p) || *it != u[p]) { ok = false; break; } }
            if (!ok) { cx.viol("backward", what + " at " + std::to_string(p)); continue; }
            cx.count("full_walks");
        }
        if (!u.empty()) {   // mixed
            Utf8Iterator it(str.begin()); size_t p = 0;
            std::string path;
            for (int i = 0; i < 60; ++i) {
                bool fwd = p == 0 || (p < u.size() && cx.rng.chance(50));
                path += fwd ? '+' : '-';
                size_t was = p;
                if (cx.rng.chance(50)) { if (fwd) { ++it; ++p; } else { --it; --p; } }
                else {
                    Utf8Iterator old = fwd ? it++ : it--;
                    if (fwd) ++p; else --p;
                    if (!pos(old, was) || (was < u.size() && *old != u[was])) { cx.viol("postfix", what + " path " + path); break; }
                }
                if (!pos(it, p) || (p < u.size() && cx.rng.chance(70) && *it != u[p])) { cx.viol("mixed", what + " path " + path); break; }
                if (cx.rng.chance(20)) { Utf8Iterator cp(it); Utf8Iterator as(str.begin()); as = it; if (!(cp == it) || !(as == it) || (p < u.size() && (*cp != u[p] || *as != u[p]))) { cx.viol("copy", what + " path " + path); break; } }
                if (cx.rng.chance(20)) { size_t q = p + cx.rng.below(u.size() - p + 1); Utf8Iterator to(str.begin() + (long)off[q]); if (it.substr(to) != str.substr(off[p], off[q] - off[p])) { cx.viol("substr", what); break; } }
                cx.count("mixed_steps");
            }
        }
        cx.eval(u.size() > 1, "C16" + str);
        if (k == 1 && cx.idx % 90 == 0) cx.sample(str);
    }
}

// ------------------------------------------------------------------ C17
static std::string varyLex(Ctx &cx, const std::string &t, int how) {
    auto l = splitLines(t);
    std::string hdr = l.empty() ? "" : l[0];
    std::vector<std::string> e(l.begin() + 1, l.end());
    if (how & 8) {      // reorder lines of different words, keeping each word's lines in order
        std::map<std::string, std::vector<std::string>> by; std::vector<std::string> keys;
        for (auto &x : e) { auto p = x.find('\t'), q = x.find('\t', p + 1); std::string k = x.substr(p + 1, q - p - 1); by[k].push_back(x); keys.push_back(k); }
        for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[cx.rng.below(i)]);
        std::map<std::string, size_t> at; std::vector<std::string> r;
        for (auto &k : keys) r.push_back(by[k][at[k]++]);
        e = r;
    }
    if ((how & 16) && !e.empty()) for (int i = cx.rng.big(1, 3, 60); i > 0; --i) e.push_back(e[cx.rng.below(e.size())]);  // repeated lines
    std::string nl = (how & 2) ? "\r\n" : "\n", o = (how & 1) ? "\xEF\xBB\xBF" : "";
    if ((how & 4) && cx.rng.chance(30)) o += nl;
    o += hdr + nl;
    for (auto &x : e) { if ((how & 4) && cx.rng.chance(30)) o += nl; o += x + nl; }
    if ((how & 32)) { o.pop_back(); if ((how & 2) && cx.rng.chance(70)) o.pop_back(); }
    return o;
}
// every constructor reads the same text the same way
static void lexRoutes(Ctx &cx, const std::string &t, bool ok, const std::string &dump, const std::string &md5) {
    const char *sd = getenv("ASV_SCRATCH");
    std::string f = std::string(sd && *sd ? sd : "/tmp") + "/lex-" + std::to_string(getpid()) + ".lex";
    { std::ofstream o(f, std::ios::binary); o << t; }
    static const char *NAME[] = {"file", "stream", "text", "initialize", "initialize-again", "no-file"};
    for (int how = 0; how < 6; ++how) {
        bool got = true; std::string d, m, why;
        try {
            std::istringstream is(t);
            std::unique_ptr<Lexicon> l;
            if (how == 0) l.reset(new Lexicon("n", f));
            else if (how == 1) l.reset(new Lexicon("n", is));
            else if (how == 2) l.reset(new Lexicon(const_cast<char *>(t.c_str())));
            else if (how == 5) l.reset(new Lexicon("n", f + ".missing"));
            else {
                l.reset(new Lexicon("n"));
                if (how == 4) { std::istringstream other("LEXICON:\tq\tGER\tde\t1\nLEXENTRY:\tOTHERWORD\tOTHERSTD\tTYPE\tATT_SUF\n"); l->initialize(other); (void)l->regex(); (void)l->regexSuffixAtt(); }
                l->initialize(is);
            }
            d = sdump(*l); m = l->getMd5();
        } catch (std::exception &e) { got = false; why = e.what(); }
        cx.count(std::string("loaded_by_") + NAME[how]);
        if (how == 5) { if (got || why.empty()) cx.viol("missing-file-accepted", d); continue; }
        if (got != ok) { cx.viol(std::string("loads-differently-by-") + NAME[how], (got ? "accepted" : why) + " text=" + t); continue; }
        if (ok && d != dump) cx.viol(std::string("loads-differently-by-") + NAME[how], d + "vs\n" + dump + " text=" + t);
        if (ok && m != md5) cx.viol(std::string("digest-differs-by-") + NAME[how], m + " vs " + md5 + " text=" + t);
    }
    unlink(f.c_str());
}
void case_C17(Ctx &cx) {
    if (cx.idx % 2) {       // verdicts on broken texts
        static const std::vector<std::string> H = {"LEXICON:\tx\tENG\ten\t3", "LEXICON:\tx\tENG\ten\t3", "LEXICON:\tx\tGER\t\t0", "LEXICON:", "LEXICON:\tx", "LEXICON: x", "LEXICON", "Lexikon:\tx", "# lexicon", "\t"};
        static const std::vector<std::string> L = {"LEXENTRY:\tST\tSTREET\tTYPE\t", "LEXENTRY:\tST\tSTREET\tTYPE\tDET_SUF", "LEXENTRY:\tA\tA\tWORD,SINGLE\tATT_PRE,ATT_SUF", "LEXENTRY:\tA  B\tA    B\tWORD\t", "LEXENTRY:\tX\tX\t\t", "LEXENTRY:\tX", "LEXENTRY:",
            "LEXENTRY:\tN\tN\tNOSUCH\t", "LEXENTRY:\tN\tN\tWORD,NOSUCH\t", "LEXENTRY:\tN\tN\tWORD\tNOSUCH", "LEXENTRY:\tN\tN\tword\t", "LEXENTRY:\tN\tN\tBADTOKEN\t", "LEXENTRY:\tN\tN\tWORD TYPE\t", "LEXENTRY:\tN\tN\t WORD , TYPE \tATT_PRE , ATT_SUF", "ST\tSTREET\tTYPE\t", "# comment", "garbage", "",
            "LEXENTRY:\t\xc3\xa9t\x65\xcc\x81\t\xc3\xa9\tWORD\t", "LEXENTRYX\tA\tA\tWORD\t", " LEXENTRY:\tA\tA\tWORD\t", "LEXICON:\ty\tENG\ten\t1", "LEXENTRY:\tA\tA\tWORD\t\textra", "LEXENTRY:\t\tA\tWORD\t", " ", "\t"};
        for (int k = 0; k < 8; ++k) {
            std::string t;
            if (cx.rng.chance(10)) t += cx.rng.pick(L) + "\n";
            if (cx.rng.chance(5)) t += cx.rng.pick(L) + "\n";
            if (cx.rng.chance(90)) t += cx.rng.chance(70) ? H[cx.rng.below(3)] + "\n" : cx.rng.pick(H) + "\n";
            for (int i = cx.rng.big(0, 6, 90); i > 0; --i) t += (cx.rng.chance(75) ? L[cx.rng.below(5)] : cx.rng.pick(L)) + "\n";
            // lines whose meaning is not defined
            bool undef = t.find("LEXENTRY:\n") != std::string::npos || t.find("LEXICON: x") != std::string::npos;
            for (auto &x : splitLines(t)) if (x == " " || x == "\t" || (x.size() && x.find_first_not_of(" ") == std::string::npos)) undef = true;
            bool ok = true; std::string why; Lex m;
            try { m = loadLexicon(t); } catch (LoadError &e) { ok = false; why = e.what(); }
            auto r = api::lexPtr(t);
            if (undef) { if (r.p) freeLexiconPtr(r.p); cx.count("undefined_texts"); continue; }
            if (ok && !r.p) cx.viol("valid-rejected", r.err.msg + " text=" + t);
            if (!ok && r.p) cx.viol("invalid-accepted", why + " text=" + t);
            if (!r.p && (!r.err.set || r.err.msg.empty())) cx.viol("rejected-without-message", why + " text=" + t);
            if (ok && r.p && !sameDump(sdump(*static_cast<Lexicon *>(r.p)), mdump(m))) cx.viol("entries", sdump(*static_cast<Lexicon *>(r.p)) + "vs\n" + mdump(m) + " text=" + t);
            if (cx.rng.chance(15)) lexRoutes(cx, t, r.p != nullptr, r.p ? sdump(*static_cast<Lexicon *>(r.p)) : "", r.p ? static_cast<Lexicon *>(r.p)->getMd5() : "");
            if (r.p) freeLexiconPtr(r.p);
            // every way to load it gives the same verdict
            if (cx.rng.chance(40)) {
                auto p = api::parse("1 ST", t, "en", ""); auto c = api::compile(t);
                if (p.null == ok) cx.viol("parse-verdict", why + " text=" + t);
                if (c.null == ok) cx.viol("compile-verdict", why + " text=" + t);
                if ((p.null && p.err.msg.empty()) || (c.null && c.err.msg.empty())) cx.viol("rejected-without-message", why + " text=" + t);
            }
            cx.count(ok ? "accepted" : "rejected_" + why); cx.eval(!t.empty(), "C17" + t);
        }
        return;
    }
    gen::LexOpt o; o.maxEntries = 30;
    gen::GLex g = genLex(cx, o);
    std::string want = mdump(g.lex);
    std::vector<std::string> addrs, locs, ps;
    LexHandle h(cx, g.text);
    if (!h.p) return;
    Lexicon &L0 = *static_cast<Lexicon *>(h.p);
    if (!sameDump(sdump(L0), want)) cx.viol("entries", sdump(L0) + "vs\n" + want + " text=" + g.text);
    if (L0.locale() != g.lex.locale) cx.viol("locale", L0.locale() + " text=" + g.text.substr(0, 100));
    for (int k = 0; k < 2; ++k) {
        std::string loc, a = genAddr(cx, g, loc);
        if (readingCount(filterToks(tokenize(g.lex, a, loc), parseTypes("SPACE"))) > 32) continue;
        addrs.push_back(a); locs.push_back(loc); ps.push_back(api::show(api::parseP(a, h.p, loc, "SPACE")));
    }
    auto check = [&](const std::string &t, const std::string &tag) {
        auto r = api::lexPtr(t);
        if (!r.p) { cx.viol("variant-rejected", tag + ": " + r.err.msg + " text=" + t); return; }
        std::string hd, d = sdump(*static_cast<Lexicon *>(r.p), &hd);
        if (!sameDump(d, want)) cx.viol("variant-entries", tag + "\n" + d + "vs\n" + want + " text=" + t);
        std::string h0; sdump(L0, &h0);
        if (splitLines(hd).size() && tag != "dump" && hd != h0) cx.viol("variant-header", tag + ": " + hd + " vs " + h0);
        for (size_t i = 0; i < addrs.size(); ++i) {
            std::string p = api::show(api::parseP(addrs[i], r.p, locs[i], "SPACE"));
            if (p != ps[i]) cx.viol("variant-parses-differently", tag + " address=" + addrs[i] + "\n" + p + "vs\n" + ps[i] + " text=" + t);
        }
        freeLexiconPtr(r.p);
        cx.eval(true, "C17v" + t);
    };
    for (int k = 0; k < 5; ++k) {
        int how = k == 0 ? 2 : k == 1 ? 1 : k == 2 ? 8 : (int)cx.rng.range(1, 63);
        std::string tag = std::string(how & 1 ? "bom " : "") + (how & 2 ? "crlf " : "") + (how & 4 ? "blank-lines " : "") + (how & 8 ? "order " : "") + (how & 16 ? "repeats " : "") + (how & 32 ? "no-final-newline" : "");
        check(varyLex(cx, g.text, how), tag);
        cx.count("variants"); if (how & 1) cx.count("variants_bom"); if (how & 2) cx.count("variants_crlf"); if (how & 8) cx.count("variants_reordered");
    }
    if (cx.rng.chance(50)) lexRoutes(cx, g.text, true, sdump(L0), L0.getMd5());
    std::ostringstream os; os << L0;
    check(os.str(), "dump");
    cx.count("dumps");
    if (cx.idx % 90 == 0) cx.sample(os.str().substr(0, 200));
}

// ------------------------------------------------------------------ C19
static const char *LANGS[] = {"ALB","ARA","BAQ","BEL","BET","BEX","BOS","BOX","BUL","BUT","BUX","CAT","CHI","CHT","CZE","CZX","DAN","DUT","ENG","EST","ESX","FIN","FRE","GER","GLG","GRE","GRN","GRT","GRX","HEB","HUN","HUX","IND","ITA","KOR","KOX","LAV","LAX","LIT","LIX","MAC","MAT","MAY","MLT","MLX","MNE","MNX","MOL","MOX","NOR","POL","POR","POX","PYN","RMX","RST","RUM","RUS","RUX","SCR","SCT","SCX","SIX","SLO","SLV","SLX","SPA","SRB","SRX","SWE","THA","TKT","TUR","TUX","UKR","UKT","UKX","WEL"};
static const size_t NLANG = sizeof LANGS / sizeof *LANGS;
void case_C19(Ctx &cx) {
    if (cx.idx == 0 || cx.idx % 64 == 0) {      // everything that can be enumerated
        std::set<std::string> seen;
        for (auto &x : IN) {
            if (x.code == 99) continue;
            auto t = (InClass::Type)x.code;
            if (InClass::asString(t) != x.name) cx.viol("input-class-name", std::string(x.name) + " is " + InClass::asString(t));
            if (InClass::asOneType(x.name) != t) cx.viol("input-class-code", x.name);
            if (InClass::asType(x.code) != t) cx.viol("input-class-from-number", x.name);
            auto s = InClass::asType(std::string(x.name));
            if (s.size() != 1 || *s.begin() != t) cx.viol("input-class-list", x.name);
            if (!seen.insert(InClass::asString(t)).second) cx.viol("input-class-name-not-unique", x.name);
            cx.count("input_classes"); cx.eval(true, std::string("in") + x.name);
        }
        seen.clear();
        for (auto &x : OUT) {
            if (x.code == 99) continue;
            auto t = (OutClass::Type)x.code;
            if (OutClass::asString(t) != x.name) cx.viol("output-class-name", std::string(x.name) + " is " + OutClass::asString(t));
            if (OutClass::asType(std::string(x.name)) != t) cx.viol("output-class-code", x.name);
            if (OutClass::asType(x.code) != t) cx.viol("output-class-from-number", x.name);
            if (!seen.insert(OutClass::asString(t)).second) cx.viol("output-class-name-not-unique", x.name);
            cx.count("output_classes"); cx.eval(true, std::string("out") + x.name);
        }
        for (int i = -50; i < 300; ++i) {
            bool in = false, out = false;
            for (auto &x : IN) if (x.code == i) in = true;
            for (auto &x : OUT) if (x.code == i) out = true;
            if (!in && InClass::asType(i) != InClass::BADTOKEN) cx.viol("input-class-unknown-number", std::to_string(i));
            if (!out && OutClass::asType(i) != OutClass::BADTOKEN) cx.viol("output-class-unknown-number", std::to_string(i));
        }
        for (auto &x : ATT) {
            auto t = (InClass::AttachType)x.code;
            if (InClass::asString(t) != x.name) cx.viol("attachment-name", x.name);
            auto s = InClass::asAttachType(std::string(x.name));
            if (s.size() != 1 || *s.begin() != t) cx.viol("attachment-list", x.name);
            cx.count("attachments"); cx.eval(true, std::string("att") + x.name);
        }
        std::set<std::string> names;
        for (size_t i = 0; i < NLANG; ++i) {
            auto l = (InClass::Lang)(int)i;
            if (InClass::asString(l) != LANGS[i]) cx.viol("language-code", std::string(LANGS[i]) + " is " + InClass::asString(l));
            if (InClass::asLang(LANGS[i]) != l) cx.viol("language-from-code", LANGS[i]);
            std::string nm = InClass::asName(l);
            if (nm.empty() || !names.insert(nm).second) cx.viol("language-name-not-unique", LANGS[i]);
            if (InClass::asLang(nm) != l) cx.viol("language-from-name", nm);
            // through a lexicon header and its dump
            std::istringstream is(std::string("LEXICON:\tx\t") + LANGS[i] + "\ten\t0\n");
            Lexicon lx("x", is);
            if (lx.lang() != l || lx.langAsString() != LANGS[i] || lx.langAsName() != nm) cx.viol("language-of-lexicon", LANGS[i]);
            cx.count("languages"); cx.eval(true, std::string("lang") + LANGS[i]);
        }
        if (InClass::asString(InClass::UNKNOWN) != "UNKNOWN" || InClass::asLang("UNKNOWN") != InClass::UNKNOWN) cx.viol("language-unknown", "");
        if (InClass::asString(InClass::BADTOKEN) != "BADTOKEN" || OutClass::asString(OutClass::BADTOKEN) != "BADTOKEN") cx.viol("bad-token-name", "");
        if (InClass::asOneType("BADTOKEN") != InClass::BADTOKEN || OutClass::asType("BADTOKEN") != OutClass::BADTOKEN) cx.viol("bad-token-code", "");
    }
    // unknown names
    static const std::vector<std::string> EX = {"", " ", "word", "Word", "WORD ", " WORD", "WORDS", "WOR", "STREETS", "street", "NUMBER1", "0", "-1", "99", "\xc3\x89", "BAD", "UNKNOWN", "IN", "DETACHED"};
    for (int k = 0; k < 30; ++k) {
        std::string s = cx.rng.chance(40) ? cx.rng.pick(EX) : "";
        if (s.empty() && cx.rng.chance(90)) {
            s = cx.rng.chance(50) ? std::string(IN[cx.rng.below(IN.size())].name) : cx.rng.chance(50) ? std::string(OUT[cx.rng.below(OUT.size())].name) : std::string(LANGS[cx.rng.below(NLANG)]);
            switch (cx.rng.below(5)) { case 0: s += (char)('A' + cx.rng.below(26)); break; case 1: s.pop_back(); break; case 2: s[cx.rng.below(s.size())] = (char)('A' + cx.rng.below(26)); break; case 3: s = s.substr(1); break; default: if (cx.rng.chance(50)) std::swap(s[0], s[s.size() - 1]); }
        }
        if ((int)InClass::asOneType(s) != inCode(s)) cx.viol("input-class-of-name", "'" + s + "' is " + std::to_string((int)InClass::asOneType(s)));
        if ((int)OutClass::asType(s) != outCode(s)) cx.viol("output-class-of-name", "'" + s + "' is " + std::to_string((int)OutClass::asType(s)));
        int wl = -1; for (size_t i = 0; i < NLANG; ++i) if (s == LANGS[i] || s == InClass::asName((InClass::Lang)(int)i)) wl = (int)i;
        if ((int)InClass::asLang(s) != wl) cx.viol("language-of-name", "'" + s + "' is " + std::to_string((int)InClass::asLang(s)));
        cx.count("names"); cx.eval(true, "n" + s);
    }
    // sets and lists
    for (int k = 0; k < 20; ++k) {
        std::set<InClass::Type> s; std::set<InClass::AttachType> a;
        int n = cx.rng.big(0, 8, 90, 8);
        for (int i = 0; i < n; ++i) s.insert((InClass::Type)IN[cx.rng.below(IN.size())].code);
        for (int i = cx.rng.range(0, 4); i > 0; --i) a.insert((InClass::AttachType)cx.rng.range(0, 3));
        if (cx.rng.chance(70)) s.erase(InClass::BADTOKEN);
        std::string str = InClass::asString(s), as = InClass::asString(a);
        if (InClass::asType(str) != s) cx.viol("set-round-trip", str);
        if (InClass::asAttachType(as) != a) cx.viol("attachment-set-round-trip", as);
        std::set<int> ps = parseTypes(str); std::set<int> want; for (auto t : s) want.insert((int)t);
        if (ps != want) cx.viol("set-names", str);
        // any order, repetition and spacing
        std::vector<std::string> l; for (auto t : s) l.push_back(InClass::asString(t));
        if (!l.empty() && cx.rng.chance(40)) l.push_back(cx.rng.pick(l));
        for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[cx.rng.below(i)]);
        std::string t;
        for (size_t i = 0; i < l.size(); ++i) t += (i ? "," : "") + std::string(cx.rng.below(3), ' ') + l[i] + std::string(cx.rng.below(3), ' ');
        if (InClass::asType(t) != s) cx.viol("list", "'" + t + "'");
        cx.count("sets"); cx.eval(s.size() > 1, "s" + str + t);
        if (cx.idx % 70 == 0 && k == 0) cx.sample(t);
    }
}

// ------------------------------------------------------------------ C20
void case_C20(Ctx &cx) {
    if (cx.idx == 3) {      // the bit counter passes 2^32
        static const struct { unsigned long n; const char *d; } BIG[] = {{(1ul << 29) + 77, "8b4a2365d46e1741670d69af8aeab34a"}, {(1ul << 29) - 1, "c6c4834a7b0928878ad48c867a1e24d6"}};
        for (auto &b : BIG) {
            std::string z(1 << 24, '\0');
            MD5 m; unsigned long left = b.n;
            while (left) { unsigned long k = std::min<unsigned long>(left, z.size()); m.update(z.data(), (MD5::size_type)k); left -= k; }
            if (m.finalize().hexdigest() != b.d) cx.viol("digest-of-long-input", std::to_string(b.n) + " zero bytes");
            cx.count("inputs_of_512_MB"); cx.eval(true, "big" + std::to_string(b.n));
        }
        std::string z((1ul << 29) + 77, '\0');
        if (md5(z) != BIG[0].d) cx.viol("digest-of-long-input", "one piece of 2^29+77 zero bytes");
    }
    for (int k = 0; k < 24; ++k) {
        size_t n;
        switch (cx.rng.below(5)) { case 0: n = cx.rng.below(10); break; case 1: n = 50 + cx.rng.below(20); break; case 2: n = 115 + cx.rng.below(20); break; case 3: n = 64 * cx.rng.below(9) + cx.rng.below(3) + 0; break; default: n = cx.rng.below(2000); }
        if (k == 0) n = (size_t)(cx.idx % 300);     // every length below 300
        std::string s;
        bool text = cx.rng.chance(50);
        for (size_t i = 0; i < n; ++i) s += text ? (char)cx.rng.range(1, 255) : (char)cx.rng.below(256);
        std::string want = md5hex(s);
        std::string hexs; { char b[4]; for (unsigned char c : s.substr(0, 300)) { snprintf(b, sizeof b, "%02x", c); hexs += b; } }
        if (md5(s) != want) cx.viol("digest", "length " + std::to_string(n) + " bytes " + hexs);
        MD5 one(s);
        if (one.hexdigest() != want) cx.viol("digest-class", "length " + std::to_string(n) + " bytes " + hexs);
        std::ostringstream os; os << one; if (os.str() != want) cx.viol("digest-printed", hexs);
        for (int v = 0; v < 3; ++v) {
            MD5 m; size_t p = 0; std::string cuts;
            while (p < n || cx.rng.chance(20)) {
                size_t c = std::min(n - p, (size_t)(v == 0 ? 1 + cx.rng.below(3) : v == 1 ? cx.rng.below(130) : 64 * cx.rng.below(3) + (cx.rng.chance(50) ? 0 : cx.rng.below(64))));
                cuts += std::to_string(c) + ",";
                if (cx.rng.chance(50)) m.update(s.data() + p, (MD5::size_type)c); else m.update(reinterpret_cast<const unsigned char *>(s.data()) + p, (MD5::size_type)c);
                p += c;
            }
            m.finalize();
            std::string h = m.hexdigest(); m.finalize();
            if (h != want || m.hexdigest() != want) cx.viol("digest-of-pieces", "length " + std::to_string(n) + " pieces " + cuts + " bytes " + hexs);
            cx.count("partitions"); cx.eval(n > 0, "p" + cuts + want);
        }
        std::string z = s.substr(0, s.find('\0'));
        if (api::md5(z) != md5hex(z)) cx.viol("digest-c-api", hexs);
        cx.count("texts"); cx.maxof("length", (long)n);
        if (k == 0 && cx.idx % 150 == 0) cx.sample(std::to_string(n) + " bytes: " + want);
    }
    // digests of lexicons and grammars
    gen::LexOpt o; o.minEntries = 1; o.maxEntries = 8;
    gen::GLex g = gen::lexicon(cx.rng, o);
    auto lmd = [&](const std::string &t) { auto r = api::lexPtr(t); if (!r.p) return std::string("rejected"); std::string s = api::takeStr(getLexiconMd5(r.p)); freeLexiconPtr(r.p); return s; };
    auto gmd = [&](const std::string &t) { auto r = api::gmrPtr(t); if (!r.p) return std::string("rejected"); std::string s = api::takeStr(getGrammarMd5(r.p)); freeGrammarPtr(r.p); return s; };
    auto hex = [](const std::string &s) { return s.size() == 32 && s.find_first_not_of("0123456789abcdef") == std::string::npos; };
    if (cx.rng.chance(30)) {    // lines before the header count, too
        std::string pre;
        for (int i = cx.rng.range(1, 3); i > 0; --i) pre += (cx.rng.chance(20) ? std::string() : "# note " + std::to_string(cx.rng.below(1000))) + "\n";
        g.text = pre + g.text; cx.count("lexicons_with_preamble");
    }
    std::string a = lmd(g.text);
    if (!hex(a)) cx.viol("lexicon-digest-malformed", a + " text=" + g.text);
    if (lmd(g.text) != a) cx.viol("lexicon-digest-changes", g.text);
    std::string gt = "[ADDRESS]\n@a @b\n@b\n\n[a]\nNUMBER -> HOUSE -> 0.5\nNUMBER WORD -> HOUSE STREET -> 0.25\n[b]\nWORD -> STREET -> 0.75\n";
    if (cx.rng.chance(60)) { gt += "DIRECT -> PREDIR -> 0." + std::to_string(1 + cx.rng.below(999)) + "\n"; }
    std::string ga = gmd(gt);
    if (!hex(ga)) cx.viol("grammar-digest-malformed", ga + " text=" + gt);
    if (gmd(gt) != ga) cx.viol("grammar-digest-changes", gt);
    for (int k = 0; k < 4; ++k) {
        std::string t = g.text;     // change one line
        auto l = splitLines(t);
        size_t i = cx.rng.below(l.size());
        if (l[i].compare(0, 8, "LEXENTRY") && l[i].compare(0, 8, "LEXICON:")) l[i] += cx.rng.chance(50) ? "# another note" : " ";
        else
        switch (cx.rng.below(4)) { case 0: { auto p = l[i].find('\t'); l[i].insert(p == std::string::npos ? 0 : p + 1, "Q"); break; } case 1: if (i > 0) l.erase(l.begin() + (long)i); else l[0] = "LEXICON:\tother\tENG\ten\t1"; break; case 2: l.push_back("LEXENTRY:\tQQ\tQQ\tWORD\t"); break; default: if (i + 2 < l.size() && i > 0) std::swap(l[i], l[i + 1]); else l.push_back("LEXENTRY:\tQR\tQR\tWORD\t"); }
        t.clear(); for (auto &x : l) t += x + "\n";
        if (t != g.text) { std::string b = lmd(t); if (b == a) cx.viol("lexicon-digest-collides", t + "vs\n" + g.text); cx.count("lexicon_changes"); }
        std::string u = gt;
        l = splitLines(u); i = cx.rng.below(l.size());
        switch (cx.rng.below(3)) { case 0: { auto p = l[i].find("0."); if (p != std::string::npos) l[i].insert(p + 2, "1"); else l.push_back("# c"); break; } case 1: l.insert(l.begin() + (long)i, "# note " + std::to_string(cx.rng.below(1000))); break; default: l.push_back("PROV -> PROV -> 0.5"); }
        u.clear(); for (auto &x : l) u += x + "\n";
        if (u != gt) { std::string b = gmd(u); if (b == ga) cx.viol("grammar-digest-collides", u + "vs\n" + gt); cx.count("grammar_changes"); }
        cx.eval(true, "d" + t + u);
    }
}
