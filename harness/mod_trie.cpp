// C15: the trie of bytes (its ChildMap clashes with the one of TrieUtf8, so it
// needs a translation unit of its own).
#include "runner.h"
#include "trie.h"
#include <boost/regex.hpp>

void case_C15_bytes(Ctx &cx) {
    static const std::string SP = "-.+*~$^(){}[]\\|?,/#&:=<>\"'!%@`;_";
    for (int rep = 0; rep < 2; ++rep) {
        std::string a = "ab";
        for (int i = cx.rng.big(0, 5, 150); i > 0; --i) a += cx.rng.chance(60) ? SP[cx.rng.below(SP.size())] : (char)cx.rng.range(1, 255);
        auto word = [&](int mx) { std::string s; for (int i = cx.rng.big(1, mx, 70, 2); i > 0; --i) s += a[cx.rng.below(a.size())]; return s; };
        Trie t; std::set<std::string> set, cand; size_t added = 0; std::string all;
        for (int i = cx.rng.big(1, cx.rng.chance(20) ? 30 : 8, 400); i > 0; --i) {
            std::string w = word(5);
            for (int k = cx.rng.chance(15) ? 2 : 1; k > 0; --k) { t.addWord(w); ++added; }
            set.insert(w); all += w + "|";
            if (cx.rng.chance(40)) { w = w.substr(0, 1 + cx.rng.below(w.size())); t.addWord(w); ++added; set.insert(w); all += w + "|"; }
        }
        for (auto &w : set) {
            for (size_t i = 1; i <= w.size(); ++i) { cand.insert(w.substr(0, i)); cand.insert(w.substr(i - 1)); }
            cand.insert(w + a[cx.rng.below(a.size())]); cand.insert(w + w);
            std::string x = w; x[cx.rng.below(x.size())] = (char)cx.rng.range(1, 255); cand.insert(x);
        }
        for (int i = 0; i < 10; ++i) cand.insert(word(6));
        for (char c : SP) cand.insert(std::string(1, c));
        if (t.size() != added) cx.viol("bytes-size", std::to_string(t.size()) + " after adding " + std::to_string(added) + " words " + all);
        WordSet ws; t.getWords(ws);
        if (ws != set) cx.viol("bytes-enumeration", "words added " + all);
        auto under = [&](const std::string &p) { WordSet r; for (auto it = set.lower_bound(p); it != set.end() && it->compare(0, p.size(), p) == 0; ++it) r.insert(*it); return r; };
        std::string re = t.getRegexp();
        bool valid = true;
        boost::regex x;
        try { x = boost::regex(re); } catch (std::exception &e) { valid = false; cx.viol("bytes-pattern-invalid", std::string(e.what()) + " pattern " + re + " words added " + all); }
        for (auto &w : cand) {
            bool in = set.count(w) > 0;
            WordSet want = under(w), got;
            if (t.isWord(w) != in) cx.viol("bytes-member", "'" + w + "' " + (in ? "missing" : "wrongly present") + " words added " + all);
            if (t.isPrefix(w) != !want.empty()) cx.viol("bytes-prefix", "'" + w + "' words added " + all);
            t.getWordsStartingWith(w, got);
            if (got != want) cx.viol("bytes-enumeration-by-prefix", "prefix '" + w + "' words added " + all);
            if (valid && boost::regex_match(w, x) != in) { cx.viol(in ? "bytes-pattern-misses-word" : "bytes-pattern-matches-other", "'" + w + "' pattern " + re + " words added " + all); break; }
            cx.count("byte_words_tested");
        }
    }
}
