// Independent reference model of the address standardizer: what the documented
// behaviour is, computed without any code of the library under test.
#pragma once
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {

typedef std::u32string U;
U dec(const std::string &s);                    // UTF-8 -> code points (ICU replacement rules)
std::string enc(const U &u);
std::string nfc(const std::string &s);
std::string nfd(const std::string &s);
std::string upper(const std::string &s, const std::string &locale);
std::string lower(const std::string &s);

// character classes
bool isL(char32_t c);       // letter
bool isNd(char32_t c);      // decimal digit
bool isP(char32_t c);       // punctuation
bool isSpace(char32_t c);   // blank
bool isWord(char32_t c);    // word character (letter, digit, Mn, underscore)
bool isSep(char32_t c);     // may be in a separator run

// names and codes of the classes, from the documentation
struct NameCode { const char *name; int code; };
extern const std::vector<NameCode> IN, OUT, ATT;
const char *inName(int code);
const char *outName(int code);
int inCode(const std::string &name);    // unknown -> 99
int outCode(const std::string &name);
std::set<int> parseTypes(const std::string &list);
std::set<int> parseAtt(const std::string &list);

struct Entry {
    std::string word, std;
    std::set<int> types, att;
    bool operator==(const Entry &o) const { return word == o.word && std == o.std && types == o.types && att == o.att; }
};

struct Node { std::map<char32_t, int> kids; bool end = false; };

struct LoadError : std::runtime_error { LoadError(const std::string &k) : std::runtime_error(k) {} };

struct Lex {
    std::string lang, locale;
    std::map<std::string, std::vector<Entry>> m;
    bool dirty = true;
    // trie over case-folded words
    std::vector<Node> trie;
    std::set<std::string> pre, suf;
    size_t maxlen = 0;
    void insert(const Entry &e);
    void remove(const Entry &e);
    void index();
    const std::vector<Entry> *find(const std::string &w) const;
};
Lex loadLexicon(const std::string &text);       // throws LoadError(kind)

struct Tok {
    std::string text;
    std::set<int> cls;
    bool inlex = false;
    bool sep = false;
    bool operator==(const Tok &o) const { return text == o.text && cls == o.cls; }
};
struct Features {       // what one tokenization exercised
    long lexHit = 0, lexMulti = 0, lexBacktrack = 0, split = 0, mixedSplit = 0, seps = 0, truncated = 0, lineStart = 0;
    long shape[12] = {0};
};
void classify(const Lex &lx, Tok &t, int dflt);
std::vector<Tok> splitToken(const Lex &lx, const Tok &t, Features *f = nullptr);
// the normalized upper-cased text and the raw words and separators found in it
struct Piece { std::string text; bool sep; };
std::string normalized(const Lex &lx, const std::string &address, const std::string &locale);
std::vector<Piece> scan(Lex &lx, const std::string &address, const std::string &locale, Features *f = nullptr);
std::vector<Tok> tokenize(Lex &lx, const std::string &address, const std::string &locale, Features *f = nullptr);
std::vector<Tok> filterToks(const std::vector<Tok> &v, const std::set<int> &flt);
bool multiWord(const Tok &t);
std::vector<std::string> words(const std::string &s);
// all readings, the kept phrase first; empty result if more than cap readings
std::vector<std::vector<Tok>> readings(const Lex &lx, const std::vector<Tok> &kept, size_t cap);

struct GRule { std::vector<int> in, out; float score; };
struct Section { std::string name; bool meta; std::vector<std::vector<std::string>> metas; std::vector<GRule> rules; };
struct Gram {
    std::vector<Section> sec;
    std::map<std::string, int> idx;
    bool warn = false;
};
bool parseRule(const std::string &line, GRule &r);
Gram loadGrammar(const std::string &text);      // throws LoadError(kind)

struct Deriv {
    size_t phrase;              // reading
    std::vector<int> cls;       // chosen class per token
    std::vector<const GRule *> rules;
    double mean() const;
    std::string pattern() const;
};
// false when the budget was exceeded
bool derivations(const Gram &g, const std::vector<std::vector<Tok>> &phr, size_t maxDeriv, size_t maxSteps, std::vector<Deriv> &out);

// the 16 fields and the pattern; present[i] tells NULL from text
struct Std { std::string f[17]; bool has[17]; bool operator==(const Std &o) const; std::string show() const; };
Std assemble(const Lex &lx, const std::vector<Tok> &phrase, const Deriv &d);
extern const char *FIELD[17];

std::string md5hex(const std::string &s);       // straight RFC 1321
}
