// Workload generators: lexicons, addresses, grammars, filters, locales.
#pragma once
#include "model.h"
#include "runner.h"

namespace gen {

struct LexOpt {
    bool special = true;        // words with regex-special characters
    bool unicode = true;
    bool multi = true;          // multi-word entries
    bool attach = true;
    int minEntries = 1, maxEntries = 24;
    bool allowEmpty = true;
};
struct GLex {
    std::string text;           // source text
    ref::Lex lex;               // the same, loaded by the model
    std::vector<std::string> keys, pre, suf, stems;
    std::string locale;
    int profile = 0, homonyms = 25;
    std::string name, lang;
    std::vector<ref::Entry> entries;
};
GLex lexicon(Rng &r, const LexOpt &o = LexOpt());
std::string entryLine(const ref::Entry &e);
ref::Entry entry(Rng &r, GLex &g, const LexOpt &o);
std::string lexText(const GLex &g, const std::vector<ref::Entry> &e);

struct AddrOpt { int minItems = 1, maxItems = 9; bool newlines = true; bool wild = false; int spacePct = 60; bool vast = false; };
std::string address(Rng &r, const GLex &g, const AddrOpt &o = AddrOpt());
std::string recase(Rng &r, const std::string &s);       // case / composition variants
// another text of the same length: a letter of a standard, a score digit or a
// class name differs somewhere
std::vector<ref::Entry> sameLengthLexicon(Rng &r, std::vector<ref::Entry> e);
std::string sameLengthGrammar(Rng &r, const std::string &g);
std::string filter(Rng &r);
std::string locale(Rng &r);
// only letters, digits, blanks, punctuation; starts with letter or digit (after normalization)
bool covered(const std::string &addr, const std::string &locale, const std::string &lexLocale);

struct GGram { std::string text; ref::Gram g; };
// a grammar built around the class combinations of these readings
GGram grammar(Rng &r, const std::vector<std::vector<ref::Tok>> &readings);

// raw byte strings
std::string bytes(Rng &r, size_t max);
std::string mutate(Rng &r, std::string s);

// sample data shipped with the repository
struct Sample { std::string country, lex, gmr; };
const std::vector<Sample> &samples();           // loaded once from $ASV_REPO/data/sample
const std::vector<std::string> &sampleAddresses();
std::string rdfile(const std::string &p);
std::string repo();
}
