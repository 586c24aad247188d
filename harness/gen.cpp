#include "gen.h"
#include <cstring>
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <sstream>

namespace gen {

static const std::vector<std::string> COMMON = {
    "ST", "STREET", "STR", "AVE", "AVENUE", "RD", "ROAD", "N", "NORTH", "NE", "S", "E", "W", "SW", "SAINT", "MAIN", "OLD", "NEW",
    "LN", "LANE", "CT", "COURT", "PL", "BLVD", "HWY", "US", "I", "RTE", "RR", "BOX", "PO BOX", "P.O. BOX", "P O BOX", "APT", "UNIT",
    "STE", "FL", "BLDG", "CO-OP", "THE", "OF", "DE", "LA", "DE LA", "LOS ANGELES", "NEW YORK", "NEW YORK CITY", "NY", "CA", "MA",
    "NORTH CHELMSFORD", "CHELMSFORD", "USA", "UNITED STATES", "FIRST", "1ST", "2ND", "MT", "MOUNT", "O'BRIEN", "ST. JOHN", "ST JOHN",
    "MAIN ST", "MAIN STREET", "POINT PARK", "PARK", "PARKWAY", "PK", "10TH", "3/4", "A", "B", "AA", "AB", "ABC", "ABCD", "AUTO", "AUTOROUTE"};
static const std::vector<std::string> SPECIALW = {
    "#", "NO.", "N.", "C/O", "A&B", "(REAR)", "X^Y", "^", "A{2}", "{", "}", "A+", "A*B", "[A]", "A|B", "A\\B", "$5", "A?", "~A", "A_B",
    "&", "@", "/", "-", "--", "A-", "A-B", ".", "..", ",", "A.B.", "A.B", "\xe2\x80\x94", "A\xe2\x80\x94", "'S", "\"Q\"", "1^2", "\xc2\xb0", "N\xc2\xb0", "=", "<A>", "`", "%", "A%", ":", ";", "!", "\xc2\xbf"};
static const std::vector<std::string> UNI = {
    "\xc3\x89TOILE", "\xc3\x9cNTERE", "STRASSE", "STRA\xc3\x9f" "E", "\xc3\x91UBLE", "\xc4\xb0STANBUL", "DIYARBAK\xc4\xb1R", "\xc5\x92UVRE", "\xc3\x85SEN",
    "\xd0\xa3\xd0\x9b\xd0\x98\xd0\xa6\xd0\x90", "\xd0\xa3\xd0\x9b", "\xce\x9f\xce\x94\xce\x9f\xce\xa3", "\xe4\xb8\xad\xe5\xb1\xb1", "\xe8\xb7\xaf", "\xf0\x90\x90\x80\xf0\x90\x90\x81", "\xf0\xa0\x80\x80",
    "\xed\x95\x9c\xea\xb5\xad", "\xd8\xb4\xd8\xa7\xd8\xb1\xd8\xb9", "\xc3\x8eLE", "\xe1\xba\xb8", "\xc7\x85UR", "\xef\xac\x81N", "\xc3\x86", "\xc3\xa9", "\xc3\x89"};
static const std::vector<std::string> USEIN = {
    "NUMBER","WORD","TYPE","QUALIF","ROAD","STOPWORD","RR","DASH","CITY","PROV","NATION","AMPERS","BOXH","ORD","UNITH","UNITT","SINGLE","BUILDH",
    "MILE","DOUBLE","DIRECT","MIXED","BUILDT","FRACT","PCT","PCH","QUINT","QUAD","PUNCT","SPACE","PLACEN","EMDASH","SLASH","ATSIGN","COMMA","STOP"};
static const std::vector<std::string> USEOUT = {
    "BLDNG","HOUSE","PREDIR","QUALIF","PRETYP","STREET","SUFTYP","SUFDIR","RR","EXTRA","CITY","PROV","NATION","POSTAL","BOXH","BOXT","UNITH","UNITT","IGNORE","STOP"};

static std::string smallWord(Rng &r, int profile, int maxlen = 5) {
    static const std::vector<std::string> A0 = {"A", "B", "C"};
    static const std::vector<std::string> A1 = {"A", "B", "E", "N", "S", "T", "R", "O"};
    static const std::vector<std::string> A2 = {"\xc3\x89", "\xc3\x84", "A", "S", "\xc3\x9c", "\xc4\xb0", "I", "\xc3\x98"};
    static const std::vector<std::string> A3 = {"\xd0\x90", "\xd0\x91", "\xd0\xaf", "\xd0\x9f"};
    static const std::vector<std::string> A4 = {"\xe4\xb8\xad", "\xe5\xb1\xb1", "\xe8\xb7\xaf", "\xf0\xa0\x80\x80", "\xf0\x90\x90\x80"};
    const std::vector<std::string> &a = profile == 0 ? A0 : profile == 1 ? A1 : profile == 2 ? A2 : profile == 3 ? A3 : A4;
    std::string s;
    int n = r.range(1, maxlen);
    for (int i = 0; i < n; ++i) s += r.pick(a);
    return s;
}

static std::string oneWord(Rng &r, const GLex &g, const LexOpt &o) {
    int k = (int)r.below(100);
    if (o.minEntries != o.maxEntries && r.below(300) == 0) return smallWord(r, g.profile, 240) + smallWord(r, g.profile, 40);      // very long
    if (o.special && k < 10) return r.pick(SPECIALW);
    if (o.unicode && k < 20) return r.pick(UNI);
    if (k < 45) return r.pick(COMMON);
    if (!g.keys.empty() && k < 60) {           // share a prefix / suffix with an existing word
        const std::string &b = r.pick(g.keys);
        switch (r.below(3)) {
            case 0: return b + smallWord(r, g.profile, 2);
            case 1: return smallWord(r, g.profile, 2) + b;
            default: { auto u = ref::dec(b); if (u.size() > 1) { auto x = ref::enc(u.substr(0, 1 + r.below(u.size() - 1))); while (!x.empty() && x.back() == ' ') x.pop_back(); if (!x.empty()) return x; } return b; }
        }
    }
    return smallWord(r, g.profile);
}

static std::string typesList(Rng &r) {
    int n = r.chance(65) ? 1 : r.chance(70) ? 2 : 3;
    if (r.chance(2)) n = r.range(4, 40);
    std::string s;
    for (int i = 0; i < n; ++i) { if (i) s += r.chance(20) ? ", " : ","; s += r.chance(60) ? USEIN[r.below(12) + (r.chance(50) ? 0 : 8)] : r.pick(USEIN); }
    if (r.chance(3)) s += ",";
    return s;
}

ref::Entry entry(Rng &r, GLex &g, const LexOpt &o) {
    ref::Entry e;
    if (!g.keys.empty() && r.chance(g.homonyms)) e.word = r.pick(g.keys);      // homonym
    else {
        e.word = oneWord(r, g, o);
        if (o.multi && r.chance(20)) {
            int n = r.chance(4) ? r.big(4, 9, 40, 8) : r.range(1, 3);
            for (int i = 0; i < n; ++i) e.word += " " + ((!g.keys.empty() && r.chance(50)) ? r.pick(g.keys) : oneWord(r, g, o));
        }
    }
    if (!o.multi) { auto p = e.word.find(' '); if (p != std::string::npos) e.word = e.word.substr(0, p); }
    if (e.word.size() > 60 && !r.chance(30)) e.word = smallWord(r, g.profile);
    if (e.word.size() > 1500) e.word = smallWord(r, g.profile);
    e.word = ref::upper(ref::nfc(e.word), g.locale.empty() ? "en" : g.locale);
    int k = (int)r.below(10);
    if (k < 5) e.std = oneWord(r, g, LexOpt());
    else if (k < 7) e.std = e.word;
    else if (k < 8) e.std = "";
    else e.std = oneWord(r, g, LexOpt()) + " " + oneWord(r, g, LexOpt());
    if (r.below(250) == 0) for (int i = r.range(5, 60); i > 0; --i) e.std += " " + oneWord(r, g, LexOpt());
    if (r.below(1500) == 0) { e.std += " "; for (int i = r.big(200, 300, 70000, 80); i > 0; --i) e.std += (char)('A' + r.below(26)); }
    e.types = ref::parseTypes(typesList(r));
    if (r.chance(2)) e.types.clear();
    if (o.attach && e.word.find(' ') == std::string::npos && r.chance(40)) {
        static const std::vector<std::string> at = {"ATT_PRE", "ATT_SUF", "DET_PRE,ATT_PRE", "ATT_SUF,DET_SUF", "ATT_PRE,ATT_SUF", "DET_PRE", "DET_SUF", "DETACHED"};
        e.att = ref::parseAtt(r.pick(at));
    }
    return e;
}

static std::string joinSet(const std::set<int> &s, const std::vector<ref::NameCode> &t) {
    std::string o;
    for (int c : s) for (auto &x : t) if (x.code == c) { if (!o.empty()) o += ","; o += x.name; }
    return o;
}
std::string entryLine(const ref::Entry &e) {
    return "LEXENTRY:\t" + e.word + "\t" + e.std + "\t" + joinSet(e.types, ref::IN) + "\t" + joinSet(e.att, ref::ATT);
}
std::string lexText(const GLex &g, const std::vector<ref::Entry> &es) {
    std::string s = "LEXICON:\t" + g.name + "\t" + g.lang + "\t" + g.locale + "\t" + std::to_string(es.size()) + "\n";
    for (auto &e : es) s += entryLine(e) + "\n";
    return s;
}

GLex lexicon(Rng &r, const LexOpt &o) {
    GLex g;
    static const std::vector<std::string> LOC = {"", "en", "en_US", "tr", "de", "fr_FR", "en", "el", "lt"};
    static const std::vector<std::string> LANG = {"ENG", "GER", "FRE", "TUR", "", "XXX", "UNKNOWN"};
    g.locale = r.pick(LOC); g.lang = r.pick(LANG); g.name = "lex" + std::to_string(r.below(100));
    g.profile = (int)r.below(o.unicode ? 5 : 2);
    int n = r.range(o.minEntries, o.maxEntries);
    if (o.allowEmpty && r.chance(3)) n = 0;
    if (o.maxEntries >= 10 && r.below(120) == 0) n = r.range(60, 260);          // large
    if (r.chance(2)) g.homonyms = 85;                                            // many entries per word
    for (int i = 0; i < n; ++i) {
        ref::Entry e = entry(r, g, o);
        g.entries.push_back(e);
        g.keys.push_back(e.word);
    }
    g.text = lexText(g, g.entries);
    g.lex = ref::loadLexicon(g.text);
    g.keys.clear();
    for (auto &kv : g.lex.m) g.keys.push_back(kv.first);
    g.lex.index();
    g.pre.assign(g.lex.pre.begin(), g.lex.pre.end());
    g.suf.assign(g.lex.suf.begin(), g.lex.suf.end());
    for (int i = 0; i < 6; ++i) g.stems.push_back(r.chance(40) ? r.pick(COMMON) : smallWord(r, g.profile, 6));
    for (auto &s : g.stems) { auto p = s.find(' '); if (p != std::string::npos) s = s.substr(0, p); }
    return g;
}

static std::string digits(Rng &r, int n) {
    static const char *AR[10] = {"\xd9\xa0","\xd9\xa1","\xd9\xa2","\xd9\xa3","\xd9\xa4","\xd9\xa5","\xd9\xa6","\xd9\xa7","\xd9\xa8","\xd9\xa9"};
    std::string s;
    bool ar = r.chance(6);
    for (int i = 0; i < n; ++i) { int d = (int)r.below(10); if (ar) s += AR[d]; else s += (char)('0' + d); }
    return s;
}
static std::string letters(Rng &r, const GLex &g, int n) {
    std::string s;
    for (int i = 0; i < n; ++i) s += r.chance(80) ? std::string(1, (char)('A' + r.below(26))) : smallWord(r, g.profile, 1);
    return s;
}

static std::string item(Rng &r, const GLex &g) {
    int k = (int)r.below(100);
    if (k < 34 && !g.keys.empty()) return r.pick(g.keys);
    if (k < 46 && (!g.pre.empty() || !g.suf.empty())) {
        std::string s;
        int v = (int)r.below(4);
        if (v != 1 && !g.pre.empty()) s += r.pick(g.pre);
        if (v != 2) s += g.stems.empty() ? std::string("X") : r.pick(g.stems);
        if (v != 0 && !g.suf.empty()) s += r.pick(g.suf);
        return s;
    }
    if (k < 52 && !g.keys.empty()) {            // near miss of a lexicon word
        auto u = ref::dec(r.pick(g.keys));
        switch (r.below(4)) {
            case 0: if (u.size() > 1) u.pop_back(); break;
            case 1: u += (char32_t)('A' + r.below(26)); break;
            case 2: if (u.size() > 1) u.erase(u.begin()); break;
            default: u += (char32_t)('0' + r.below(10));
        }
        return ref::enc(u);
    }
    if (r.below(250) == 0) return r.chance(50) ? digits(r, r.range(8, 60)) : smallWord(r, g.profile, 300);
    if (k < 60) return digits(r, r.range(1, 7));
    if (k < 63) return digits(r, r.big(1, 3, 50)) + (r.chance(50) ? "," : ".") + digits(r, r.big(1, 3, 50));
    if (k < 66) return digits(r, r.big(1, 2, 50)) + "/" + digits(r, r.big(1, 2, 50));
    if (k < 70) return digits(r, r.big(1, 5, 50)) + letters(r, g, r.big(1, 1, 50, 2));
    if (k < 74) return letters(r, g, r.big(1, 1, 50, 2)) + digits(r, r.big(1, 4, 50));
    if (k < 77) return letters(r, g, r.range(1, 2)) + digits(r, r.range(1, 2)) + letters(r, g, r.range(0, 1));
    if (k < 80) return digits(r, 1) + letters(r, g, 1) + (r.chance(50) ? digits(r, 1) : letters(r, g, 1));
    if (k < 82) return letters(r, g, r.range(1, 3)) + digits(r, r.range(1, 2)) + letters(r, g, r.range(1, 3)) + digits(r, r.range(0, 2));
    if (k < 88) return letters(r, g, r.range(1, 2));
    if (k < 95) return r.chance(70) ? r.pick(COMMON) : r.pick(UNI);
    return smallWord(r, g.profile, 7);
}
static std::string sep(Rng &r, const AddrOpt &o) {
    if (r.chance(o.spacePct)) return " ";
    static const std::vector<std::string> S = {", ", ",", "  ", " - ", "-", "\xe2\x80\x94", " \xe2\x80\x94 ", "/", " & ", "&", ".", ". ", "|", " | ", "\t",
        "\xc2\xa0", " \xc2\xa0", "@", " @ ", " # ", ";", "_", "--", ", -", "\xe2\x80\x93", "\xe3\x80\x80", "...", " / ", "(", ") ", "'", "\xe2\x80\x99", " , ", "\xef\xbc\x8c", "- -", "/-", ":\t"};
    if (o.newlines && r.chance(6)) { static const std::vector<std::string> N = {"\n", "\r\n", ",\n", "\n\n", "\r", "\f", "\xe2\x80\xa8"}; return r.pick(N); }
    return r.pick(S);
}
std::string address(Rng &r, const GLex &g, const AddrOpt &o) {
    std::string s;
    int n = r.range(o.minItems, o.maxItems);
    if (r.chance(4)) s += r.chance(50) ? " " : "  \t";
    if (o.wild && r.chance(10)) s += sep(r, o);
    bool vast = o.vast && r.below(1200) == 0;
    if (vast || (o.maxItems >= 4 && r.below(100) == 0)) {          // long, of plain words and numbers
        n = vast ? r.range(256, 1600) : r.range(20, 100);
        for (int i = 0; i < n; ++i) {
            if (i) s += r.chance(80) ? std::string(" ") : sep(r, o);
            if (r.chance(3) && !vast) s += item(r, g);
            else if (r.chance(40)) s += digits(r, r.range(1, 7));
            else s += smallWord(r, g.profile, 4) + smallWord(r, g.profile, 4) + "X";
        }
        return recase(r, s);
    }
    for (int i = 0; i < n; ++i) {
        if (i) s += sep(r, o);
        s += item(r, g);
        if (o.wild && r.chance(5)) { static const std::vector<std::string> W = {"+", "$", "^", "\xcc\x81", "\xc2\xb0", "\xef\xbf\xbd", "\x01", "\xff", "~", "\xe0\xa4\xa8\xe0\xa4\xbf"}; s += r.pick(W); }
    }
    if (r.chance(15)) s += sep(r, o);
    if (r.chance(1)) s = "";
    return recase(r, s);
}
std::string recase(Rng &r, const std::string &s) {
    std::string t = s;
    switch (r.below(6)) {
        case 0: t = ref::lower(s); break;
        case 1: { // mixed
            auto u = ref::dec(s); std::string o;
            for (char32_t c : u) { std::string x = ref::enc(ref::U(1, c)); o += r.chance(50) ? ref::lower(x) : x; }
            t = o; break;
        }
        case 2: t = ref::nfd(s); break;
        default: break;
    }
    return t;
}
std::vector<ref::Entry> sameLengthLexicon(Rng &r, std::vector<ref::Entry> e) {
    for (int t = 0, done = 0, want = r.chance(40) ? 3 : 1; t < 40 && done < want && !e.empty(); ++t) {
        auto &x = e[r.below(e.size())];
        if (r.chance(50) && x.types.size() == 1) {          // another class
            static const std::vector<std::string> C4 = {"WORD", "TYPE", "ROAD", "CITY", "PROV", "BOXH", "MILE"}, C6 = {"NUMBER", "SINGLE", "DOUBLE", "DIRECT", "NATION", "QUALIF", "BUILDH"};
            std::string n = ref::inName(*x.types.begin());
            if (n.size() != 4 && n.size() != 6) continue;
            x.types = {ref::inCode(r.pick(n.size() == 4 ? C4 : C6))};
            ++done;
            continue;
        }
        std::vector<size_t> at;
        for (size_t i = 0; i < x.std.size(); ++i) if (x.std[i] >= 'A' && x.std[i] <= 'Z') at.push_back(i);
        if (at.empty()) continue;
        char &c = x.std[r.pick(at)], o = c;
        while (c == o) c = (char)('A' + r.below(26));
        ++done;
    }
    return e;
}
std::string sameLengthGrammar(Rng &r, const std::string &g) {
    static const char *SWAP[][2] = {{" HOUSE ", " EXTRA "}, {" CITY ", " PROV "}, {" UNITH ", " UNITT "}, {" PREDIR ", " SUFDIR "}, {" PRETYP ", " SUFTYP "}, {" BOXH ", " BOXT "}, {"-> 0.", "-> 1."}, {"-> 0.", "-> 2."}};
    for (int t = 0; t < 20; ++t) {
        auto &w = SWAP[r.below(8)];
        size_t from = r.below(g.size() + 1), p = g.find(w[0], from);
        if (p == std::string::npos) p = g.find(w[0]);
        if (p == std::string::npos) continue;
        size_t arrow = g.rfind("->", p + 1), line = g.rfind('\n', p);         // output classes and scores only
        if (w[0][0] == ' ' && (arrow == std::string::npos || (line != std::string::npos && arrow < line))) continue;
        std::string o = g;
        return o.replace(p, strlen(w[0]), w[1]);
    }
    return g;
}
std::string filter(Rng &r) {
    static const std::vector<std::string> F = {"PUNCT,SPACE,DASH,EMDASH", "PUNCT,SPACE", "SPACE", "", "PUNCT,SPACE,DASH,EMDASH", "SPACE,PUNCT,DASH,EMDASH,SLASH,AMPERS,ATSIGN"};
    if (r.chance(60)) return r.pick(F);
    std::string s;
    int n = r.big(1, 6, 60, 6);
    for (int i = 0; i < n; ++i) {
        if (i) s += ",";
        if (r.chance(20)) s += " ";
        s += r.chance(8) ? "NOSUCH" : r.chance(50) ? (r.chance(50) ? "SPACE" : "PUNCT") : r.pick(USEIN);
        if (r.chance(20)) s += "  ";
    }
    return s;
}
std::string locale(Rng &r) {
    static const std::vector<std::string> L = {"en", "en_US", "", "de", "tr", "fr", "en", "en", "el", "az", "lt", "xx_YY"};
    // the same languages written in other ways
    static const std::vector<std::string> M = {"tur", "tr_TR", "tr-TR", "TR", "tr_TR.UTF-8", "tr@collation=search", "aze", "az_Latn_AZ", "lit", "lt_LT", "ell", "gre", "eng", "deu", "hy", "root", "und", "und_TR", "nl_NL", "C", "POSIX", "en_TR", "x"};
    return r.pick(r.chance(8) ? M : L);
}
bool covered(const std::string &a, const std::string &locale, const std::string &lexLocale) {
    auto u = ref::dec(ref::upper(ref::nfc(ref::upper(ref::nfc(a), locale)), lexLocale));
    size_t i = 0;
    while (i < u.size() && ref::isSpace(u[i])) ++i;
    if (i == u.size()) return true;
    if (!ref::isL(u[i]) && !ref::isNd(u[i])) return false;
    for (char32_t c : u) if (!(ref::isL(c) || ref::isNd(c) || ref::isSep(c))) return false;
    return true;
}

// ---------------------------------------------------------------- grammars
GGram grammar(Rng &r, const std::vector<std::vector<ref::Tok>> &rd) {
    static const std::vector<std::string> SC = {"0.5", "0.25", "0.75", "1.0", "0.9", "0.1", "0.5", "0.35", "0.6", "1", ".2", "0.50001", "1e-3", "2.5", "100", "0.333333"};
    struct Sec { std::string name; bool meta; std::vector<std::string> lines; };
    std::vector<Sec> rules, metas;
    bool large = r.chance(3);
    int nr = large ? r.range(5, 14) : r.range(1, 4), nm = large ? r.range(3, 12) : r.range(0, 3);
    static const std::vector<std::string> NM = {"house", "street", "macro", "MICRO", "unit_1", "city", "\xc3\xa9t\xc3\xa9", "x2"};
    for (int i = 0; i < nr; ++i) rules.push_back({"r" + NM[r.below(NM.size())] + std::to_string(i), false, {}});
    for (int i = 0; i < nm; ++i) metas.push_back({"m" + NM[r.below(NM.size())] + std::to_string(i), true, {}});
    std::vector<std::string> addr;
    auto outs = [&](size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += r.pick(USEOUT) + " "; return s; };
    auto mkrule = [&](const std::vector<int> &c, size_t a, size_t b) {
        std::string s;
        for (size_t i = a; i < b; ++i) s += std::string(ref::inName(c[i])) + " ";
        return s + "-> " + outs(b - a) + "-> " + r.pick(SC);
    };
    int nsrc = large ? r.range(4, 8) : r.range(1, 4);
    for (int k = 0; k < nsrc; ++k) {
        const auto &ph = rd[r.chance(60) ? 0 : r.below(rd.size())];
        std::vector<int> c;
        for (auto &t : ph) { std::vector<int> v(t.cls.begin(), t.cls.end()); c.push_back(v.empty() ? 1 : r.pick(v)); }
        size_t n = c.size();
        size_t cuts = n == 0 ? 1 : 1 + r.below(std::min<size_t>(n, large ? 12 : 4));
        std::set<size_t> cs; cs.insert(0); cs.insert(n);
        while (cs.size() < cuts + 1 && cs.size() <= n) cs.insert(r.below(n + 1));
        std::vector<size_t> cv(cs.begin(), cs.end());
        if (cv.size() < 2) cv.push_back(n);
        std::string line;
        for (size_t i = 0; i + 1 < cv.size(); ++i) {
            size_t sec = r.below(rules.size());
            if (cv[i] == cv[i + 1] && n) continue;
            int dup = r.chance(25) ? 2 : 1;
            for (int d = 0; d < dup; ++d) rules[sec].lines.push_back(mkrule(c, cv[i], cv[i + 1]));
            if (r.chance(6)) rules[sec].lines.push_back(rules[sec].lines.back());      // identical line twice
            std::string nm1 = rules[sec].name;
            if (!metas.empty() && r.chance(40)) {
                Sec &m = metas[r.below(metas.size())];
                m.lines.push_back("@" + nm1);
                if (r.chance(30)) m.lines.push_back("@" + nm1 + " @" + m.name);       // right recursion
                if (r.chance(8)) m.lines.push_back("@" + m.name + " @" + nm1);        // left recursion
                nm1 = m.name;
                for (size_t q = &m - &metas[0] + 1; q < metas.size() && r.chance(large ? 90 : 50); ++q) { metas[q].lines.push_back("@" + nm1); nm1 = metas[q].name; }     // deeper
            }
            line += (line.empty() ? "@" : " @") + nm1;
        }
        if (!line.empty()) addr.push_back(line);
        if (r.chance(15) && !addr.empty()) addr.push_back(addr.back());
    }
    // distractors
    for (int k = r.range(0, 3); k > 0; --k) {
        std::vector<int> c; for (int i = r.range(1, 3); i > 0; --i) c.push_back(ref::inCode(r.pick(USEIN)));
        rules[r.below(rules.size())].lines.push_back(mkrule(c, 0, c.size()));
    }
    if (r.chance(15)) rules[r.below(rules.size())].lines.push_back("-> -> " + r.pick(SC));     // epsilon
    if (r.chance(8)) rules[r.below(rules.size())].lines.push_back("WORD -> NOSUCH -> 0.4");
    if (r.chance(8) && !metas.empty()) metas[r.below(metas.size())].lines.push_back("@" + metas[r.below(metas.size())].name);
    if (r.chance(10)) addr.push_back("@ADDRESS @" + rules[r.below(rules.size())].name);
    for (auto &s : rules) if (s.lines.empty()) s.lines.push_back("NUMBER -> HOUSE -> 0.5");
    for (auto &s : metas) if (s.lines.empty()) s.lines.push_back("@" + rules[r.below(rules.size())].name);
    if (addr.empty()) addr.push_back("@" + rules[0].name);
    if (r.chance(50)) addr.push_back("@" + rules[r.below(rules.size())].name + (r.chance(50) ? " @" + rules[r.below(rules.size())].name : ""));
    if (!metas.empty() && r.chance(50)) addr.push_back("@" + metas[r.below(metas.size())].name);
    std::vector<Sec> all = rules;
    for (auto &m : metas) all.push_back(m);
    if (r.chance(8)) {          // ADDRESS as a rule section
        Sec a{"ADDRESS", false, {}};
        for (auto &x : rules) for (auto &l : x.lines) a.lines.push_back(l);
        all.push_back(a);
    } else all.push_back({"ADDRESS", true, addr});
    if (r.below(250) == 0) for (int i = r.range(150, 700); i > 0; --i) {        // hundreds of sections more
        bool meta = r.chance(40);
        all.push_back({"p" + std::to_string(i), meta, {meta ? "@" + rules[0].name : "NUMBER -> HOUSE -> 0.5"}});
    }
    for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
    std::string t;
    if (r.chance(20)) t += "# grammar\n\n";
    for (auto &s : all) {
        t += "[" + s.name + "]\n";
        for (auto &l : s.lines) t += l + "\n";
        if (r.chance(50)) t += "\n";
    }
    GGram g; g.text = t; g.g = ref::loadGrammar(t);
    return g;
}

std::string bytes(Rng &r, size_t max) {
    std::string s;
    size_t n = r.below(max + 1);
    int mode = (int)r.below(3);
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = mode == 0 ? (unsigned char)r.range(1, 255) : mode == 1 ? (unsigned char)(r.chance(70) ? r.range(32, 126) : r.range(128, 255)) : (unsigned char)r.pick(std::vector<int>{'A', ' ', '\t', '\n', '@', '[', ']', '-', '>', ',', 0xef, 0xbb, 0xbf, 0xe2, 0x80, 0x94, '1', 0xf0, 0xcc, 0x81});
        s += (char)c;
    }
    return s;
}
std::string mutate(Rng &r, std::string s) {
    for (int k = r.range(1, 4); k > 0; --k) {
        switch (r.below(8)) {
            case 0: if (!s.empty()) s[r.below(s.size())] = (char)r.range(1, 255); break;
            case 1: s.insert(r.below(s.size() + 1), bytes(r, 6)); break;
            case 2: if (!s.empty()) { size_t a = r.below(s.size()); s.erase(a, r.below(s.size() - a) + 1); } break;
            case 3: if (!s.empty()) s.resize(r.below(s.size())); break;
            case 4: if (!s.empty()) { size_t a = r.below(s.size()); size_t n = r.below(std::min<size_t>(s.size() - a, 40)) + 1; s.insert(r.below(s.size()), s.substr(a, n)); } break;
            case 5: { size_t p = s.find(r.chance(50) ? '\t' : '\n', s.empty() ? 0 : r.below(s.size())); if (p != std::string::npos) s.erase(p, 1); break; }
            case 6: { size_t p = s.find('\n', s.empty() ? 0 : r.below(s.size())); if (p != std::string::npos) s.insert(p, "\r"); break; }
            default: { static const std::vector<std::string> T = {"LEXENTRY:", "LEXICON:", "LexEntry:", "Lexicon:", "\t", "[ADDRESS]", "->", "@", "\xEF\xBB\xBF", "22 serialization::archive 19 0 2 ", "-1 ", "99999999999 ", "#", "(((((", "\\", "nan", "-0", "1e999"}; s.insert(r.below(s.size() + 1), r.pick(T)); }
        }
    }
    for (auto &c : s) if (!c) c = 'z';
    return s;
}

std::string repo() { const char *e = getenv("ASV_REPO"); return e ? e : "/repo"; }
std::string rdfile(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
const std::vector<Sample> &samples() {
    static std::vector<Sample> v;
    static bool done = false;
    if (!done) {
        done = true;
        std::string d = repo() + "/data/sample";
        std::vector<std::string> n;
        if (DIR *h = opendir(d.c_str())) {
            while (dirent *e = readdir(h)) { std::string x = e->d_name; if (x.size() > 4 && x.substr(x.size() - 4) == ".lex") n.push_back(x.substr(0, x.size() - 4)); }
            closedir(h);
        }
        std::sort(n.begin(), n.end());
        for (auto &x : n) { Sample s; s.country = x; s.lex = rdfile(d + "/" + x + ".lex"); s.gmr = rdfile(d + "/" + x + ".gmr"); if (!s.lex.empty() && !s.gmr.empty()) v.push_back(s); }
    }
    return v;
}
const std::vector<std::string> &sampleAddresses() {
    static std::vector<std::string> v;
    static bool done = false;
    if (!done) {
        done = true;
        std::istringstream f(rdfile(repo() + "/data/test-data-us.sql"));
        std::string l; bool in = false;
        while (std::getline(f, l)) {
            if (l.compare(0, 5, "copy ") == 0) { in = true; continue; }
            if (l == "\\.") in = false;
            auto t = l.find('\t');
            if (in && t != std::string::npos) v.push_back(l.substr(0, t));
        }
    }
    return v;
}
}
