#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <unicode/locid.h>
#include <unicode/normalizer2.h>
#include <unicode/uchar.h>
#include <unicode/unistr.h>

namespace ref {

static U fromIcu(const icu::UnicodeString &s) {
    U r;
    for (int32_t i = 0; i < s.length(); i = s.moveIndex32(i, 1)) r += (char32_t)s.char32At(i);
    return r;
}
U dec(const std::string &s) { return fromIcu(icu::UnicodeString::fromUTF8(icu::StringPiece(s.data(), (int32_t)s.size()))); }
std::string enc(const U &u) {
    std::string o;
    for (char32_t c : u) {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    return o;
}
static std::string utf8(const icu::UnicodeString &u) { std::string r; u.toUTF8String(r); return r; }
static icu::UnicodeString ustr(const std::string &s) { return icu::UnicodeString::fromUTF8(icu::StringPiece(s.data(), (int32_t)s.size())); }
std::string nfc(const std::string &s) {
    UErrorCode e = U_ZERO_ERROR;
    const icu::Normalizer2 *n = icu::Normalizer2::getNFCInstance(e);
    icu::UnicodeString r = n->normalize(ustr(s), e);
    if (U_FAILURE(e)) abort();
    return utf8(r);
}
std::string nfd(const std::string &s) {
    UErrorCode e = U_ZERO_ERROR;
    const icu::Normalizer2 *n = icu::Normalizer2::getNFDInstance(e);
    icu::UnicodeString r = n->normalize(ustr(s), e);
    if (U_FAILURE(e)) abort();
    return utf8(r);
}
std::string upper(const std::string &s, const std::string &loc) {
    icu::UnicodeString u = ustr(s);
    u.toUpper(icu::Locale(loc.c_str()));
    return utf8(u);
}
std::string lower(const std::string &s) {
    icu::UnicodeString u = ustr(s);
    u.toLower(icu::Locale("en"));
    return utf8(u);
}

bool isL(char32_t c) { return (U_GET_GC_MASK((UChar32)c) & U_GC_L_MASK) != 0; }
bool isNd(char32_t c) { return (U_GET_GC_MASK((UChar32)c) & U_GC_ND_MASK) != 0; }
bool isP(char32_t c) { return (U_GET_GC_MASK((UChar32)c) & U_GC_P_MASK) != 0; }
bool isSpace(char32_t c) { return (U_GET_GC_MASK((UChar32)c) & U_GC_Z_MASK) != 0 || u_isspace((UChar32)c); }
bool isWord(char32_t c) { return c == '_' || isL(c) || isNd(c) || (U_GET_GC_MASK((UChar32)c) & U_GC_MN_MASK) != 0; }
bool isSep(char32_t c) { return isSpace(c) || isP(c) || c == '|'; }

const std::vector<NameCode> IN = {
    {"STOP",-1},{"NUMBER",0},{"WORD",1},{"TYPE",2},{"QUALIF",3},{"ROAD",6},{"STOPWORD",7},{"RR",8},{"DASH",9},
    {"CITY",10},{"PROV",11},{"NATION",12},{"AMPERS",13},{"BOXH",14},{"ORD",15},{"UNITH",16},{"UNITT",17},{"SINGLE",18},
    {"BUILDH",19},{"MILE",20},{"DOUBLE",21},{"DIRECT",22},{"MIXED",23},{"BUILDT",24},{"FRACT",25},{"PCT",26},{"PCH",27},
    {"QUINT",28},{"QUAD",29},{"PUNCT",30},{"SPACE",31},{"PLACEN",32},{"EMDASH",33},{"SLASH",34},{"ATSIGN",35},{"COMMA",36},
    {"BADTOKEN",99}};
const std::vector<NameCode> OUT = {
    {"STOP",-1},{"BLDNG",0},{"HOUSE",1},{"PREDIR",2},{"QUALIF",3},{"PRETYP",4},{"STREET",5},{"SUFTYP",6},{"SUFDIR",7},
    {"RR",8},{"EXTRA",9},{"CITY",10},{"PROV",11},{"NATION",12},{"POSTAL",13},{"BOXH",14},{"BOXT",15},{"UNITH",16},{"UNITT",17},
    {"IGNORE",98},{"BADTOKEN",99}};
const std::vector<NameCode> ATT = {{"DET_PRE",0},{"DET_SUF",1},{"ATT_PRE",2},{"ATT_SUF",3}};
static const char *nm(const std::vector<NameCode> &t, int c) { for (auto &x : t) if (x.code == c) return x.name; return "BADTOKEN"; }
static int cd(const std::vector<NameCode> &t, const std::string &n) { for (auto &x : t) if (n == x.name) return x.code; return 99; }
const char *inName(int c) { return nm(IN, c); }
const char *outName(int c) { return nm(OUT, c); }
int inCode(const std::string &n) { return cd(IN, n); }
int outCode(const std::string &n) { return cd(OUT, n); }

static std::string trimSp(const std::string &s) {
    size_t a = s.find_first_not_of(' ');
    if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(' ') - a + 1);
}
static std::vector<std::string> splitOn(const std::string &s, char c) {
    std::vector<std::string> r; std::string cur;
    for (char x : s) if (x == c) { r.push_back(cur); cur.clear(); } else cur += x;
    r.push_back(cur);
    return r;
}
std::set<int> parseTypes(const std::string &l) {
    std::set<int> r;
    for (auto &e : splitOn(l, ',')) { std::string t = trimSp(e); if (!t.empty()) r.insert(inCode(t)); }
    return r;
}
std::set<int> parseAtt(const std::string &l) {
    std::set<int> r;
    for (auto &e : splitOn(l, ',')) { std::string t = trimSp(e); for (auto &a : ATT) if (t == a.name) r.insert(a.code); }
    return r;
}

void Lex::insert(const Entry &e) {
    auto &v = m[e.word];
    for (auto &x : v) if (x == e) return;
    v.push_back(e); dirty = true;
}
void Lex::remove(const Entry &e) {
    auto it = m.find(e.word);
    if (it == m.end()) return;
    for (size_t i = 0; i < it->second.size(); ++i)
        if (it->second[i] == e) { it->second.erase(it->second.begin() + (long)i); break; }
    if (it->second.empty()) m.erase(it);
    dirty = true;
}
static char32_t fold(char32_t c) { return (char32_t)u_foldCase((UChar32)c, U_FOLD_CASE_DEFAULT); }
void Lex::index() {
    if (!dirty) return;
    trie.assign(1, Node()); pre.clear(); suf.clear(); maxlen = 0;
    for (auto &kv : m) {
        U w = dec(kv.first);
        if (w.size() > maxlen) maxlen = w.size();
        if (!w.empty()) {
            int n = 0;
            for (char32_t c : w) {
                c = fold(c);
                auto it = trie[(size_t)n].kids.find(c);
                if (it == trie[(size_t)n].kids.end()) {
                    trie.push_back(Node());
                    int k = (int)trie.size() - 1;
                    trie[(size_t)n].kids[c] = k; n = k;
                } else n = it->second;
            }
            trie[(size_t)n].end = true;
        }
        for (auto &e : kv.second) {
            if (e.att.count(2) && !e.word.empty()) pre.insert(e.word);
            if (e.att.count(3) && !e.word.empty()) suf.insert(e.word);
        }
    }
    dirty = false;
}
const std::vector<Entry> *Lex::find(const std::string &w) const {
    auto it = m.find(w);
    return it == m.end() ? nullptr : &it->second;
}

static std::vector<std::string> linesOf(const std::string &text) {
    std::vector<std::string> v = splitOn(text, '\n');
    for (auto &l : v) if (!l.empty() && l.back() == '\r') l.pop_back();
    if (!v.empty() && v[0].compare(0, 3, "\xEF\xBB\xBF") == 0) v[0] = v[0].substr(3);
    return v;
}
static std::string field(const std::vector<std::string> &f, size_t i) { return i < f.size() ? f[i] : ""; }

Lex loadLexicon(const std::string &text) {
    Lex lx;
    std::vector<std::string> ls = linesOf(text);
    size_t i = 0;
    for (;; ++i) {
        if (i >= ls.size()) throw LoadError("no-header");
        if (ls[i].compare(0, 9, "LEXENTRY:") == 0) throw LoadError("entry-before-header");
        if (ls[i].compare(0, 8, "LEXICON:") == 0) break;
    }
    auto h = splitOn(ls[i], '\t');
    if (h[0] != "LEXICON:") throw LoadError("bad-header");
    lx.lang = field(h, 2); lx.locale = field(h, 3);
    for (++i; i < ls.size(); ++i) {
        std::string l;
        for (char c : ls[i]) if (!(c == ' ' && !l.empty() && l.back() == ' ')) l += c;
        if (l.empty()) continue;
        if (l.compare(0, 9, "LEXENTRY:") != 0) throw LoadError("bad-line");
        l = nfc(l);
        if (!lx.locale.empty()) l = upper(l, lx.locale);
        auto f = splitOn(l, '\t');
        if (f[0] != "LEXENTRY:") throw LoadError("bad-line");
        Entry e; e.word = field(f, 1); e.std = field(f, 2);
        e.types = parseTypes(field(f, 3)); e.att = parseAtt(field(f, 4));
        if (e.types.count(99)) throw LoadError("bad-class");
        lx.insert(e);
    }
    return lx;
}

// ---------------------------------------------------------------- shapes
static bool allOf(const U &u, bool (*p)(char32_t)) { for (char32_t c : u) if (!p(c)) return false; return !u.empty(); }
static bool isAZ(char32_t c) { char32_t f = fold(c); return f >= 'a' && f <= 'z'; }

void classify(const Lex &lx, Tok &t, int dflt) {
    t.cls.clear();
    if (auto *v = lx.find(t.text)) for (auto &e : *v) t.cls.insert(e.types.begin(), e.types.end());
    t.inlex = !t.cls.empty();
    if (t.inlex) return;
    U u = dec(t.text);
    size_t n = u.size();
    auto C = [](const char *nme) { return inCode(nme); };
    // digits [sep] digits
    size_t d1 = 0; while (d1 < n && isNd(u[d1])) ++d1;
    bool dd = false; char32_t mid = 0;
    if (d1 > 0 && d1 + 1 < n) { mid = u[d1]; dd = true; for (size_t i = d1 + 1; i < n; ++i) if (!isNd(u[i])) dd = false; }
    if (dd && (mid == '.' || mid == ',')) {
        t.cls.insert(C("NUMBER"));
        if (mid == ',') { u[d1] = '.'; t.text = enc(u); }
        return;
    }
    if (n && d1 == n) {
        t.cls.insert(C("NUMBER"));
        if (n == 4) t.cls.insert(C("QUAD"));
        if (n == 5) t.cls.insert(C("QUINT"));
        return;
    }
    if (t.text == "@") { t.cls.insert(C("ATSIGN")); return; }
    if (t.text == "/") { t.cls.insert(C("SLASH")); return; }
    if (dd && mid == '/') { t.cls.insert(C("FRACT")); return; }
    // postal shapes
    {
        size_t i = 0, a = 0, d = 0, z = 0;
        while (i < n && isAZ(u[i])) { ++i; ++a; }
        while (i < n && isNd(u[i])) { ++i; ++d; }
        while (i < n && isAZ(u[i])) { ++i; ++z; }
        if (i == n && a >= 1 && a <= 2 && d >= 1 && d <= 2 && z <= 1) { t.cls.insert(C("MIXED")); t.cls.insert(C("PCH")); return; }
        if (n == 3 && isNd(u[0]) && isAZ(u[1]) && (isNd(u[2]) || isAZ(u[2]))) { t.cls.insert(C("MIXED")); t.cls.insert(C("PCT")); return; }
    }
    if (allOf(u, isWord)) {
        bool dig = false; for (char32_t c : u) if (isNd(c)) dig = true;
        if (dig) t.cls.insert(C("MIXED"));
        else {
            t.cls.insert(C("WORD"));
            if (n == 1) t.cls.insert(C("SINGLE"));
            if (n == 2) t.cls.insert(C("DOUBLE"));
        }
        return;
    }
    if (n == 1 && u[0] == 0x2014) { t.cls.insert(C("EMDASH")); return; }
    { bool all = n > 0; for (char32_t c : u) if (c != '-') all = false; if (all) { t.cls.insert(C("DASH")); return; } }
    if (t.text == "&") { t.cls.insert(C("AMPERS")); return; }
    if (allOf(u, isSpace)) { t.cls.insert(C("SPACE")); return; }
    { bool all = n > 0; for (char32_t c : u) if (!(c == '|' || isP(c))) all = false; if (all) { t.cls.insert(C("PUNCT")); return; } }
    t.cls.insert(dflt);
}

static Tok mk(const Lex &lx, const U &u) { Tok t; t.text = enc(u); classify(lx, t, inCode("WORD")); return t; }

std::vector<Tok> splitToken(const Lex &lx, const Tok &t, Features *f) {
    std::vector<Tok> r;
    U u = dec(t.text);
    size_t n = u.size();
    if (t.cls.count(inCode("MIXED"))) {
        size_t d = 0; while (d < n && isNd(u[d])) ++d;
        if (d > 0 && d + 1 == n && isL(u[d])) { r.push_back(mk(lx, u.substr(0, d))); r.push_back(mk(lx, u.substr(d))); if (f) f->mixedSplit++; return r; }
        bool ld = n >= 2 && isL(u[0]);
        for (size_t i = 1; i < n; ++i) if (!isNd(u[i])) ld = false;
        if (ld) { r.push_back(mk(lx, u.substr(0, 1))); r.push_back(mk(lx, u.substr(1))); if (f) f->mixedSplit++; return r; }
        r.push_back(mk(lx, u));
        return r;
    }
    // longest prefix that leaves something and ends inside the word
    size_t a = 0, d = 0;
    for (auto &p : lx.pre) {
        U w = dec(p);
        if (w.size() < n && w.size() > a && u.compare(0, w.size(), w) == 0 && isWord(u[w.size() - 1]) == isWord(u[w.size()])) a = w.size();
    }
    // shortest suffix that leaves something
    for (auto &s : lx.suf) {
        U w = dec(s);
        if (w.size() < n && (d == 0 || w.size() < d) && u.compare(n - w.size(), w.size(), w) == 0) d = w.size();
    }
    std::vector<size_t> cuts;
    if (a && !d) cuts = {a};
    else if (a && d) { if (a + d == n) cuts = {a}; else if (a + d < n) cuts = {a, n - d}; else cuts = {n - d}; }
    else if (d) cuts = {n - d};
    if (cuts.empty()) return r;
    cuts.insert(cuts.begin(), 0); cuts.push_back(n);
    for (size_t i = 0; i + 1 < cuts.size(); ++i) r.push_back(mk(lx, u.substr(cuts[i], cuts[i + 1] - cuts[i])));
    if (f) f->split++;
    return r;
}

static bool lineStart(const U &u, size_t p) {
    if (p == 0) return false;
    char32_t a = u[p - 1];
    bool sep = a == '\n' || a == '\r' || a == '\f' || a == 0x85 || a == 0x2028 || a == 0x2029;
    if (!sep) return false;
    return !(a == '\r' && p < u.size() && u[p] == '\n');
}

// one step at p: [tb,te) token, [te,se) separator; false if nothing fits here
static bool step(const Lex &lx, const U &u, size_t p, size_t &tb, size_t &te, size_t &se, Features *f) {
    size_t n = u.size(), w = 0;
    while (p + w < n && isSpace(u[p + w])) ++w;
    auto sepAt = [&](size_t q) { return q == n || isSep(u[q]); };
    auto sepEnd = [&](size_t q) { while (q < n && isSep(u[q])) ++q; return q; };
    for (size_t k = w + 1; k-- > 0;) {
        size_t s = p + k;
        if (s < n && u[s] == 0x2014) continue;
        // lexicon words, longest first
        std::vector<size_t> ends;
        int nd = 0;
        if (lx.trie.size() <= 1) { if (sepAt(s)) ends.push_back(s); }
        else {
            for (size_t q = s; q < n; ++q) {
                auto it = lx.trie[(size_t)nd].kids.find(fold(u[q]));
                if (it == lx.trie[(size_t)nd].kids.end()) break;
                nd = it->second;
                if (lx.trie[(size_t)nd].end) ends.push_back(q + 1);
            }
        }
        bool first = true;
        for (size_t i = ends.size(); i-- > 0;) {
            if (sepAt(ends[i])) {
                tb = s; te = ends[i]; se = sepEnd(te);
                if (f && te > tb && !first) f->lexBacktrack++;
                return true;
            }
            first = false;
        }
        // digits /,. digits
        size_t q = s; while (q < n && isNd(u[q])) ++q;
        if (q > s && q < n && (u[q] == '/' || u[q] == ',' || u[q] == '.')) {
            size_t z = q + 1; while (z < n && isNd(u[z])) ++z;
            if (z > q + 1 && sepAt(z)) { tb = s; te = z; se = sepEnd(z); return true; }
        }
        // a run of letters and digits
        q = s; while (q < n && (isL(u[q]) || isNd(u[q]))) ++q;
        if (q > s && sepAt(q)) { tb = s; te = q; se = sepEnd(q); return true; }
    }
    return false;
}

std::string normalized(const Lex &lx, const std::string &address, const std::string &locale) {
    return upper(nfc(upper(nfc(address), locale)), lx.locale);
}
std::vector<Piece> scan(Lex &lx, const std::string &address, const std::string &locale, Features *f) {
    lx.index();
    U u = dec(normalized(lx, address, locale));
    std::vector<Piece> out;
    size_t p = 0, n = u.size();
    for (;;) {
        size_t tb = 0, te = 0, se = 0;
        bool ok = step(lx, u, p, tb, te, se, f);
        if (!ok) {
            for (size_t q = p + 1; q <= n && !ok; ++q)
                if (lineStart(u, q) && step(lx, u, q, tb, te, se, f)) { ok = true; if (f) f->lineStart++; }
        }
        if (!ok) { if (f && p < n) f->truncated++; break; }
        if (te > tb) out.push_back(Piece{enc(u.substr(tb, te - tb)), false});
        if (se > te) {
            std::string s = enc(u.substr(te, se - te));
            const char *ws = " \f\n\r\t\v";
            size_t a = s.find_first_not_of(ws);
            if (a == std::string::npos) s = " "; else s = s.substr(a, s.find_last_not_of(ws) - a + 1);
            out.push_back(Piece{s, true});
            if (f) f->seps++;
        }
        if (p == n || se == p) break;
        p = se;
    }
    return out;
}
std::vector<Tok> tokenize(Lex &lx, const std::string &address, const std::string &locale, Features *f) {
    std::vector<Tok> out;
    for (auto &pc : scan(lx, address, locale, f)) {
        Tok t; t.text = pc.text; t.sep = pc.sep;
        classify(lx, t, inCode(pc.sep ? "PUNCT" : "WORD"));
        if (pc.sep) { out.push_back(t); continue; }
        if (t.inlex) {
            if (f) { f->lexHit++; if (multiWord(t)) f->lexMulti++; }
            out.push_back(t);
        } else {
            auto v = splitToken(lx, t, f);
            if (v.empty()) out.push_back(t); else out.insert(out.end(), v.begin(), v.end());
        }
    }
    return out;
}

std::vector<Tok> filterToks(const std::vector<Tok> &v, const std::set<int> &flt) {
    std::vector<Tok> r;
    for (auto &t : v) {
        bool drop = false;
        for (int c : t.cls) if (flt.count(c)) drop = true;
        if (!drop) r.push_back(t);
    }
    return r;
}
std::vector<std::string> words(const std::string &s) {
    std::vector<std::string> r;
    for (auto &w : splitOn(s, ' ')) if (!w.empty()) r.push_back(w);
    return r;
}
bool multiWord(const Tok &t) { return words(t.text).size() > 1; }

std::vector<std::vector<Tok>> readings(const Lex &lx, const std::vector<Tok> &kept, size_t cap) {
    std::vector<std::vector<Tok>> r;
    std::vector<int> bit(kept.size(), -1);
    int k = 0;
    for (size_t i = 0; i < kept.size(); ++i) if (multiWord(kept[i])) bit[i] = k++;
    if (k > 30 || ((size_t)1 << k) > cap) return r;
    for (size_t p = 0; p < ((size_t)1 << k); ++p) {
        std::vector<Tok> one;
        for (size_t i = 0; i < kept.size(); ++i) {
            if (bit[i] < 0 || !(p >> bit[i] & 1)) one.push_back(kept[i]);
            else for (auto &w : words(kept[i].text)) one.push_back(mk(lx, dec(w)));
        }
        r.push_back(one);
    }
    return r;
}

// ---------------------------------------------------------------- grammar
bool parseRule(const std::string &line, GRule &r) {
    std::istringstream ss(line);
    std::string t; int st = 0;
    r = GRule(); r.score = 0;
    while (ss >> t) {
        if (t == "->") { ++st; continue; }
        if (st == 0) r.in.push_back(inCode(t));
        else if (st == 1) r.out.push_back(outCode(t));
        else if (st == 2) r.score = (float)atof(t.c_str());
    }
    return r.in.size() == r.out.size() && r.score > 0;
}

Gram loadGrammar(const std::string &text) {
    Gram g;
    std::vector<std::string> ls = linesOf(text);
    Section cur; bool open = false; int kind = 0;   // 0 nothing yet, 1 meta, 2 rule
    auto close = [&]() {
        if (open && kind) { cur.meta = kind == 1; g.idx[cur.name] = (int)g.sec.size(); g.sec.push_back(cur); }
        kind = 0;
    };
    for (auto &l : ls) {
        U u = dec(l);
        size_t a = 0, b = u.size();
        while (a < b && isSpace(u[a])) ++a;
        if (a == b || u[a] == '#') continue;
        while (b > a && isSpace(u[b - 1])) --b;
        if (u[a] == '[' && u[b - 1] == ']' && b - a > 2) {
            close();
            cur = Section(); cur.name = enc(u.substr(a + 1, b - a - 2)); open = true;
            if (g.idx.count(cur.name)) throw LoadError("duplicate-section");
            continue;
        }
        if (!open) throw LoadError("content-before-section");
        if (l.find('@') != std::string::npos) {
            if (kind == 2) throw LoadError("mixed-section");
            kind = 1;
            // every token must be a reference
            std::vector<std::string> refs; bool good = true;
            size_t i = a;
            while (i < b) {
                while (i < b && isSpace(u[i])) ++i;
                if (i >= b) break;
                if (u[i] != '@') { good = false; break; }
                size_t j = i + 1; while (j < b && isWord(u[j])) ++j;
                if (j == i + 1) { good = false; break; }
                refs.push_back(enc(u.substr(i + 1, j - i - 1)));
                i = j;
            }
            if (good) cur.metas.push_back(refs);
        } else {
            if (kind == 1) throw LoadError("mixed-section");
            kind = 2;
            GRule r;
            if (!parseRule(l, r)) throw LoadError("bad-rule");
            cur.rules.push_back(r);
        }
    }
    close();
    std::set<std::string> used;
    for (auto &s : g.sec) if (s.meta) for (auto &m : s.metas) for (auto &x : m) {
        used.insert(x);
        if (!g.idx.count(x)) throw LoadError("undefined-reference");
    }
    if (!g.idx.count("ADDRESS")) throw LoadError("no-address");
    for (auto &s : g.sec) if (s.name != "ADDRESS" && !used.count(s.name)) g.warn = true;
    return g;
}

double Deriv::mean() const { double s = 0; for (auto *r : rules) s += r->score; return s / (double)rules.size(); }
std::string Deriv::pattern() const {
    std::string s;
    for (int c : cls) s += std::string(inName(c)) + " ";
    s += "->";
    for (auto *r : rules) for (int o : r->out) s += std::string(" ") + outName(o);
    return s;
}

namespace {
struct Walk {
    const Gram &g; const std::vector<int> &cls; size_t limit, phrase, maxDeriv, maxSteps, &steps;
    std::vector<Deriv> &out;
    std::vector<const GRule *> rules;
    bool go(std::vector<int> &stack, size_t pos, size_t metas) {
        if (++steps > maxSteps) return false;
        if (stack.empty()) {
            if (pos == cls.size()) {
                if (out.size() >= maxDeriv) return false;
                out.push_back(Deriv{phrase, cls, rules});
            }
            return true;
        }
        int top = stack.back();
        const Section &s = g.sec[(size_t)top];
        std::vector<int> rest(stack.begin(), stack.end() - 1);
        if (s.meta) {
            if (metas + 1 > limit) return true;
            for (auto &m : s.metas) {
                std::vector<int> nx = rest;
                for (size_t i = m.size(); i-- > 0;) nx.push_back(g.idx.at(m[i]));
                if (!go(nx, pos, metas + 1)) return false;
            }
        } else {
            for (auto &r : s.rules) {
                if (pos + r.in.size() > cls.size()) continue;
                bool eq = true;
                for (size_t i = 0; i < r.in.size() && eq; ++i) eq = r.in[i] == cls[pos + i];
                if (!eq) continue;
                rules.push_back(&r);
                std::vector<int> nx = rest;
                bool ok = go(nx, pos + r.in.size(), metas);
                rules.pop_back();
                if (!ok) return false;
            }
        }
        return true;
    }
};
}

bool derivations(const Gram &g, const std::vector<std::vector<Tok>> &phr, size_t maxDeriv, size_t maxSteps, std::vector<Deriv> &out) {
    size_t steps = 0;
    for (size_t p = 0; p < phr.size(); ++p) {
        auto &ph = phr[p];
        std::vector<std::vector<int>> ch;
        for (auto &t : ph) ch.push_back(std::vector<int>(t.cls.begin(), t.cls.end()));
        std::vector<size_t> ix(ch.size(), 0);
        for (;;) {
            std::vector<int> cls;
            for (size_t i = 0; i < ch.size(); ++i) cls.push_back(ch[i][ix[i]]);
            Walk w{g, cls, ph.size() + 2, p, maxDeriv, maxSteps, steps, out, {}};
            std::vector<int> st{g.idx.at("ADDRESS")};
            if (!w.go(st, 0, 0)) return false;
            if (++steps > maxSteps) return false;
            size_t i = ch.size();       // last token fastest
            while (i > 0 && ++ix[i - 1] == ch[i - 1].size()) { ix[i - 1] = 0; --i; }
            if (i == 0) break;
        }
    }
    return true;
}

const char *FIELD[17] = {"building","house_num","predir","qual","pretype","name","suftype","sufdir","ruralroute","extra","city","prov","country","postcode","box","unit","pattern"};
bool Std::operator==(const Std &o) const {
    for (int i = 0; i < 17; ++i) if (has[i] != o.has[i] || (has[i] && f[i] != o.f[i])) return false;
    return true;
}
std::string Std::show() const {
    std::string s = "{";
    for (int i = 0; i < 17; ++i) if (has[i]) s += std::string(s.size() > 1 ? ", " : "") + FIELD[i] + "='" + f[i] + "'";
    return s + "}";
}
Std assemble(const Lex &lx, const std::vector<Tok> &ph, const Deriv &d) {
    Std s;
    for (int i = 0; i < 17; ++i) s.has[i] = false;
    std::vector<int> outs;
    for (auto *r : d.rules) outs.insert(outs.end(), r->out.begin(), r->out.end());
    for (size_t i = 0; i < ph.size(); ++i) {
        std::string w;
        if (auto *v = lx.find(ph[i].text))
            for (auto &e : *v) if (e.types.count(d.cls[i])) { w = e.std; break; }
        if (w.empty()) w = ph[i].text;
        int f = -1;
        std::string o = outName(outs[i]);
        if (o == "BLDNG") f = 0; else if (o == "HOUSE") f = 1; else if (o == "PREDIR") f = 2; else if (o == "QUALIF") f = 3;
        else if (o == "PRETYP") f = 4; else if (o == "STREET") f = 5; else if (o == "SUFTYP") f = 6; else if (o == "SUFDIR") f = 7;
        else if (o == "RR") f = 8; else if (o == "EXTRA" || o == "STOP" || o == "BADTOKEN") f = 9; else if (o == "CITY") f = 10;
        else if (o == "PROV") f = 11; else if (o == "NATION") f = 12; else if (o == "POSTAL") f = 13;
        else if (o == "BOXH" || o == "BOXT") f = 14; else if (o == "UNITH" || o == "UNITT") f = 15;
        if (f < 0) continue;
        if (s.has[f]) s.f[f] += " ";
        s.f[f] += w; s.has[f] = true;
    }
    s.f[16] = d.pattern(); s.has[16] = true;
    return s;
}

// ---------------------------------------------------------------- MD5
std::string md5hex(const std::string &in) {
    static const int R[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,
        4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
    uint32_t K[64];
    for (int i = 0; i < 64; ++i) K[i] = (uint32_t)(int64_t)std::floor(std::fabs(std::sin((double)i + 1)) * 4294967296.0);
    std::string m = in;
    uint64_t bits = (uint64_t)in.size() * 8;
    m += (char)0x80;
    while (m.size() % 64 != 56) m += '\0';
    for (int i = 0; i < 8; ++i) m += (char)(bits >> (8 * i) & 255);
    uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[16];
        for (int i = 0; i < 16; ++i) { const unsigned char *p = (const unsigned char *)m.data() + o + 4 * (size_t)i; w[i] = p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; ++i) {
            uint32_t f; int g;
            if (i < 16) { f = (b & c) | (~b & d); g = i; }
            else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
            else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
            else { f = c ^ (b | ~d); g = 7 * i % 16; }
            uint32_t t = d; d = c; c = b;
            uint32_t x = a + f + K[i] + w[g];
            b = b + (x << R[i] | x >> (32 - R[i]));
            a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    std::string r; char bf[4];
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) { snprintf(bf, sizeof bf, "%02x", h[i] >> (8 * k) & 255); r += bf; }
    return r;
}
}
