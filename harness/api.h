// The C API under test, called the way a C client calls it, with owned results.
#pragma once
#include "model.h"
#include "address_standardizer.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace api {
// a private heap copy so that overreads are seen
struct Z {
    char *p;
    explicit Z(const std::string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); }
    ~Z() { free(p); }
    Z(const Z &) = delete;
    operator char *() { return p; }
};
inline char unset_[8];
inline char *const UNSET = unset_;      // where the caller's message pointer points before the call
struct Err { bool set = false; bool untouched = false; std::string msg; };
inline Err takeErr(char *e) { Err r; if (e == UNSET) { r.untouched = true; return r; } if (e) { r.set = true; r.msg = e; free(e); } return r; }

struct PTok { int pat, seq; std::string word, cls, att; };
struct Parse { bool null = true; Err err; std::vector<PTok> v; };
struct MRow { std::string pat; double score, nrules; };
struct Match { bool null = true; Err err; std::vector<MRow> v; };
struct StdR { bool null = true; Err err; ref::Std s; };

inline Parse takeParse(TOKENS *t, int n, char *e) {
    Parse r; r.err = takeErr(e);
    if (!t) return r;
    r.null = false;
    for (int i = 0; i < n; ++i) {
        r.v.push_back(PTok{t[i].pat, t[i].seq, t[i].word ? t[i].word : "(null)", t[i].inclass ? t[i].inclass : "(null)", t[i].attached ? t[i].attached : "(null)"});
        free(t[i].word); free(t[i].inclass); free(t[i].attached);
    }
    free(t);
    return r;
}
inline Match takeMatch(MTOKEN *t, int n, char *e) {
    Match r; r.err = takeErr(e);
    if (!t) return r;
    r.null = false;
    for (int i = 0; i < n; ++i) { r.v.push_back(MRow{t[i].tokens ? t[i].tokens : "(null)", t[i].score, t[i].nrules}); free(t[i].tokens); }
    free(t);
    return r;
}
inline StdR takeStd(STDADDR *s, char *e) {
    StdR r; r.err = takeErr(e);
    for (int i = 0; i < 17; ++i) r.s.has[i] = false;
    if (!s) return r;
    r.null = false;
    char *f[17] = {s->building, s->house_num, s->predir, s->qual, s->pretype, s->name, s->suftype, s->sufdir, s->ruralroute,
                   s->extra, s->city, s->prov, s->country, s->postcode, s->box, s->unit, s->pattern};
    for (int i = 0; i < 17; ++i) if (f[i]) { r.s.has[i] = true; r.s.f[i] = f[i]; free(f[i]); }
    free(s);
    return r;
}
inline Parse parse(const std::string &a, const std::string &lex, const std::string &loc, const std::string &flt) {
    Z za(a), zl(lex), zo(loc), zf(flt); int n = 0; char *e = UNSET;
    TOKENS *t = std_parse_address(za, zl, zo, zf, &n, &e);
    return takeParse(t, n, e);
}
inline Parse parseP(const std::string &a, void *lex, const std::string &loc, const std::string &flt) {
    Z za(a), zo(loc), zf(flt); int n = 0; char *e = UNSET;
    TOKENS *t = std_parse_address_ptrs(za, lex, zo, zf, &n, &e);
    return takeParse(t, n, e);
}
inline Match match(const std::string &a, const std::string &g, const std::string &lex, const std::string &loc, const std::string &flt) {
    Z za(a), zg(g), zl(lex), zo(loc), zf(flt); int n = 0; char *e = UNSET;
    MTOKEN *t = std_match_address(za, zg, zl, zo, zf, &n, &e);
    return takeMatch(t, n, e);
}
inline StdR stdz(const std::string &a, const std::string &g, const std::string &lex, const std::string &loc, const std::string &flt) {
    Z za(a), zg(g), zl(lex), zo(loc), zf(flt); char *e = UNSET;
    STDADDR *s = std_standardize(za, zg, zl, zo, zf, &e);
    return takeStd(s, e);
}
inline StdR stdzP(const std::string &a, void *g, void *lex, const std::string &loc, const std::string &flt) {
    Z za(a), zo(loc), zf(flt); char *e = UNSET;
    STDADDR *s = std_standardize_ptrs(za, g, lex, zo, zf, &e);
    return takeStd(s, e);
}
struct Ptr { void *p = nullptr; Err err; };
inline Ptr lexPtr(const std::string &l) { Z z(l); char *e = UNSET; Ptr r; r.p = getLexiconPtr(z, &e); r.err = takeErr(e); return r; }
inline Ptr gmrPtr(const std::string &l) { Z z(l); char *e = UNSET; Ptr r; r.p = getGrammarPtr(z, &e); r.err = takeErr(e); return r; }
struct Str { bool null = true; std::string s; Err err; };
inline Str compile(const std::string &l) { Z z(l); char *e = UNSET; char *c = serialize_lexicon(z, &e); Str r; r.err = takeErr(e); if (c) { r.null = false; r.s = c; free(c); } return r; }
inline std::string takeStr(char *c) { if (!c) return "(null)"; std::string s = c; free(c); return s; }
inline std::string md5(const std::string &t) { Z z(t); return takeStr(getMd5(z)); }

// serializations used to compare whole results
inline std::string show(const Parse &p) {
    if (p.null) return "NULL err=" + (p.err.set ? p.err.msg : p.err.untouched ? "(untouched)" : "none");
    std::string s;
    for (auto &t : p.v) s += std::to_string(t.pat) + ":" + std::to_string(t.seq) + ":" + t.word + ":" + t.cls + ":" + t.att + "\n";
    return s;
}
std::string show(const Match &m);       // order independent among equal scores
inline std::string show(const StdR &s) { return s.null ? "NULL err=" + (s.err.set ? s.err.msg : s.err.untouched ? "(untouched)" : "none") : s.s.show(); }
inline std::string show(const ref::Tok &t) { std::string s = t.text + "["; for (int c : t.cls) s += std::string(ref::inName(c)) + ","; return s + "]"; }
inline std::string show(const std::vector<ref::Tok> &v) { std::string s; for (auto &t : v) s += show(t) + " "; return s; }
}
