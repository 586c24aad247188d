// Helpers shared by the monitor modules.
#pragma once
#include "mods.h"
#include <algorithm>

struct LexHandle {
    void *p = nullptr;
    explicit LexHandle(Ctx &cx, const std::string &t, bool expectOk = true) {
        auto r = api::lexPtr(t); p = r.p;
        if (!p && expectOk) cx.viol("lexicon-not-loaded", r.err.msg + " text=" + t);
    }
    ~LexHandle() { if (p) freeLexiconPtr(p); }
    LexHandle(const LexHandle &) = delete;
};
struct GmrHandle {
    void *p = nullptr;
    explicit GmrHandle(Ctx &cx, const std::string &t, bool expectOk = true) {
        auto r = api::gmrPtr(t); p = r.p;
        if (!p && expectOk) cx.viol("grammar-not-loaded", r.err.msg + " text=" + t);
    }
    ~GmrHandle() { if (p) freeGrammarPtr(p); }
    GmrHandle(const GmrHandle &) = delete;
};

std::vector<api::PTok> pat0(const api::Parse &p);
size_t readingCount(const std::vector<ref::Tok> &v);
std::vector<ref::Tok> toTok(const std::vector<api::PTok> &v);
// all readings as observed, in order
std::vector<std::vector<ref::Tok>> obsReadings(const api::Parse &p);
// sometimes a lexicon shipped with the repository
gen::GLex genLex(Ctx &cx, const gen::LexOpt &o = gen::LexOpt());
std::string genAddr(Ctx &cx, gen::GLex &g, std::string &loc);
