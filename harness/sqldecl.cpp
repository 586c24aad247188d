#include "sqldecl.h"
#include "sqllex.h"
#include <set>
namespace {
std::string canon(std::vector<std::string> w) {         // type name
    std::string t;
    for (auto &x : w) { if (x == "(") break; if (x == "pg_catalog" || x == "." || x == "\"") continue; t += (t.empty() ? "" : " ") + x; }
    static const std::map<std::string, std::string> m = {{"varchar", "text"}, {"character varying", "text"}, {"int", "int4"}, {"integer", "int4"}, {"smallint", "int2"}, {"bigint", "int8"}, {"float", "float8"}, {"double precision", "float8"}, {"real", "float4"}, {"bool", "boolean"}};
    auto i = m.find(t); return i == m.end() ? t : i->second;
}
}
std::map<std::string, SqlFn> sqlFunctions(const std::string &text, std::string &bad) {
    std::map<std::string, SqlFn> v;
    for (auto &st : sql(text, bad)) {
        Stmt s; for (auto &l : st) if (!(l.k == 'p' && l.s == "\"")) s.push_back(l);
        size_t i = 0;
        if (word(s, i) != "create") continue;
        ++i; if (word(s, i) == "or") i += 2;
        if (word(s, i) != "function") continue;
        SqlFn f; ++i;
        while (word(s, i + 1) == ".") i += 2;
        f.name = word(s, i++);
        if (word(s, i) != "(") { f.odd = true; v[f.name] = f; continue; }
        ++i; int depth = 1; std::vector<std::string> a;
        auto flush = [&](bool table) {
            if (a.empty()) return;
            SqlArg x; size_t k = 0; x.mode = table ? "out" : "in";
            if (a[0] == "in" || a[0] == "out" || a[0] == "inout") { x.mode = a[0]; ++k; } else if (a[0] == "variadic") f.odd = true;
            if (k + 1 < a.size() && !(a[k] == "double" || a[k] == "character")) x.name = a[k++]; else f.odd = true;
            std::vector<std::string> t; for (; k < a.size() && a[k] != "default" && a[k] != "="; ++k) t.push_back(a[k]);
            x.type = canon(t); if (x.mode == "inout") f.odd = true;
            f.args.push_back(x); a.clear();
        };
        for (; i < s.size() && depth; ++i) {
            std::string w = s[i].k == 's' ? "'" : s[i].s;
            if (w == "(") ++depth;
            if (w == ")" && --depth == 0) break;
            if (w == "," && depth == 1) flush(false); else a.push_back(w);
        }
        flush(false); ++i;
        for (; i < s.size(); ++i) {
            std::string w = word(s, i);
            if (w == "returns" && word(s, i + 1) == "null") { f.strict = true; i += 4; continue; }
            if (w == "returns") {
                ++i; if (word(s, i) == "setof") { f.set = true; ++i; }
                if (word(s, i) == "table") {
                    f.set = true; f.returns = "record"; i += 2; depth = 1;
                    for (; i < s.size() && depth; ++i) { std::string x = s[i].s; if (x == "(") ++depth; if (x == ")" && --depth == 0) break; if (x == "," && depth == 1) flush(true); else a.push_back(x); }
                    flush(true); continue;
                }
                std::vector<std::string> t; t.push_back(word(s, i)); if (t[0] == "double" || t[0] == "character") t.push_back(word(s, ++i));
                f.returns = canon(t); continue;
            }
            if (w == "strict") f.strict = true;
            if (w == "language") { ++i; f.lang = i < s.size() ? s[i].s : ""; for (auto &c : f.lang) c = (char)tolower((unsigned char)c); }
            if (w == "as") { if (i + 1 < s.size() && s[i + 1].k == 's') { f.lib = s[++i].s; f.symbol = f.name; if (word(s, i + 1) == "," && i + 2 < s.size() && s[i + 2].k == 's') { f.symbol = s[i + 2].s; i += 2; } } else f.odd = true; }
        }
        v[f.name] = f;
    }
    return v;
}
