#pragma once
#include <cctype>
#include <string>
#include <vector>
// ---- a reader of SQL text (standard strings, comments, dollar quotes) ----
struct Lexeme { char k; std::string s; };       // w word (lower case), s string, p punctuation
typedef std::vector<Lexeme> Stmt;
inline std::vector<Stmt> sql(const std::string &t, std::string &bad) {
    std::vector<Stmt> v; Stmt c; size_t i = 0, n = t.size();
    while (i < n) {
        unsigned char ch = (unsigned char)t[i];
        if (isspace(ch)) { ++i; continue; }
        if (ch == '\\') { while (i < n && t[i] != '\n') ++i; continue; }        // psql
        if (t.compare(i, 2, "--") == 0) { while (i < n && t[i] != '\n') ++i; continue; }
        if (t.compare(i, 2, "/*") == 0) { size_t e = t.find("*/", i + 2); if (e == std::string::npos) { bad = "unfinished comment"; return v; } i = e + 2; continue; }
        if (ch == ';') { if (!c.empty()) v.push_back(c); c.clear(); ++i; continue; }
        bool esc = (ch == 'e' || ch == 'E') && i + 1 < n && t[i + 1] == '\'';
        if (ch == '\'' || esc) {
            std::string s; i += esc ? 2 : 1;
            for (;; ++i) {
                if (i >= n) { bad = "unfinished string"; return v; }
                if (t[i] == '\'') { if (i + 1 < n && t[i + 1] == '\'') { s += '\''; ++i; continue; } ++i; break; }
                if (esc && t[i] == '\\' && i + 1 < n) { char x = t[++i]; s += x == 'n' ? '\n' : x == 't' ? '\t' : x == 'r' ? '\r' : x; continue; }
                s += t[i];
            }
            c.push_back({'s', s}); continue;
        }
        if (ch == '$') {
            size_t e = i + 1; while (e < n && (isalnum((unsigned char)t[e]) || t[e] == '_')) ++e;
            if (e < n && t[e] == '$') {
                std::string tag = t.substr(i, e - i + 1); size_t z = t.find(tag, e + 1);
                if (z == std::string::npos) { bad = "unfinished string"; return v; }
                c.push_back({'s', t.substr(e + 1, z - e - 1)}); i = z + tag.size(); continue;
            }
        }
        if (isalnum(ch) || ch == '_' || ch >= 0x80) { std::string s; while (i < n && (isalnum((unsigned char)t[i]) || t[i] == '_' || (unsigned char)t[i] >= 0x80)) s += (char)tolower((unsigned char)t[i++]); c.push_back({'w', s}); continue; }
        c.push_back({'p', std::string(1, (char)ch)}); ++i;
    }
    if (!c.empty()) { bad = "last statement not ended"; v.push_back(c); }
    return v;
}
inline std::string word(const Stmt &s, size_t i) { return i < s.size() && s[i].k != 's' ? s[i].s : ""; }

