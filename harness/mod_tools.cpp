// C28, C29, C30: the command line tools (tools/), run as programs on generated files;
// what they write is read back by separate readers.
#include "program.h"
#include "sqllex.h"
#include <cmath>
using namespace ref;

namespace {
Out tool(const Dir &d, const std::string &name, const std::vector<std::string> &args) { return program(d, gen::repo() + "/tools/" + name, args); }
// lexicon and grammar texts with everything that quoting can get wrong
std::string hostile(Ctx &cx, std::string t) {
    Rng &r = cx.rng;
    static const std::vector<std::string> bits = {"'", "''", "\\", "\\'", "$$", "$a$", "@x", "%s", "--", "/*", ";", "$1", "`", "\"", "@{[1]}", "E'", "\\n", "ö", "\xff", "$lex", "');"};
    for (int k = r.big(0, 6, 60); k > 0 && !t.empty(); --k) { size_t p = r.below(t.size()); t.insert(p, r.pick(bits)); cx.count("hostile_bits"); }
    if (r.chance(20)) { std::string u; for (char c : t) { if (c == '\n') u += '\r'; u += c; } t = u; cx.count("crlf_files"); }
    if (r.chance(20) && !t.empty() && t.back() == '\n') { t.pop_back(); cx.count("files_without_last_line_end"); }
    return t;
}
}

// ---- C28: the load script holds every file exactly -------------------------
void case_C28(Ctx &cx) {
    Rng &r = cx.rng;
    Dir d(cx);
    struct Set { std::string country, code, lex, gmr; };
    std::map<std::string, Set> want;        // by country name
    std::string data; bool shipped = cx.idx == 0, anyLex = false, missing = false;
    std::string desc;
    if (shipped) {
        data = gen::repo() + "/data/sample";
        for (auto &s : gen::samples()) {
            Set w; w.country = s.country; w.lex = s.lex; w.gmr = s.gmr;
            for (auto &l : lines(s.lex)) if (l.compare(0, 8, "LEXICON:") == 0) { w.code = cut(l, '\t')[3]; auto u = w.code.find('_'); if (u != std::string::npos) w.code = w.code.substr(u + 1); for (auto &c : w.code) c = (char)tolower((unsigned char)c); break; }
            want[w.country] = w;
        }
        anyLex = true;
    } else {
        static const std::vector<std::string> DIRN = {"data", "my data", "d'ata", "x(y)", "a&b", "données"};
        data = d.p + "/" + r.pick(DIRN); mkdir(data.c_str(), 0700);
        static const std::vector<std::string> CN = {"usa", "san_marino", "new zealand", "cote d'ivoire", "Österreich", "a-b", "x.y", "o''brien", "t(est)", "a&b", "us;a", "#1", "$HOME", "lexland", "gmrland", "a lex"};
        static const std::vector<std::string> LOC = {"en_US", "fr_CA", "de", "sr_RS", "EN_gb", "tr_TR", "gsw_CH"};
        std::set<std::string> used;
        for (int k = r.range(0, 4); k > 0; --k) {
            Set w; w.country = r.pick(CN); if (!used.insert(w.country).second) continue;
            std::string sub = data; if (r.chance(25)) { sub += "/sub dir"; mkdir(sub.c_str(), 0700); cx.count("nested_directories"); }
            std::string loc = r.pick(LOC);
            gen::LexOpt lo; lo.maxEntries = 8;
            gen::GLex g = gen::lexicon(r, lo);
            std::string body = g.text.substr(g.text.find('\n') == std::string::npos ? g.text.size() : g.text.find('\n') + 1);
            std::string pre;
            if (r.chance(30)) { pre += r.pick(std::vector<std::string>{"# a comment\n", "\n", "# see LEXICON:\tthe\tdocs\tzz_ZZ\n", "# it's\n", "  LEXICON: indented\n"}); cx.count("lines_before_header"); }
            if (r.chance(10)) { pre = "\xef\xbb\xbf"; cx.count("bom_files"); }
            w.lex = pre + "LEXICON:\tname" + std::to_string(k) + "\tENG\t" + loc + (r.chance(50) ? "\t" + std::to_string(k) : r.chance(30) ? "\t" : "") + "\n" + hostile(cx, body);
            if (r.chance(10)) w.lex += "# LEXICON:\tagain\tX\tyy_YY\n";
            w.gmr = hostile(cx, r.chance(10) ? "" : "[ADDRESS]\n@a\n[a]\n# it's a rule\nNUMBER WORD -> HOUSE STREET -> 0.5\nWORD -> CITY -> 0.4\n");
            w.code = loc; auto u = w.code.find('_'); if (u != std::string::npos) w.code = w.code.substr(u + 1);
            for (auto &c : w.code) c = (char)tolower((unsigned char)c);
            put(sub + "/" + w.country + ".lex", w.lex); anyLex = true;
            desc += w.country + "(" + loc + ") ";
            if (r.chance(12)) { missing = true; cx.count("sets_without_grammar"); continue; }
            put(sub + "/" + w.country + ".gmr", w.gmr);
            want[w.country] = w;
        }
        if (r.chance(40)) { put(data + "/notes.txt", "'"); put(data + "/old.lex.bak", "LEXICON:\tx\tENG\ten_US\n"); put(data + "/lone.gmr", "[ADDRESS]\n"); cx.count("other_files"); }
    }
    bool create = r.chance(50);
    static const std::vector<std::string> DS = {"sample", "tiger", "us-2", "my set"};
    std::string ds = r.pick(DS), outf = d.p + "/out file.sql";
    std::vector<std::string> args; if (create) args.push_back("-c");
    args.push_back(ds); args.push_back(data); args.push_back(outf);
    Out o = tool(d, "load-lex-gmr-files", args);
    std::string at = " sets: " + desc + (create ? "-c " : "") + "directory " + data.substr(d.p.size() < data.size() ? d.p.size() : 0) + " stderr: " + o.err.substr(0, 300);
    cx.count("runs"); cx.eval(!want.empty(), "C28" + desc + std::to_string(cx.idx)); cx.sample(desc + (create ? "-c" : ""));
    if (o.rc != 0) { cx.viol("tool-failed", "exit " + std::to_string(o.rc) + at); return; }
    if (missing && o.err.empty()) cx.viol("missing-file-not-reported", at);
    std::string text = gen::rdfile(outf), bad;
    auto st = sql(text, bad);
    if (!bad.empty()) { cx.viol("not-sql", bad + at); return; }
    // the statements, in order
    long iBegin = -1, iCommit = -1, iCreate = -1, iCompile = -1, iFirst = -1, iLast = -1, iEnc = -1;
    std::set<std::string> cols;
    std::multimap<std::string, std::map<std::string, std::string>> rows;
    for (size_t i = 0; i < st.size(); ++i) {
        const Stmt &s = st[i]; long k = (long)i;
        if (word(s, 0) == "begin" || word(s, 0) == "start") iBegin = k;
        else if (word(s, 0) == "commit" || word(s, 0) == "end") iCommit = k;
        else if (word(s, 0) == "set" && word(s, 1) == "client_encoding") iEnc = k;
        else if (word(s, 0) == "create" && word(s, 1) == "table") {
            iCreate = k; bool head = true;
            for (size_t j = 2; j < s.size(); ++j) { if (s[j].k == 'p' && (s[j].s == "(" || s[j].s == ",")) head = true; else { if (head && j > 3) cols.insert(s[j].s); head = false; } }
        }
        else if (word(s, 0) == "update") { bool c = false; for (auto &x : s) if (x.s == "as_compile_lexicon") c = true; if (c && word(s, 1) == "as_config") iCompile = k; }
        else if (word(s, 0) == "insert") {
            if (iFirst < 0) iFirst = k;
            iLast = k;
            if (word(s, 2) != "as_config") { cx.viol("insert-elsewhere", word(s, 2) + at); continue; }
            std::vector<std::string> c; size_t j = 4;
            for (; j < s.size() && word(s, j) != ")"; ++j) if (s[j].k == 'w') c.push_back(s[j].s);
            while (j < s.size() && word(s, j) != "(") ++j;
            do {                    // one tuple after the other
                std::map<std::string, std::string> row; size_t n = 0;
                for (++j; j < s.size() && word(s, j) != ")"; ++j) if (s[j].k == 's') { if (n < c.size()) row[c[n]] = s[j].s; ++n; }
                if (n != c.size()) cx.viol("not-sql", std::to_string(n) + " values for " + std::to_string(c.size()) + " columns" + at);
                rows.emplace(row["countryname"], row);
                while (j < s.size() && word(s, j) != "(") ++j;
            } while (j < s.size());
        }
    }
    for (auto &kv : want) {
        const Set &w = kv.second;
        size_t n = rows.count(w.country);
        if (n != 1) { cx.viol(n ? "set-twice" : "set-missing", w.country + at); continue; }
        auto &row = rows.find(w.country)->second;
        auto cmp = [&](const char *col, const std::string &v) { if (row[col] != v) cx.viol(std::string("differs ") + col, w.country + ": " + row[col].substr(0, 3000) + " expected " + v.substr(0, 3000) + at); };
        cmp("lexicon", w.lex); cmp("grammar", w.gmr); cmp("countrycode", w.code); cmp("dataset", ds);
        if (parseTypes(row["filter"]).empty() || parseTypes(row["filter"]).count(99)) cx.viol("filter-not-valid", row["filter"] + at);
        cx.count("sets_compared");
        if (shipped) {          // and each shipped set is usable as it is loaded
            auto c = api::compile(row["lexicon"]);
            if (c.null) cx.viol("shipped-lexicon-not-valid " + w.country, c.err.msg);
            auto g = api::gmrPtr(row["grammar"]);
            if (!g.p) cx.viol("shipped-grammar-not-valid " + w.country, g.err.msg); else freeGrammarPtr(g.p);
            cx.count("shipped_sets_loaded");
        }
    }
    if (rows.size() > want.size()) cx.viol("set-not-asked-for", std::to_string(rows.size()) + " inserts for " + std::to_string(want.size()) + " sets" + at);
    if (create && anyLex) {
        if (iCreate < 0) cx.viol("table-not-created", at);
        else if (iFirst >= 0 && iCreate > iFirst) cx.viol("table-created-late", at);
        for (auto &c : {"countrycode", "countryname", "dataset", "lexicon", "clexicon", "grammar", "filter"}) if (iCreate >= 0 && !cols.count(c)) cx.viol("column-missing", c + at);
        cx.count("tables_created");
    }
    if (!create && iCreate >= 0) cx.viol("table-created-unasked", at);
    if (iCompile < 0 || (iLast >= 0 && iCompile < iLast)) cx.viol("lexicons-not-compiled", at);
    if (iBegin < 0 || iCommit < 0 || iBegin > iCommit || (iFirst >= 0 && (iBegin > iFirst || iCommit < iLast)) || iCommit < iCompile) cx.viol("not-one-transaction", at);
    if (iEnc < 0 || (iFirst >= 0 && iEnc > iFirst)) cx.viol("encoding-not-set", at);
}

// ---- C29: compare-lexicon ----------------------------------------------------
void case_C29(Ctx &cx) {
    Rng &r = cx.rng;
    Dir d(cx);
    gen::LexOpt lo; lo.maxEntries = 14; lo.minEntries = 0;
    gen::GLex a = gen::lexicon(r, lo), b = gen::lexicon(r, lo);
    auto body = [&](std::vector<Entry> v, std::vector<std::string> &words, std::vector<std::string> &text) {
        static const std::vector<std::string> extra = {"# LEXENTRY:\tX\tX\tWORD\t", "", "   ", "\t", "  # comment", "\t# after a tab", " \t #LEXENTRY:", "#"};
        for (auto &e : v) {
            while (r.chance(15)) text.push_back(r.pick(extra));
            std::string l = gen::entryLine(e); while (!l.empty() && l.back() == '\n') l.pop_back();
            auto f = cut(l, '\t');
            if (f.size() < 2 || f[1].empty()) continue;
            if (r.chance(15) && !isspace((unsigned char)f[1][0]) && f[1][0] != '#') { l = l.substr(f[0].size() + 1); cx.count("lines_without_prefix"); }
            text.push_back(l); words.push_back(f[1]);
        }
    };
    auto eb = b.entries;
    // words that look alike: other case, the other prefix, blanks, part of another word
    static const std::vector<std::string> odd = {"LEXINGTON", "LEX", "LEXICON", "LEXENTRY", "LEXENTRY:X", "lexington", "abc", "ABC", "Abc", "AB", "ABCD", "key", "KEY", "0", "00", "A B", "A  B", "A.B", "A+", "É", "E"};
    for (int k = r.range(0, 6); k > 0; --k) { Entry e; e.word = r.pick(odd); e.std = r.pick(odd); e.types = {1}; a.entries.push_back(e); cx.count("lookalike_words"); }
    for (int k = r.range(0, 6); k > 0; --k) { Entry e; e.word = r.pick(odd); e.std = r.pick(odd); e.types = {1}; eb.push_back(e); }
    for (auto &e : a.entries) if (r.chance(60)) { auto x = e; if (r.chance(30)) x.std = "OTHER"; if (r.chance(30)) x.types = {1}; if (r.chance(6)) for (auto &c : x.word) c = (char)tolower((unsigned char)c); if (r.chance(15)) x.word += "X"; if (r.chance(10)) x.word = "KEY"; eb.push_back(x); }
    for (size_t i = eb.size(); i > 1; --i) std::swap(eb[i - 1], eb[r.below(i)]);
    std::vector<std::string> wa, wb, ta, tb;
    body(a.entries, wa, ta); body(eb, wb, tb);
    std::string head = "LEXICON:\tx\tENG\ten_US\t3";
    bool noHeadA = r.chance(6), noHeadB = r.chance(6);
    auto file = [&](const std::vector<std::string> &t, bool noHead) { std::string s; if (r.chance(30)) s += "# first\n\n"; if (!noHead) s += head + "\n"; for (auto &l : t) s += l + "\n"; if (r.chance(20) && !s.empty()) s.pop_back(); return s; };
    std::string fa = file(ta, noHeadA), fb = file(tb, noHeadB);
    std::string na = d.p + "/lex a.txt", nb = d.p + "/lex-b.txt";
    put(na, fa); put(nb, fb);
    Out o = tool(d, "compare-lexicon", {na, nb});
    std::string at = " stderr: " + o.err.substr(0, 200) + "\nA:\n" + fa + "\nB:\n" + fb;
    noHeadA = noHeadA && !wa.empty(); noHeadB = noHeadB && !wb.empty();
    cx.count("runs");
    if (noHeadA || noHeadB) {
        cx.eval(true, "C29" + fa + "\1" + fb); cx.count("rejected_files");
        if (o.rc == 0 || o.err.find(noHeadA ? na : nb) == std::string::npos || !o.out.empty()) cx.viol("missing-header-not-reported", "exit " + std::to_string(o.rc) + " output " + o.out + at);
        return;
    }
    std::set<std::string> in(wa.begin(), wa.end());
    std::string want;
    size_t k = 0;
    for (auto &l : tb) {
        bool skip = true; for (char c : l) if (!isspace((unsigned char)c)) { skip = c == '#'; break; }
        if (skip) continue;
        if (!in.count(wb[k])) { want += l + "\n"; cx.count("lines_reported"); } else cx.count("lines_common");
        ++k;
    }
    cx.eval(!want.empty(), "C29" + fa + "\1" + fb); cx.sample(std::to_string(wa.size()) + " against " + std::to_string(wb.size()) + " entries");
    if (o.rc != 0) cx.viol("tool-failed", "exit " + std::to_string(o.rc) + at);
    else if (o.out != want) cx.viol("report-differs", "got\n" + o.out + "expected\n" + want + at);
}

// ---- C30: the PAGC converters -------------------------------------------------
namespace {
// the PAGC numbering, from its documentation
const char *PIN[34] = {"NUMBER", "WORD", "TYPE", "QUALIF", "", "TYPE", "ROAD", "STOPWORD", "RR", "DASH", "CITY", "PROV", "NATION", "AMPERS", "BOXH", "ORD", "UNITH", "UNITT", "SINGLE", "BUILDH", "MILE",
                       "DOUBLE", "DIRECT", "MIXED", "BUILDT", "FRACT", "PCT", "PCH", "QUINT", "QUAD", "PUNCT", "SPACE", "PLACEN", "EMDASH"};
const char *POUT[18] = {"BLDNG", "HOUSE", "PREDIR", "QUALIF", "PRETYP", "STREET", "SUFTYP", "SUFDIR", "RR", "EXTRA", "CITY", "PROV", "NATION", "POSTAL", "BOXH", "BOXT", "UNITH", "UNITT"};
const char *PSEC[5] = {"MACRO", "MICRO", "ARC", "HOUSE", "BUILDING"};
void lexGaz(Ctx &cx) {
    Rng &r = cx.rng;
    Dir d(cx);
    static const std::vector<std::string> W = {"ST", "STREET", "ST.", "A(B", "C++", "[X", "$5", "a|b", "ÉTOILE", "NORTH WEST", "N", "1ST", "O'NEIL", "x\\y", "*", "10%", "st", "%s", "@a", "#4", "A", "AB", "ABC", "B", "BC", "C", "S", "T", "TREET"};
    std::map<std::pair<std::string, std::string>, std::set<std::string>> want;
    std::vector<std::string> files, args;
    for (int f = r.big(1, 2, 9, 6); f > 0; --f) {
        std::string t;
        for (int n = r.big(0, 14, 300, 6); n > 0; --n) {
            int w = (int)r.below(100);
            if (w < 12) { t += r.pick(std::vector<std::string>{"COPY lex (seq, word, token, stdword) FROM stdin;", "\\.", "1\tA", "", "1\tA\t1\tB\tC", "-- comment"}) + "\n"; cx.count("other_lines"); continue; }
            std::string word = r.pick(W), std = r.chance(50) ? word : r.pick(W);
            if (word.size() > 1 && (unsigned char)word.back() < 0x80 && r.chance(30)) {         // the same letters, divided elsewhere, as another pair
                std::string w2 = word.substr(0, word.size() - 1), s2 = word.back() + std; int c2; do c2 = (int)r.below(34); while (c2 == 4 || c2 == 5);
                t += "1\t" + w2 + "\t" + std::to_string(c2) + "\t" + s2 + "\n"; want[{w2, s2}].insert(PIN[c2]); cx.count("lookalike_pairs");
            }
            int c; do c = (int)r.below(34); while (c == 4 || c == 5);
            t += std::to_string(r.below(4)) + "\t" + word + "\t" + std::to_string(c) + "\t" + std + "\n";
            auto &s = want[{word, std}]; if (!s.empty()) cx.count("classes_merged");
            s.insert(PIN[c]);
        }
        std::string n = d.p + "/in" + std::to_string(f) + ".sql"; put(n, t); args.push_back(n); files.push_back(t);
    }
    Out o = tool(d, "convert-pagc-lex-gaz", args);
    std::string at = " stderr: " + o.err.substr(0, 300) + "\noutput:\n" + o.out + "\ninput:\n"; for (auto &f : files) at += f + "----\n";
    cx.count("lexicons_converted"); cx.eval(!want.empty(), "C30l" + at); cx.sample("lexicon of " + std::to_string(want.size()) + " entries");
    if (o.rc != 0) { cx.viol("tool-failed", "exit " + std::to_string(o.rc) + at); return; }
    std::map<std::pair<std::string, std::string>, std::set<std::string>> got;
    bool first = true;
    for (auto &l : lines(o.out)) {
        auto f = cut(l, '\t');
        if (first) { first = false; if (f[0] != "LEXICON:" || f.size() < 4) cx.viol("no-header", at); continue; }
        if (f.size() < 4 || f[0] != "LEXENTRY:") { cx.viol("line-malformed", l + at); return; }
        auto k = std::make_pair(f[1], f[2]);
        if (got.count(k)) cx.viol("entry-twice", l + at);
        for (auto &x : cut(f[3], ',')) got[k].insert(x);
        for (size_t i = 4; i < f.size(); ++i) if (!f[i].empty()) cx.viol("attachment-made-up", l + at);
        cx.count("entries");
    }
    if (got != want) { for (auto &w : want) if (!got.count(w.first) || got[w.first] != w.second) { cx.viol("entry-differs", w.first.first + "/" + w.first.second + at); return; } cx.viol("entry-made-up", at); }
    auto p = api::lexPtr(o.out);
    if (!p.p) cx.viol("not-loadable", p.err.msg + at); else { freeLexiconPtr(p.p); cx.count("loaded"); }
}
void rules(Ctx &cx) {
    Rng &r = cx.rng;
    Dir d(cx);
    struct R { std::string in, out; double score; size_t n; };
    std::vector<R> want[5];
    std::vector<std::string> files, args;
    bool full = r.chance(60);
    for (int f = r.big(1, 2, 9, 6); f > 0; --f) {
        std::string t;
        int n = r.big(0, 16, 300, 6);
        for (int k = 0; k < n + (full ? 5 : 0); ++k) {
            int w = (int)r.below(100);
            if (k >= 5 || !full) {
                if (w < 6) { t += r.pick(std::vector<std::string>{"-1", "# comment", "", "1 2 -1 3", "x 1 -1 5 -1 2 7"}) + "\n"; cx.count("other_lines"); continue; }
                if (w < 10) { t += "1 2 -1 5 -1 1 7\n"; cx.count("unequal_lines"); continue; }
                if (w < 14) { t += "1 2 -1 5 6 -1 " + std::to_string(r.range(5, 9)) + " 7\n"; cx.count("unknown_sections"); continue; }
            }
            R x; x.n = (size_t)r.big(1, 6, 40); std::string li, lo;
            for (size_t i = 0; i < x.n; ++i) {
                int a; do a = (int)r.below(34); while (a == 4);
                int b = (int)r.below(18);
                li += (i ? " " : "") + std::to_string(a); lo += (i ? " " : "") + std::to_string(b);
                x.in += (i ? " " : "") + std::string(PIN[a]); x.out += (i ? " " : "") + std::string(POUT[b]);
            }
            int type = full && k < 5 ? k : (int)r.below(5), sc = r.range(1, 20); x.score = sc / 20.0;
            std::string gap = r.chance(20) ? "  " : " ";
            t += li + " -1 " + lo + gap + "-1 " + std::to_string(type) + " " + std::to_string(sc) + (r.chance(10) ? " " : "") + "\n";
            want[type].push_back(x); cx.count("rules");
        }
        if (r.chance(50)) t += "-1\n";
        std::string n2 = d.p + "/rules" + std::to_string(f) + ".txt"; put(n2, t); args.push_back(n2); files.push_back(t);
    }
    Out o = tool(d, "convert-pagc-rules", args);
    std::string at = " stderr: " + o.err.substr(0, 300) + "\noutput:\n" + o.out + "\ninput:\n"; for (auto &f : files) at += f + "----\n";
    size_t total = 0; for (auto &w : want) total += w.size();
    cx.count("grammars_converted"); cx.eval(total > 0, "C30r" + at); cx.sample("grammar of " + std::to_string(total) + " rules");
    if (o.rc != 0) { cx.viol("tool-failed", "exit " + std::to_string(o.rc) + at); return; }
    std::map<std::string, std::vector<R>> got; std::map<std::string, int> seen; std::multiset<std::string> meta;
    std::string cur;
    for (auto &l : lines(o.out)) {
        if (l.empty() || l[0] == '#') continue;
        if (l[0] == '[') { cur = l.substr(1, l.find(']') - 1); ++seen[cur]; continue; }
        if (cur == "ADDRESS") { meta.insert(l); continue; }
        R x; size_t a = l.find(" -> "), b = a == std::string::npos ? a : l.find(" -> ", a + 4);
        if (b == std::string::npos) { cx.viol("line-malformed", l + at); return; }
        x.in = l.substr(0, a); x.out = l.substr(a + 4, b - a - 4); x.score = atof(l.c_str() + b + 4); x.n = ref::words(x.in).size();
        if (!got[cur].empty() && got[cur].back().n < x.n) cx.viol("longer-rule-later", l + at);
        got[cur].push_back(x);
    }
    for (int s = 0; s < 5; ++s) {
        if (seen[PSEC[s]] != 1) cx.viol("section-missing", PSEC[s] + at);
        auto &g = got[PSEC[s]];
        auto key = [](const R &x) { char b[32]; snprintf(b, sizeof b, "%.6f", x.score); return x.in + " -> " + x.out + " -> " + b; };
        std::multiset<std::string> mg, mw; for (auto &x : g) mg.insert(key(x)); for (auto &x : want[s]) mw.insert(key(x));
        if (mg != mw) { for (auto &x : mw) if (mg.count(x) != mw.count(x)) { cx.viol("rule-differs", std::string(PSEC[s]) + ": " + x + at); return; } cx.viol("rule-made-up", PSEC[s] + at); return; }
    }
    std::multiset<std::string> wm = {"@MICRO @MACRO", "@HOUSE @ARC @MACRO", "@BUILDING @MICRO @MACRO", "@BUILDING @HOUSE @ARC @MACRO"};
    if (meta != wm) cx.viol("address-section-differs", at);
    bool all = true; for (auto &w : want) if (w.empty()) all = false;
    if (all) { auto p = api::gmrPtr(o.out); if (!p.p) cx.viol("not-loadable", p.err.msg + at); else { freeGrammarPtr(p.p); cx.count("loaded_grammars"); } }
}
}
void case_C30(Ctx &cx) { if (cx.rng.chance(50)) lexGaz(cx); else rules(cx); }
