#include "api.h"
#include <algorithm>
namespace api {
std::string show(const Match &m) {
    if (m.null) return "NULL err=" + (m.err.set ? m.err.msg : m.err.untouched ? "(untouched)" : "none");
    std::vector<std::string> l;
    for (auto &r : m.v) { char b[80]; snprintf(b, sizeof b, " %.9g %.9g", r.score, r.nrules); l.push_back(r.pat + b); }
    // rows with equal scores have no defined order
    for (size_t i = 0; i < l.size();) {
        size_t j = i + 1;
        while (j < l.size() && m.v[j].score == m.v[i].score) ++j;
        std::sort(l.begin() + (long)i, l.begin() + (long)j);
        i = j;
    }
    std::string s;
    for (auto &x : l) s += x + "\n";
    return s;
}
}
