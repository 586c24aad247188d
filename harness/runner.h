// Case runner shared by all monitors: deterministic seeds, progress record for
// crash attribution, violation and statistics output.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {               // splitmix64
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    size_t below(size_t n) { return n ? (size_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((size_t)(b - a + 1)); }
    // mostly in [a,b]; now and then spread logarithmically up to cap, so that
    // thresholds well above the usual sizes are crossed as well
    int big(int a, int b, int cap, int pct = 3) {
        if ((int)below(100) >= pct || cap <= b) return range(a, b);
        int lo = b + 1, hi = lo;
        while (hi < cap && (next() & 3)) hi = hi * 3 / 2 + 1;
        return range(lo, hi < cap ? hi : cap);
    }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t hash64(const std::string &s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
}

// JSON string; bytes that are not valid UTF-8 are written as latin-1 escapes
inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    size_t i = 0;
    char b[16];
    while (i < s.size()) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; ++i; }
        else if (c < 0x20 || c == 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; ++i; }
        else if (c < 0x80) { o += (char)c; ++i; }
        else {
            int n = (c & 0xe0) == 0xc0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : (c & 0xf8) == 0xf0 ? 3 : 0;
            bool ok = n > 0 && i + (size_t)n < s.size() + 0 && !(c == 0xc0 || c == 0xc1 || c > 0xf4);
            if (ok) for (int k = 1; k <= n; ++k) if (((unsigned char)s[i + (size_t)k] & 0xc0) != 0x80) ok = false;
            if (ok && c == 0xe0 && (unsigned char)s[i+1] < 0xa0) ok = false;
            if (ok && c == 0xed && (unsigned char)s[i+1] > 0x9f) ok = false;
            if (ok && c == 0xf0 && (unsigned char)s[i+1] < 0x90) ok = false;
            if (ok && c == 0xf4 && (unsigned char)s[i+1] > 0x8f) ok = false;
            if (ok) { o.append(s, i, (size_t)n + 1); i += (size_t)n + 1; }
            else { snprintf(b, sizeof b, "\\u%04x", c); o += b; ++i; }
        }
    }
    return o + "\"";
}

struct Ctx {
    std::string prop;
    uint64_t seed = 1;
    long idx = 0;
    bool thorough = false;
    Rng rng{1};
    FILE *out = nullptr;
    std::map<std::string, long> counts;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    long evals = 0;
    long viols = 0;
    bool verbose = false;

    void count(const std::string &k, long n = 1) { counts[k] += n; }
    void maxof(const std::string &k, long n) { auto &v = counts["max_" + k]; if (n > v) v = n; }
    // one evaluation; nontrivial evaluations are recorded by hash
    void eval(bool nontrivial, const std::string &what) {
        ++evals;
        if (nontrivial && distinct.size() < 400000) distinct.insert(hash64(what));
    }
    void sample(const std::string &s) {
        if (samples.size() < 3) samples.push_back(s);
    }
    // key identifies the kind of failure and, for known findings, the input
    void viol(const std::string &key, const std::string &detail) {
        ++viols;
        if (viols <= 50)
            fprintf(out, "{\"t\":\"viol\",\"case\":%ld,\"key\":%s,\"detail\":%s}\n", idx, jstr(key).c_str(), jstr(detail).c_str());
        fflush(out);
        if (verbose) fprintf(stderr, "VIOL %s: %s\n", key.c_str(), detail.c_str());
    }
};

typedef void (*CaseFn)(Ctx &);
typedef void (*InitFn)(Ctx &);
struct Module { const char *prop; CaseFn fn; InitFn init; };

inline volatile long *&progress_slot() { static volatile long *p = nullptr; return p; }

#include <sys/mman.h>
inline int run_main(int argc, char **argv, const std::vector<Module> &mods) {
    Ctx cx;
    long from = 0, to = 1;
    int casetimeout = 60;
    std::string outf, progf;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") cx.prop = nx();
        else if (a == "--seed") cx.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--from") from = atol(nx().c_str());
        else if (a == "--to") to = atol(nx().c_str());
        else if (a == "--out") outf = nx();
        else if (a == "--progress") progf = nx();
        else if (a == "--thorough") cx.thorough = true;
        else if (a == "--verbose") cx.verbose = true;
        else if (a == "--timeout") casetimeout = atoi(nx().c_str());
    }
    cx.out = outf.empty() ? stdout : fopen(outf.c_str(), "a");
    if (!cx.out) { perror("out"); return 97; }
    if (!progf.empty()) {
        int fd = open(progf.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("progress"); return 97; }
        progress_slot() = (volatile long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    const Module *m = nullptr;
    for (auto &x : mods) if (cx.prop == x.prop) m = &x;
    if (!m) { fprintf(stderr, "no module for %s\n", cx.prop.c_str()); return 97; }
    if (progress_slot()) *progress_slot() = -1;
    if (m->init) m->init(cx);
    for (long i = from; i < to; ++i) {
        cx.idx = i;
        cx.rng = Rng(hash64(cx.prop, cx.seed * 0x9e3779b97f4a7c15ULL + (uint64_t)i * 0xd1342543de82ef95ULL));
        if (progress_slot()) *progress_slot() = i;
        alarm((unsigned)casetimeout);        // SIGALRM kills: driver treats it as a hang
        m->fn(cx);
        alarm(0);
    }
    if (progress_slot()) *progress_slot() = -2;
    std::string st = "{\"t\":\"stats\",\"evals\":" + std::to_string(cx.evals) + ",\"counts\":{";
    bool first = true;
    for (auto &kv : cx.counts) { st += (first ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second); first = false; }
    st += "},\"samples\":[";
    first = true;
    for (auto &s : cx.samples) { st += (first ? "" : ",") + jstr(s); first = false; }
    st += "],\"hashes\":\"";
    fputs(st.c_str(), cx.out);
    for (uint64_t h : cx.distinct) fprintf(cx.out, "%016llx", (unsigned long long)h);
    fputs("\"}\n", cx.out);
    fflush(cx.out);
    return 0;
}
