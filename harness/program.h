// Running a program of the repository on files of its own, in a scratch directory.
#pragma once
#include "common.h"
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace {
struct Dir {                        // a scratch directory of this case
    std::string p;
    explicit Dir(Ctx &cx) {
        const char *s = getenv("ASV_SCRATCH");
        std::string t = std::string(s && *s ? s : "/tmp") + "/case-" + cx.prop + "-" + std::to_string(cx.idx) + "-XXXXXX";
        std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(97); }
        p = b.data();
    }
    static void wipe(const std::string &d) {
        DIR *h = opendir(d.c_str());
        if (!h) return;
        while (dirent *e = readdir(h)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            struct stat st; std::string f = d + "/" + n;
            if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) wipe(f); else unlink(f.c_str());
        }
        closedir(h); rmdir(d.c_str());
    }
    ~Dir() { wipe(p); }
};
void put(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
struct Out { int rc; std::string out, err; };
// a script without an interpreter line is run by perl
Out program(const Dir &d, const std::string &prog, const std::vector<std::string> &args, const std::string &input = "") {
    std::string fi = d.p + "/.in", fo = d.p + "/.out", fe = d.p + "/.err";
    put(fi, input);
    pid_t k = fork();
    if (k < 0) { perror("fork"); _exit(97); }
    if (k == 0) {
        alarm(0);
        rlimit fs = {256u << 20, 256u << 20}, cpu = {100, 100}; setrlimit(RLIMIT_FSIZE, &fs); setrlimit(RLIMIT_CPU, &cpu);     // a program that never stops writing
        int o = open(fo.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), e = open(fe.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), z = open(fi.c_str(), O_RDONLY);
        dup2(z, 0); dup2(o, 1); dup2(e, 2);
        if (chdir(d.p.c_str())) _exit(126);
        std::vector<char *> a; a.push_back((char *)prog.c_str());
        for (auto &x : args) a.push_back((char *)x.c_str());
        a.push_back(nullptr);
        execv(prog.c_str(), a.data());
        a.insert(a.begin(), (char *)"perl");
        execvp("perl", a.data());
        _exit(127);
    }
    int st = 0; waitpid(k, &st, 0);
    Out r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.out = gen::rdfile(fo); r.err = gen::rdfile(fe);
    unlink(fi.c_str()); unlink(fo.c_str()); unlink(fe.c_str());
    if (r.rc == 127) { fprintf(stderr, "cannot run %s\n", prog.c_str()); _exit(97); }
    return r;
}
std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
std::vector<std::string> cut(const std::string &s, char c) { std::vector<std::string> v; std::string t; for (char x : s) if (x == c) { v.push_back(t); t.clear(); } else t += x; v.push_back(t); return v; }
}
