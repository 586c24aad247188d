"""Builds /repo's sources (from the current working tree) plus harness files
into instrumented binaries.  Objects are cached by content hash under
/verif/build, so a changed source is always recompiled."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ASV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

VARIANTS = {
    "asan": dict(flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                        "-fsanitize-ignorelist=" + os.path.join(VERIF, "lib", "ignorelist.txt")]),
    "tsan": dict(flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
    "plain": dict(flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]),
}
LIBS = ["-lboost_regex", "-lboost_serialization", "-licui18n", "-licuio", "-licuuc", "-licudata", "-lpthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def pg_include():
    try:
        d = subprocess.run(["/usr/bin/pg_config", "--includedir-server"], capture_output=True, text=True).stdout.strip()
        i = subprocess.run(["/usr/bin/pg_config", "--includedir"], capture_output=True, text=True).stdout.strip()
        v = subprocess.run(["/usr/bin/pg_config", "--version"], capture_output=True, text=True).stdout.split()[1]
    except FileNotFoundError:
        raise BuildError("pg_config not found")
    return d, i, v


def compile_one(src, obj, cmd):
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return "compile failed: %s\n%s" % (src, r.stderr[-4000:])
    os.replace(tmp, obj)
    return None


def build(name, harness, variant="asan", repo_only=None, pg=False, extra_flags=(), link=(), with_c=False):
    """Link harness files (names under harness/) with the library objects;
    repo_only restricts the library sources to the given basenames."""
    flags = list(VARIANTS[variant]["flags"])
    od = os.path.join(BUILD, variant)
    os.makedirs(od, exist_ok=True)
    hdr_repo = b"".join(p.encode() + rd(p) for p in sorted(glob.glob(SRC + "/*.h")))
    hdr_h = b"".join(p.encode() + rd(p) for p in sorted(glob.glob(HARN + "/*.h")))
    jobs = []
    cpps = sorted(glob.glob(SRC + "/*.cpp"))
    if repo_only is not None:
        cpps = [c for c in cpps if os.path.basename(c) in repo_only]
    objs = []
    for c in cpps:
        cmd = ["clang++", "-std=c++11", "-w", "-I", SRC] + flags
        k = sha(rd(c), hdr_repo, " ".join(cmd))
        o = os.path.join(od, os.path.basename(c)[:-4] + "-" + k + ".o")
        jobs.append((c, o, cmd)); objs.append(o)
    if pg or with_c:
        inc, inc2, ver = pg_include()
        major = int(ver.split(".")[0])
        cs = sorted(glob.glob(SRC + "/*.c"))
        for c in cs:
            cmd = ["clang", "-w", "-std=gnu11", "-I", SRC, "-I", inc, "-I", inc2,
                   "-DPGSQL_VERSION=%d" % (major * 10)] + flags
            k = sha(rd(c), hdr_repo, " ".join(cmd), ver)
            o = os.path.join(od, "c_" + os.path.basename(c)[:-2] + "-" + k + ".o")
            jobs.append((c, o, cmd)); objs.append(o)
    for h in harness:
        p = os.path.join(HARN, h)
        if h.endswith(".c"):
            inc, inc2, ver = pg_include()
            cmd = ["clang", "-w", "-std=gnu11", "-I", SRC, "-I", inc, "-I", inc2] + flags + list(extra_flags)
        else:
            cmd = ["clang++", "-std=c++17", "-w", "-I", SRC, "-I", HARN] + flags + list(extra_flags)
        k = sha(rd(p), hdr_repo, hdr_h, " ".join(cmd))
        o = os.path.join(od, "h_" + os.path.basename(h).split(".")[0] + "-" + k + ".o")
        jobs.append((p, o, cmd)); objs.append(o)
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**6 if "tokenizer" in j[0] or "lexicon" in j[0] or "as_wrapper" in j[0] else 0))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    exe = os.path.join(od, name + "-" + sha(*sorted(objs), " ".join(flags), " ".join(link)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++"] + flags + objs + list(link) + LIBS + ["-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link failed\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe


# the command line programs of src/tester
PROGRAMS = ["t2", "t4", "t5", "compile-lexicon", "read-dump-lexicon", "read-dump-grammar", "regex-tester"]


def programs(variant):
    """Builds src/tester's programs with the library objects; returns the
    environment that tells the harness where they are."""
    flags = list(VARIANTS[variant]["flags"])
    od = os.path.join(BUILD, variant)
    os.makedirs(od, exist_ok=True)
    hdr = b"".join(p.encode() + rd(p) for p in sorted(glob.glob(SRC + "/*.h")))
    jobs, libs, mains = [], [], {}
    for c in sorted(glob.glob(SRC + "/*.cpp")) + [os.path.join(SRC, "tester", n + ".cpp") for n in PROGRAMS]:
        cmd = ["clang++", "-std=c++11", "-w", "-I", SRC] + flags
        if not os.path.exists(c):
            raise BuildError("no source " + c)
        own = os.path.dirname(c) != SRC
        k = sha(rd(c), hdr, " ".join(cmd))
        o = os.path.join(od, ("cli_" if own else "") + os.path.basename(c)[:-4] + "-" + k + ".o")
        jobs.append((c, o, cmd))
        if own: mains[os.path.basename(c)[:-4]] = o
        else: libs.append(o)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    env = {}
    # an archive, so that each program takes only what it uses
    lib = os.path.join(od, "lib-" + sha(*sorted(libs)) + ".a")
    if not os.path.exists(lib):
        tmp = lib + ".%d.tmp" % os.getpid()
        r = subprocess.run(["ar", "rcs", tmp] + libs, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("ar failed\n" + r.stderr[-4000:])
        os.replace(tmp, lib)

    def link(n):
        exe = os.path.join(od, "cli-" + n + "-" + sha(mains[n], *sorted(libs), " ".join(flags)))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run(["clang++"] + flags + [mains[n], lib] + ["-lboost_wserialization"] + LIBS + ["-o", tmp], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link failed\n" + r.stderr[-4000:])
            os.replace(tmp, exe)
        env["ASV_PROG_" + n.replace("-", "_")] = exe
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(link, PROGRAMS))
    return env
