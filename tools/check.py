#!/usr/bin/env python3
"""Builds fuzzylite from /repo's working tree and runs the checks of one property.

usage: check.py ID [--tier quick|thorough] [--only suite[,suite]] [--build-only]
Exit 0: held; 1: VIOLATION line printed; anything else: error of the check.
"""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

BASE = ["-DFL_BACKTRACE", "-I" + REPO, "-Wno-deprecated-declarations", "-w", "-g1"]
VARIANTS = {
    # the flags of the project's own build
    "opt": (["g++"], ["-O2", "-DNDEBUG", "-fPIC"], ["-rdynamic"]),
    # memory errors, undefined behaviour
    "asan": (["g++"], ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,vptr",
                       "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,undefined"]),
    # every memory access, atomic, lock and function entry calls the controlled scheduler in lib/vfsched.cpp
    "sched": (["clang++"], ["-O0", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], []),
    "tsan": (["clang++"], ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
WRAPPED = ("memcmp strlen memchr __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once "
           "pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock strtok rand srand setlocale localtime gmtime _ZNSt6locale6globalERKS_").split()


def load_checks():
    with open(os.path.join(VERIF, "tools", "checks.json")) as f:
        return json.load(f)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    files = sorted(glob.glob(REPO + "/fuzzylite/**/*.h", recursive=True) + glob.glob(REPO + "/fl/**/*.h", recursive=True))
    return sha(*[f + sha(read(f)) for f in files])


def lib_sources():
    lst = os.path.join(REPO, "FL_SOURCES")
    srcs = []
    if os.path.exists(lst):
        srcs = [os.path.join(REPO, l.strip()) for l in open(lst) if l.strip().endswith(".cpp")]
    if not srcs:
        srcs = glob.glob(REPO + "/src/**/*.cpp", recursive=True)
    return sorted(s for s in srcs if os.path.basename(s) != "main.cpp")


def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        os.utime(out)
        return None
    tmp = out + ".%d.tmp" % os.getpid() + hashlib.md5(repr(cmd).encode()).hexdigest()[:6] + ".o"
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        return " ".join(cmd) + "\n" + r.stdout[-6000:]
    os.replace(tmp, out)
    return None


def build(parts):
    """parts: list of (harness, variant). Returns the list of binaries."""
    hh = headers_hash()
    os.makedirs(BUILD, exist_ok=True)
    jobs, links = [], []
    vfh = sha(*[read(f) for f in sorted(glob.glob(VERIF + "/lib/*.h") + glob.glob(VERIF + "/checks/*.h"))])
    for harness, variant in parts:
        comp, flags, lflags = VARIANTS[variant]
        od = os.path.join(BUILD, "obj", variant)
        os.makedirs(od, exist_ok=True)
        objs = []
        for s in lib_sources():
            # __FILE__ shows in messages: sources are named as the project's build names them
            cmd = comp + BASE + flags + ["-std=gnu++11", "-c", s]
            o = os.path.join(od, os.path.basename(s)[:-4] + "-" + sha(" ".join(cmd), read(s), hh) + ".o")
            jobs.append((cmd, o))
            objs.append(o)
        hf = [f for f in flags if not f.startswith("-fsanitize-coverage") and f != "-DNDEBUG"]
        hsrcs = [os.path.join(VERIF, "checks", harness + ".cpp"), os.path.join(VERIF, "lib", "vf.cpp")]
        if variant == "sched":
            hsrcs.append(os.path.join(VERIF, "lib", "vfsched.cpp"))
            lflags = ["-Wl,--wrap=" + w for w in WRAPPED]
        for s in hsrcs:
            extra = ["-DVF_NO_NEW"] if variant in ("tsan", "sched") else []
            plain = variant == "sched" and not s.startswith(os.path.join(VERIF, "checks"))
            cmd = comp + BASE + (["-O2"] if plain else hf) + extra + ["-O1", "-std=gnu++17", "-I" + VERIF + "/lib", "-c", s]
            dep = vfh if s.endswith("vf.cpp") or s.endswith("vfsched.cpp") else vfh + hh
            o = os.path.join(od, "h-" + os.path.basename(s)[:-4] + "-" + sha(" ".join(cmd), read(s), dep) + ".o")
            jobs.insert(0, (cmd, o))
            objs.append(o)
        links.append((harness, variant, comp, lflags, objs))
    seen, uniq = set(), []
    for j in jobs:
        if j[1] not in seen:
            seen.add(j[1])
            uniq.append(j)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, uniq) if e]
    if errs:
        sys.stderr.write("build failed\n" + errs[0] + "\n")
        sys.exit(2)
    bins = []
    bd = os.path.join(BUILD, "bin")
    os.makedirs(bd, exist_ok=True)
    for harness, variant, comp, lflags, objs in links:
        out = os.path.join(bd, "%s-%s-%s" % (harness, variant, sha(*(objs + lflags))))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(bd, "%s-%s-*" % (harness, variant))):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run(comp + lflags + objs + ["-o", tmp, "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode:
                sys.stderr.write("link failed\n" + r.stdout[-6000:] + "\n")
                sys.exit(2)
            os.replace(tmp, out)
        bins.append(out)
    # forget objects not used for a day, and keep the cache from growing without bound
    objs = sorted(glob.glob(BUILD + "/obj/*/*.o"), key=os.path.getmtime)
    for o in objs[:-3000]:
        os.unlink(o)
    return bins


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only, build_only, deadline = None, False, None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--deadline":
            deadline = args.pop(0)
        elif a == "--build-only":
            build_only = True
        else:
            sys.exit("unknown option " + a)
    checks = load_checks()
    if pid == "all":
        build([tuple(p[:2]) for c in checks.values() for p in c["parts"]])
        return 0
    conf = checks[pid]
    parts = [p for p in conf["parts"] if len(p) < 3 or tier in p[2]]
    t0 = time.time()
    bins = build([tuple(p[:2]) for p in parts])
    print("build %.1fs" % (time.time() - t0), flush=True)
    if build_only:
        return 0
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit():
        seed = "1"
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    rc, merged = 0, None
    total = float(deadline or (420 if tier == "quick" else 3000))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
    env["TSAN_OPTIONS"] = "exitcode=79:halt_on_error=1"
    env["LC_ALL"] = "C"
    env["VP_REPO"] = REPO
    env["VP_VERIF"] = VERIF
    for (harness, variant, *_), b in zip(parts, bins):
        out = os.path.join(BUILD, "ev-%s-%s-%s-%d.json" % (pid, harness, variant, os.getpid()))
        cmd = [b, "--property", pid, "--tier", tier, "--seed", seed, "--out", out, "--known", os.path.join(VERIF, "known_findings.txt"),
               "--replaydir", os.path.join(ev_dir, "replay"), "--deadline", str(max(20.0, (total - (time.time() - t0)) / (len(bins) - bins.index(b))))]
        if only:
            cmd += ["--only", only]
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1):
            sys.stderr.write("%s ended with %d\n" % (b, r.returncode))
            rc = rc if rc == 1 else 3
            continue
        rc = 1 if r.returncode == 1 else rc
        with open(out) as f:
            e = json.load(f)
        os.unlink(out)
        for s in e["coverage"]["suites"]:
            s["build"] = variant
        if merged is None:
            merged = e
        else:
            c, d = merged["coverage"], e["coverage"]
            for k in ("states", "transitions", "traces_validated_against_impl", "comparisons_with_reference_model"):
                c[k] += d[k]
            c["exhaustive"] = c["exhaustive"] and d["exhaustive"]
            c["suites"] += d["suites"]
            c["samples"] += d["samples"]
            merged["violations"] += e["violations"]
    if merged is not None:
        merged["wall_s"] = round(time.time() - t0, 2)
        merged["assumptions"] = conf.get("assumptions", [])
        with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
            json.dump(merged, f, indent=1)
            f.write("\n")
    return rc


if __name__ == "__main__":
    sys.exit(main())
