#!/usr/bin/env python3
"""Build the check of one property from /repo's working tree and run it.

usage: run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [-- extra args for the binary]
       run.py --build-all      build every check (setup)
"""
import concurrent.futures as cf, fcntl, functools, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src/DRAMPower")
CLI = os.path.join(REPO, "src/cli/lib")
BUILD = os.path.join(VERIF, ".build")
H = os.path.join(VERIF, "harness")
CXX = "g++"
BASE = ["-std=c++17", "-DDRAMPOWER_TESTING", "-D_GLIBCXX_ASSERTIONS", "-I" + SRC, "-I" + CLI, "-I" + os.path.join(VERIF, "shim"), "-I" + H, "-w"]
VARIANTS = {"plain": ["-O1"],
            "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]}
VARIANTS["tsan"] = ["-O1", "-g1", "-fsanitize=thread"]
VARIANTS["rel"] = VARIANTS["san"] + ["-DNDEBUG"]   # what a release build does
LINK = ["-lspdlog", "-lfmt", "-lpthread"]
SAN = set()          # ids built with sanitizers, filled from checks.json
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

POOL = cf.ThreadPoolExecutor(os.cpu_count() or 8)
LOCKS, LOCKS_LOCK = {}, threading.Lock()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:24]

def headers(root):
    r = []
    for d, _, fs in os.walk(root):
        r += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".tpp", ".inl", ".ipp"))]
    return r

def tool_version():
    return sh([CXX, "--version"]).stdout

@functools.lru_cache(None)
def thread_sanitizer_works():
    """the thread sanitizer needs an address-space layout that not every sandbox has"""
    with tempfile.TemporaryDirectory() as d:
        x = os.path.join(d, "x")
        if subprocess.run([CXX, "-x", "c++", "-fsanitize=thread", "-", "-o", x], input="#include <thread>\nint main(){std::thread t([]{});t.join();}", text=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return False
        return all(subprocess.run([x], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 for _ in range(30))

def build(cid):
    variant = CHECKS[cid].get("variant", "plain")
    if variant == "tsan" and not thread_sanitizer_works(): variant = "plain"
    flags = BASE + VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    ver = tool_version()
    repo_h = digest(headers(SRC) + headers(os.path.join(REPO, "src/cli")) + headers(os.path.join(VERIF, "shim")), " ".join(flags) + ver)
    har_h = digest(headers(H), repo_h)
    # One translation unit per source directory (the headers dominate the compile time); if such a
    # unit does not compile, its files are compiled one by one.
    lib = sorted(glob.glob(SRC + "/DRAMPower/**/*.cpp", recursive=True))
    if CHECKS[cid].get("cli"): lib += sorted(glob.glob(CLI + "/**/*.cpp", recursive=True)) + sorted(glob.glob(os.path.join(REPO, "src/cli/main/*.cpp")))
    groups = {}
    for f in lib: groups.setdefault(os.path.dirname(f), []).append(f)
    jobs = [([os.path.join(H, f)], har_h) for f in CHECKS[cid].get("sources", ["dut.cpp", cid.lower() + ".cpp"])]
    jobs += [(fs, repo_h) for d, fs in sorted(groups.items(), key=lambda g: -sum(os.path.getsize(f) for f in g[1]))]
    def obj(fs, key): return os.path.join(out, os.path.basename(os.path.dirname(fs[0])) + "_" + os.path.basename(fs[0]) + "-" + digest(fs, key + "|".join(fs)) + ".o")
    def cc(inp, o, stdin=None):
        tmp = o + ".tmp%d" % os.getpid()
        # the command line tool's main becomes a function of the check
        ren = ["-Dmain=drampower_cli_main", '-DDRAMPOWER_VERSION_STRING="check"'] if "src/cli/main" in inp + (stdin or "") else []
        r = subprocess.run([CXX] + flags + ren + ["-x", "c++", "-c", inp, "-o", tmp], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: os.rename(tmp, o)
        return r
    def comp(job):
        with LOCKS_LOCK: l = LOCKS.setdefault(obj(*job), threading.Lock())
        with l: return comp1(job)
    def comp1(job):
        fs, key = job
        o = obj(fs, key)
        if os.path.exists(o): return [o], None
        if len(fs) > 1:
            r = cc("-", o, "".join('#include "%s"\n' % f for f in fs))
            if r.returncode == 0: return [o], None
            res = []
            for f in fs:
                oo = obj([f], key)
                if not os.path.exists(oo):
                    r = cc(f, oo)
                    if r.returncode: return [], f + "\n" + r.stdout
                res.append(oo)
            return res, None
        r = cc(fs[0], o)
        return ([o], None) if r.returncode == 0 else ([], fs[0] + "\n" + r.stdout)
    results = [f.result() for f in [POOL.submit(comp, j) for j in jobs]]
    errs = [e for _, e in results if e]
    if errs:
        print("build failed:\n" + "\n".join(e[:4000] for e in errs[:3])); sys.exit(2)
    objs = [o for os_, _ in results for o in os_]
    exe = os.path.join(out, cid + "-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(out, cid + "-*")):
            if not old.endswith(".o"): os.unlink(old)
        r = sh([CXX] + flags + objs + ["-o", exe + ".tmp"] + LINK)
        if r.returncode: print("link failed:\n" + r.stdout[:6000]); sys.exit(2)
        os.rename(exe + ".tmp", exe)
    return exe

def prune():
    """keep the object cache small"""
    for v in VARIANTS:
        fs = [(os.path.getmtime(f), f) for f in glob.glob(os.path.join(BUILD, v, "*.o"))]
        if len(fs) > 1500:
            for _, f in sorted(fs)[:len(fs) - 600]: os.unlink(f)

def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    prune()
    if a and a[0] == "--build-all":
        with cf.ThreadPoolExecutor(len(CHECKS)) as ex: list(ex.map(build, sorted(CHECKS)))
        return 0
    cid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = os.environ.get("VERIF_SEED", "1"); extra = []; ev = os.path.join(VERIF, "evidence", cid + ".json")
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--seed": seed = a[i + 1]; i += 2
        elif a[i] == "--evidence": ev = a[i + 1]; i += 2
        elif a[i] == "--": extra += a[i + 1:]; break
        else: extra.append(a[i]); i += 1
    t0 = time.time()
    exe = build(cid)
    fcntl.flock(lock, fcntl.LOCK_UN)
    sys.stdout.flush()
    os.makedirs(os.path.dirname(ev), exist_ok=True); os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0", "TSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:report_thread_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=0:abort_on_error=1",
                "PBT_FINDINGS": os.path.join(VERIF, "known_findings.json"), "PBT_REPO": REPO, "PBT_VERIF": VERIF})
    print("built in %.1f s" % (time.time() - t0)); sys.stdout.flush()
    scratch = tempfile.mkdtemp(prefix="vp-" + cid + "-"); env["PBT_SCRATCH"] = scratch
    try: return subprocess.call([exe, "--tier", tier, "--seed", seed, "--evidence", ev, "--replay-dir", os.path.join(VERIF, "replays")] + extra, env=env)
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
