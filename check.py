#!/usr/bin/env python3
"""Driver of all checks:  check.py C01 [--tier quick|thorough]   |   check.py --replay FILE   |   check.py --build-all"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "source")
BUILD = os.path.join(ROOT, ".build")
EVID = os.path.join(ROOT, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = os.cpu_count() or 8

LIBSRC = {"girgs": "girgs/source/*.cpp", "hypergirgs": "hypergirgs/source/*.cpp"}
# flags: applied to the repository's code and to the harness;  link: applied when linking
BASE = ["-std=c++11", "-Wno-psabi", "-w", "-fopenmp", "-g1"]
VARIANTS = {
    # mcrt runtime, our engine, optimised, with / without assertions
    "rel":   dict(flags=["-O2", "-DNDEBUG"], rt="mcrt", rng=True),
    "dbg":   dict(flags=["-O1"], rt="mcrt", rng=True),
    # the same with the standard engine
    "relstd": dict(flags=["-O2", "-DNDEBUG"], rt="mcrt", rng=False),
    "dbgstd": dict(flags=["-O1"], rt="mcrt", rng=False),
    # instrumented for the race detector of mcrt
    "race":  dict(flags=["-O1", "-DNDEBUG", "-fsanitize=thread"], rt="mcrt", rng=True, inst=True),
    "racedbg":  dict(flags=["-O1", "-fsanitize=thread"], rt="mcrt", rng=True, inst=True),
    # sanitizers
    "san":   dict(flags=["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], rt="mcrt", rng=True,
                  link=["-fsanitize=address,undefined"], san=True),
    "sandbg": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], rt="mcrt", rng=True,
                  link=["-fsanitize=address,undefined"], san=True),
    # real OpenMP runtime, standard engine
    "gomp":  dict(flags=["-O2", "-DNDEBUG"], rt="gomp", rng=False),
    "gompdbg":  dict(flags=["-O2"], rt="gomp", rng=False),
    "bmi2":  dict(flags=["-O2", "-DNDEBUG", "-mbmi2", "-DUSE_BMI2"], rt="mcrt", rng=True),
    "bmi2dbg":  dict(flags=["-O1", "-mbmi2", "-DUSE_BMI2"], rt="mcrt", rng=True),
}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]

def tree_files():
    out = []
    for d in ("girgs", "hypergirgs", "cli"):
        for r, _, fs in os.walk(os.path.join(SRC, d)):
            out += [os.path.join(r, f) for f in fs]
    out += [os.path.join(SRC, f) for f in os.listdir(SRC) if os.path.isfile(os.path.join(SRC, f))]
    return out

_tree = None
def tree():
    """directory of objects for the current state of the sources, older ones are dropped"""
    global _tree
    if _tree is None:
        lib = [os.path.join(r, f) for d in ("lib", "stubs") for r, _, fs in os.walk(os.path.join(ROOT, d)) for f in fs]
        d = os.path.join(BUILD, digest(tree_files() + lib))
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        others = sorted((os.path.getmtime(os.path.join(BUILD, x)), os.path.join(BUILD, x)) for x in os.listdir(BUILD))
        for _, x in others[:-3]:
            if os.path.abspath(x) != os.path.abspath(d):
                shutil.rmtree(x, ignore_errors=True)
        version_header(d)
        _tree = d
    return _tree

def version_header(d):
    """what CMake would configure from version.h.in (only shown by --version)"""
    out = os.path.join(d, "inc", "girgs"); os.makedirs(out, exist_ok=True)
    src = os.path.join(SRC, "version.h.in"); dst = os.path.join(out, "girgs-version.h")
    try:
        t = open(src).read()
    except OSError:
        t = ""
    t = t.replace("${META_PROJECT_ID}", "GIRGS")
    t = re.sub(r"@META_PROJECT_NAME@", "girgs", t)
    t = re.sub(r"@META_NAME_VERSION@", "girgs v0 (verif)", t)
    t = re.sub(r"@(\w+)@", r"\1", t)
    with open(dst + ".tmp%d" % os.getpid(), "w") as f:
        f.write(t)
    os.replace(dst + ".tmp%d" % os.getpid(), dst)

def includes():
    return ["-I" + os.path.join(ROOT, "stubs"), "-I" + os.path.join(tree(), "inc"), "-I" + os.path.join(SRC, "girgs/include"),
            "-I" + os.path.join(SRC, "hypergirgs/include"), "-I" + os.path.join(ROOT, "lib"), "-I" + SRC]

def compile_obj(src, flags):
    key = digest([src], " ".join(flags))
    obj = os.path.join(tree(), os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(["g++"] + flags + includes() + ["-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    if "-fsanitize=thread" in flags:   # block operations of instrumented code are reported to the detector, those of the runtime are not
        r = sh(["objcopy"] + ["--redefine-sym=%s=__wrap_%s" % (f, f) for f in ("memcpy", "memmove", "memset")] + [tmp])
        if r.returncode:
            raise BuildError("objcopy: " + r.stderr)
    os.replace(tmp, obj)
    return obj

def build(harness, variant, libs=("girgs", "hypergirgs"), extra=()):
    tree()
    v = VARIANTS[variant]
    flags = BASE + v["flags"] + list(extra)
    if v["rng"]:
        flags += ["-include", os.path.join(ROOT, "lib/vrng.h"), "-DVERIF_RNG"]
    flags += ["-DVERIF_MCRT"] if v["rt"] == "mcrt" else []
    flags += ["-DVARIANT_NAME=\"%s\"" % variant]
    own = ["-std=c++17", "-O2", "-g1", "-w"] + (["-fsanitize=address"] if v.get("san") else [])
    jobs = []
    for l in libs:
        for s in sorted(glob.glob(os.path.join(SRC, LIBSRC[l]))):
            jobs.append((s, flags + ["-DGIRGS_STATIC_DEFINE"]))
    jobs.append((os.path.join(ROOT, "harness", harness + ".cpp"), [f if f != "-std=c++11" else "-std=c++17" for f in flags]))
    jobs.append((os.path.join(ROOT, "lib/vk.cpp"), own))
    if v["rt"] == "mcrt":
        jobs.append((os.path.join(ROOT, "lib/mcrt.cpp"), own + (["-DMCRT_NEW"] if v.get("inst") else []) + (["-DMCRT_WRAP"] if v.get("inst") else [])))
    if v["rng"]:
        jobs.append((os.path.join(ROOT, "lib/vrng.cpp"), ["-std=c++17", "-O2", "-w"]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    exe = os.path.join(tree(), harness + "-" + hashlib.sha256(" ".join(objs + [variant]).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        link = ["g++", "-no-pie", "-o", exe + ".tmp%d" % os.getpid()] + objs + v.get("link", []) + ["-lpthread", "-ldl"]
        if v["rt"] == "gomp":
            link += ["-fopenmp"]
        r = sh(link)
        if r.returncode:
            raise BuildError("linking %s (%s) failed:\n%s" % (harness, variant, r.stderr[-4000:]))
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe

def build_cli(name, extra=()):
    """the command line tools as the project builds them (assertions on), real OpenMP"""
    tree()
    flags = ["-std=c++11", "-O2", "-fopenmp", "-w"] + list(extra)
    lib = {"gengirg": ("girgs",), "genhrg": ("hypergirgs",)}[name]
    srcs = [s for l in lib for s in sorted(glob.glob(os.path.join(SRC, LIBSRC[l])))] + sorted(glob.glob(os.path.join(SRC, "cli", name, "*.cpp")))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, flags), srcs))
    exe = os.path.join(tree(), name + "-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        r = sh(["g++", "-o", exe + ".tmp", "-fopenmp"] + objs)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.replace(exe + ".tmp", exe)
    return exe

# ---------------------------------------------------------------------------------------------------------------------
def env_for(variant, harness=""):
    e = dict(os.environ)
    if harness in ("c19", "c21", "c21lib"):
        e["VERIF_GENGIRG"] = build_cli("gengirg"); e["VERIF_GENHRG"] = build_cli("genhrg")
    if harness == "c23":
        e["VERIF_REL"] = build("c23", "rel"); e["VERIF_GOMP"] = build("c23", "gompdbg")
    e["OMP_WAIT_POLICY"] = "passive"; e["OMP_DYNAMIC"] = "false"
    e.pop("OMP_NUM_THREADS", None); e.pop("OMP_THREAD_LIMIT", None)
    e["ASAN_OPTIONS"] = "exitcode=79:max_malloc_fill_size=65536:malloc_fill_byte=90:detect_leaks=0:abort_on_error=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=79"
    e["LC_ALL"] = "C"
    return e

def run_harness(harness, variant, tier, args=(), pin=True, timeout=None, libs=("girgs", "hypergirgs"), extra=()):
    exe = build(harness, variant, libs, extra)
    cmd = [exe, "--tier", tier, "--jobs", str(JOBS)] + (["--pin"] if pin else []) + list(args)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(variant, harness), cwd=ROOT, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout or (840 if tier == "quick" else 6 * 3600))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        raise BuildError("%s (%s) exceeded its time" % (harness, variant))
    out = out.decode(errors="replace"); err = err.decode(errors="replace")
    line = [l for l in out.splitlines() if l.startswith('{"harness"')]
    if not line:
        raise BuildError("%s (%s) gave no result, exit %s\n%s" % (harness, variant, p.returncode, err[-3000:]))
    res = json.loads(line[-1])
    res.update(variant=variant, stderr=err[-4000:], cmd=cmd, wall=time.time() - t0, harness=harness, libs=list(libs), extra=list(extra))
    return res

def load_known():
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) match=/(.*?)/ :: (.*)", l.strip())
            if m:
                known.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return known

def finish(prop, tier, t0, results, spec, skipped=()):
    """merge the results of all harness runs of a property, write evidence, print verdicts"""
    known = load_known()
    os.makedirs(EVID, exist_ok=True)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], runs=[], caps=[])
    bad, kf, unconfirmed = [], {}, []
    for r in results:
        cov["states"] += r["states"]; cov["transitions"] += r["transitions"]; cov["traces_validated_against_impl"] += r["traces"]
        cov["runs"].append({"harness": r["harness"], "build": r["variant"], "units": r["units"], "cases": r["cases"], "states": r["states"],
                            "transitions": r["transitions"], "executions": r["traces"], "wall_s": round(r["wall"], 1), **r["counters"]})
        cov["caps"] += ["%s/%s: %s" % (r["harness"], r["variant"], c) for c in r["caps"]]
        cov["samples"] += ["[%s] %s" % (r["variant"], s) for s in r["samples"][:4]]
        if r.get("state_table_overflow"):
            cov["caps"].append("%s: state table overflow, distinct states undercounted" % r["harness"])
        if r["stopped_early"] and not r["failures"]:
            cov["caps"].append("stopped early")
        for f in r["failures"]:
            text = "%s %s :: %s :: %s" % (r["variant"], f["unit"], f["desc"], f["msg"])
            hit = [k for k in known if k[0] == prop and k[1].search(text)]
            if hit:
                kf[hit[0][2]] = kf.get(hit[0][2], 0) + 1
            elif f["confirmed"]:
                bad.append((r, f))
            else:
                unconfirmed.append((r, f))
    cov["samples"] = cov["samples"][:12]
    cov["exhaustive"] = not cov["caps"]
    cov["bounds"] = spec["bounds"]
    cov["counting"] = spec.get("counting", COUNTING)
    if skipped:
        cov["skipped"] = list(skipped)
    if spec.get("level") == "fault_enumeration":
        cov["evaluations"] = cov["transitions"]; cov["distinct_nontrivial"] = cov["states"]; cov["rule"] = spec["bounds"]
        for k in ("transitions", "states", "traces_validated_against_impl"):
            cov.pop(k)
    ev = dict(property=prop, tier=tier, seed=SEED, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for r in cov["runs"]:
        print("  %(harness)s[%(build)s]: units=%(units)d cases=%(cases)d states=%(states)d transitions=%(transitions)d executions=%(executions)d %(wall_s).1fs" % r)
    for c in cov["caps"]:
        print("  cap:", c)
    for s in skipped:
        print("  skipped:", s)
    for what, n in kf.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if bad:
        rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
        for i, (r, f) in enumerate(bad[:8]):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, harness=r["harness"], variant=r["variant"], tier=tier, libs=r.get("libs"), extra=r.get("extra"), unit=f["unit"], case=f["case"], case_text=f["desc"],
                               observed=f["msg"], on_replay=f["replayed"], how="python3 %s --replay %s" % (os.path.join(ROOT, "check.py"), path),
                               stderr=r.get("stderr", "")), fh, indent=1)
            print("  %s: %s | %s" % (f["unit"], f["msg"][:600], f["desc"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        for r, f in unconfirmed:
            print("UNCONFIRMED %s %s: %s | %s" % (prop, f["unit"], f["msg"], f["desc"][:400]))
        return 2
    print("OK property=%s" % prop)
    return 0

COUNTING = ("states: distinct (by 64-bit hash) inputs/configurations or outcomes reached, as recorded by the harness; transitions: library calls, "
            "scheduling points or individual decisions executed; traces_validated_against_impl: complete executions of the real code whose result was compared with the reference model")

def main():
    sys.path.insert(0, ROOT)
    import checks
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        j = json.load(open(sys.argv[2]))
        if j["harness"] in checks.PYTHON_HARNESS:
            return checks.replay_python(j)
        exe = build(j["harness"], j["variant"], tuple(j.get("libs") or ("girgs", "hypergirgs")), tuple(j.get("extra") or ()))
        cmd = [exe, "--tier", j["tier"], "--unit", j["unit"], "--case", str(j["case"])]
        print(" ".join(cmd))
        return subprocess.run(cmd, env=env_for(j["variant"], j["harness"])).returncode
    if sys.argv[1] == "--build-all":
        return checks.build_all()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    try:
        return checks.run(prop, tier, t0)
    except BuildError as e:
        print("ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        return 2

if __name__ == "__main__":
    sys.exit(main())
