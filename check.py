#!/usr/bin/env python3
"""Driver: build malb/m4rie from /repo's working tree, run the explicit-state
harness of one property, confirm any failure by replaying it, report.

  check.py C05 [--tier quick|thorough] [--jobs N]
  check.py replay FILE          re-run a recorded violation
  check.py setup                compile everything once (sanity of the framework)
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("M4RIE_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(HERE, "build")
HARN = os.path.join(HERE, "harness")
WRAP = ["m4ri_die", "m4ri_mmc_malloc", "m4ri_mmc_free", "__assert_fail", "random", "djb_compile"]
LIBM4RI = "/usr/lib/x86_64-linux-gnu/libm4ri.a"
BASE = ["-mmmx", "-msse", "-msse2", "-w", "-g1", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,shift-base", "-DMC_ASAN=1"]
CONFIG_H = """#define PACKAGE "m4rie"
#define PACKAGE_VERSION "20200125"
#define VERSION "20200125"
%s
"""
def caches(l2, l3): return {"__M4RI_CPU_L1_CACHE": str(max(1024, int(l2) // 4)), "__M4RI_CPU_L2_CACHE": l2, "__M4RI_CPU_L3_CACHE": l3}
def variant(name):
    """(cflags, config.h body, m4ri_config overrides)"""
    if name == "plain": return ["-O2"], "#define NDEBUG 1", {}
    if name == "asan":  return ["-O1"] + ASAN, "", {}
    if name == "assert": return ["-O2"], "", {}
    m = re.match(r"cfg-(\d+)-(\d+)$", name)      # L2, L3 in bytes
    if m: return ["-O2"], "#define NDEBUG 1", caches(m.group(1), m.group(2))
    if name == "fence": return ["-O2", "-ftrivial-auto-var-init=pattern", "-DMC_FENCE=1"], "", {}
    m = re.match(r"fencecfg-(\d+)-(\d+)$", name)
    if m: return ["-O2", "-ftrivial-auto-var-init=pattern", "-DMC_FENCE=1"], "", caches(m.group(1), m.group(2))
    m = re.match(r"asancfg-(\d+)-(\d+)$", name)
    if m: return ["-O1"] + ASAN, "", caches(m.group(1), m.group(2))
    m = re.match(r"(gcc|clang)-(O\w)$", name)     # other compilers and optimisation levels
    if m: return ["-" + m.group(2)] + (["-Wno-everything"] if m.group(1) == "clang" else []), "#define NDEBUG 1", {}
    raise SystemExit("unknown variant " + name)

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def die(msg):
    print("ERROR:", msg, flush=True); sys.exit(2)

def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def prune():
    ds = sorted((os.path.getmtime(d), d) for d in glob.glob(BUILD + "/*") if os.path.isdir(d))
    for t, d in ds[:-40]:
        if time.time() - t > 1800: shutil.rmtree(d, ignore_errors=True)

def build(var, props):
    """returns path of the binary with the given property bodies"""
    cflags, cfgh, over = variant(var); cc = "clang" if var.startswith("clang-") else "gcc"
    lib = sorted(glob.glob(SRC + "/*.c"))
    if not lib: die("no sources in " + SRC)
    hdr = glob.glob(SRC + "/*.h") + glob.glob(SRC + "/*.inl")
    hs = [os.path.join(HARN, "core.c")] + [os.path.join(HARN, "p_%s.c" % p) for p in props]
    hh = glob.glob(HARN + "/*.h")
    key_common = (cflags, cfgh, over, BASE, cc)
    libkey = digest(lib + hdr, key_common + ("lib",))
    key = digest(lib + hdr + hs + hh, key_common + (sorted(props),))
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "bin-%s-%s" % (var, key))
    exe = os.path.join(out, "mc")
    if os.path.exists(exe):
        os.utime(out); return exe
    prune()
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        inc = os.path.join(tmp, "inc"); os.makedirs(inc + "/m4ri")
        open(inc + "/config.h", "w").write(CONFIG_H % cfgh)
        os.symlink(SRC, inc + "/m4rie")       # <m4rie/...>: the working tree
        if over:
            t = open("/usr/include/m4ri/m4ri_config.h").read()
            for k, v in over.items():
                t, n = re.subn(r"(?m)^#define\s+%s\s+.*$" % k, "#define %s %s" % (k, v), t)
                if n != 1: die("cannot override " + k)
            # a complete shadow of the m4ri headers, so that quoted includes see it too
            for h in glob.glob("/usr/include/m4ri/*.h"):
                if os.path.basename(h) != "m4ri_config.h": shutil.copy(h, inc + "/m4ri/")
            open(inc + "/m4ri/m4ri_config.h", "w").write(t)
        else: os.rmdir(inc + "/m4ri")
        libdir = os.path.join(BUILD, "lib-%s-%s" % (var, libkey))
        havelib = os.path.isdir(libdir)
        objs, jobs = [], []
        for c in lib:
            o = os.path.join(libdir if havelib else tmp, "lib_" + os.path.basename(c)[:-2] + ".o"); objs.append(o)
            if not havelib: jobs.append((c, o))
        for c in hs:
            o = os.path.join(tmp, "h_" + os.path.basename(c)[:-2] + ".o"); objs.append(o); jobs.append((c, o))
        def comp(j):
            c, o = j
            return c, sh([cc] + cflags + BASE + ["-I" + inc, "-I" + SRC, "-I" + HARN, "-c", c, "-o", o])
        with cf.ThreadPoolExecutor(8) as ex:
            for c, r in ex.map(comp, jobs):
                if r.returncode: die("compiling %s failed:\n%s" % (c, r.stdout[-3000:]))
        r = sh(["gcc"] + cflags + ["-o", os.path.join(tmp, "mc")] + objs + [LIBM4RI, "-lm"] +
               ["-Wl," + ",".join("--wrap=" + w for w in WRAP)])
        if r.returncode: die("linking failed:\n" + r.stdout[-3000:])
        if not havelib:
            t2 = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
            for c in lib: shutil.move(os.path.join(tmp, "lib_" + os.path.basename(c)[:-2] + ".o"), t2)
            try: os.rename(t2, libdir)
            except OSError: shutil.rmtree(t2, ignore_errors=True)
        keep = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        shutil.move(os.path.join(tmp, "mc"), keep)
        try: os.rename(keep, out)
        except OSError: shutil.rmtree(keep, ignore_errors=True)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return exe

def run(exe, prop, tier, vary=0, jobs=8, only=None, upto=None, limit=120, timeout=3600):
    fd, out = tempfile.mkstemp(prefix="mc-", suffix=".json"); os.close(fd)
    cmd = [exe, prop, "--tier", str(tier), "--vary", str(vary), "--jobs", str(jobs), "--out", out, "--case-limit", str(limit)]
    if only is not None: cmd += ["--only", str(only)]
    if upto is not None: cmd += ["--to", str(upto)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=1")
    fd2, log = tempfile.mkstemp(prefix="mc-", suffix=".log"); os.close(fd2)
    try:
        with open(log, "wb") as lf:
            try: p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, env=env, timeout=timeout)
            except subprocess.TimeoutExpired: return {"result": "timeout", "message": "run exceeded %d s" % timeout}
        try: d = json.load(open(out))
        except Exception: d = {"result": "broken", "message": "no result file, exit %d" % p.returncode}
        d["log"] = open(log, errors="replace").read()[-6000:]
        return d
    finally:
        os.unlink(out); os.unlink(log)

# ------------------------------------------------------------- what runs where
ALL = sorted(os.path.basename(f)[2:-2] for f in glob.glob(HARN + "/p_C*.c"))
TIER = {"mini": 0, "quick": 1, "thorough": 2}
CFGS_QUICK = ["cfg-4096-32768", "cfg-16384-65536", "cfg-65536-1048576"]
CFGS_THOROUGH = CFGS_QUICK + ["cfg-8192-16384", "cfg-32768-131072", "cfg-131072-262144", "cfg-1048576-33554432"]
def plan(prop, tier):
    """list of (variant, property bodies in the binary, property to run, tier number)"""
    t = TIER[tier]
    if prop == "C18":
        # every other body in reduced bounds, and the switch shapes, on the instrumented builds
        mine = [p for p in ALL if p != "C25"]
        small = ["asancfg-4096-32768", "fencecfg-4096-32768"]
        r = [(v, mine, p, 0) for v in ("asan", "fence") for p in mine if p != "C18" and not (v == "fence" and p in ("C19", "C23"))]
        r += [(v, mine, "C18", t) for v in ("asan", "fence")]
        r += [(v, ["C18", "C10", "C12", "C13", "C14"], p, 0 if t == 1 else 1) for v in small for p in ("C18", "C10", "C12", "C13", "C14")]
        return r
    if prop == "C21":
        bodies = [prop, "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17"]
        r = [("plain", bodies, prop, t)]
        for v in (CFGS_QUICK if t == 1 else CFGS_THOROUGH):
            r += [(v, bodies, b, t if b == prop else 1 if t == 2 or v == CFGS_QUICK[0] else 0) for b in bodies]
        mine = [p for p in ALL if p not in ("C18", "C25")]
        for v in ("clang-O3", "gcc-O0", "gcc-O3"): r += [(v, mine, b, t - 1) for b in mine]
        return r
    if prop in ("C22", "C23", "C25"):      # once more with small caches, so that recursive and blocked routes run at these sizes
        return [("plain", [prop], prop, t), ("cfg-4096-32768", [prop], prop, t if prop == "C25" else t - 1)]
    return [("plain", [prop], prop, t)]

# Bounds (0 mini, 1, 2) and number of variations per tier. A variation repeats the
# whole enumeration with other minimal polynomials and other dense contents.
DEPTH = {"quick": {"C02": (2, 1), "C03": (2, 6), "C04": (1, 2), "C05": (2, 3), "C06": (2, 4), "C07": (2, 2), "C08": (2, 2), "C09": (2, 1), "C10": (1, 4), "C11": (1, 2), "C12": (2, 1), "C13": (2, 1),
                   "C14": (2, 2), "C15": (2, 6), "C16": (2, 4), "C17": (2, 8), "C20": (2, 4), "C24": (2, 4), "C26": (1, 3)},
         "thorough": {"C03": (2, 100), "C05": (2, 50), "C06": (2, 80), "C07": (2, 25), "C08": (2, 20), "C09": (2, 7), "C10": (2, 3), "C11": (2, 2), "C12": (2, 12), "C13": (2, 12),
                      "C14": (2, 14), "C15": (2, 150), "C16": (2, 60), "C17": (2, 200), "C20": (2, 200), "C24": (2, 200), "C26": (2, 7)}}
def varied(prop, tier):
    t, n = DEPTH[tier].get(prop, (TIER[tier], 1))
    r = plan(prop, tier)
    if len(r) == 1 and r[0][0] == "plain": return [(v, b, p, t, x) for v, b, p, _ in r for x in range(n)]
    return [x + (0,) for x in r] + [("plain", [prop], prop, t, x) for x in range(1, n)]

def known():
    f, k = os.path.join(HERE, "known_findings.txt"), []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m: k.append(m.groups())
    return k

def confirm(exe, sub, t, v, d):
    """replay before report; a limit that was hit is re-run alone with a longer one"""
    if d["result"] in ("timeout", "broken"): return None
    idx = d["index"]
    r = run(exe, sub, t, v, jobs=1, only=idx, limit=300)
    if r["result"] != "ok": return dict(r, how="alone")
    if d["result"] in ("killed", "hang"): return None      # load or memory pressure, not the code
    r = run(exe, sub, t, v, jobs=1, upto=idx, limit=300, timeout=400)
    if r["result"] not in ("ok", "killed", "timeout"): return dict(r, how="prefix")
    r = run(exe, sub, t, v)
    if r["result"] in ("wrong", "crash"): return dict(r, how="whole run")
    return None

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "setup":
        build("plain", ["C01"]); print("framework builds"); return 0
    if a[0] == "replay":
        rec = json.load(open(a[1]))
        exe = build(rec["variant"], rec["bodies"])
        kw = {"alone": {"only": rec["index"], "jobs": 1}, "prefix": {"upto": rec["index"], "jobs": 1}, "whole run": {}}[rec["how"]]
        d = run(exe, rec["run"], rec["tier"], rec.get("vary", 0), limit=300, **kw)
        print(json.dumps({k: v for k, v in d.items() if k != "samples"}, indent=1)); return 0 if d["result"] == "ok" else 1
    prop, tier, jobs = a[0], os.environ.get("VERIF_TIER", "quick"), 8
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--jobs": jobs = int(a[i + 1])
    if tier not in ("quick", "thorough"): tier = "quick"
    t0, seed = time.time(), int(os.environ.get("VERIF_SEED", "1"))
    tot = dict(states=0, transitions=0, traces=0, cases=0); notes, samples, runs, viol, skipped = {}, [], [], [], 0
    keys = known(); hit, where = {}, {}
    exes = {}
    for var, bodies, sub, t, vary in varied(prop, tier):
        k = (var, tuple(bodies))
        if k not in exes: exes[k] = build(var, bodies)
        exe = exes[k]
        for attempt in range(3):
            d = run(exe, sub, t, vary, jobs=jobs, limit=120 if tier == "quick" else 600, timeout=800 if tier == "quick" else 6 * 3600)
            if d["result"] == "ok": break
            r = confirm(exe, sub, t, vary, d)
            if r: break
            print("note: %s in case %s did not reproduce (%s)" % (d["result"], d.get("case"), d.get("message")), flush=True)
        else: die("no stable answer from %s/%s: %s" % (var, sub, d.get("message")))
        for x in tot: tot[x] += d.get(x, 0)
        for n, v in d.get("notes", {}).items():
            if n.startswith("known:"): hit[n[6:]] = hit.get(n[6:], 0) + v; where.setdefault(n[6:], set()).add(sub)
            else: notes[n] = notes.get(n, 0) + v
        samples += ["%s: %s" % (var, s) for s in d.get("samples", [])][: 8 if len(samples) < 8 else 1]
        runs.append({"build": var, "body": sub, "tier": t, "variation": vary, "cases": d.get("cases", 0), "wall_ms": d.get("wall_ms", 0), "result": d["result"]})
        if d["result"] != "ok":
            os.makedirs(HERE + "/replays", exist_ok=True)
            path = "%s/replays/%s-%s-%s-%d.json" % (HERE, prop, var, sub, r.get("index", -1))
            json.dump({"property": prop, "variant": var, "bodies": bodies, "run": sub, "tier": t, "vary": vary, "index": r.get("index"), "how": r["how"],
                       "result": r["result"], "case": r.get("case"), "detail": r.get("detail"), "message": r.get("message"), "log": r.get("log", "")[-4000:]},
                      open(path, "w"), indent=1)
            viol.append(path)
            print("%s [%s] case %s %s: %s" % (r["result"], var, r.get("case"), r.get("detail") or "", r.get("message")))
            if r.get("log"): print(r["log"][-1500:])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            break
    for p, key, what in keys:
        if p == prop and hit.get(key): print("KNOWN-FINDING: property=%s %s" % (p, what))
    unlisted = [k for k in hit if not all(any(p in (prop, b) and key == k for p, key, _ in keys) for b in where[k])]
    if unlisted and not viol:
        path = "%s/replays/%s-%s.json" % (HERE, prop, unlisted[0]); os.makedirs(HERE + "/replays", exist_ok=True)
        json.dump({"property": prop, "finding": unlisted}, open(path, "w")); viol.append(path)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    capped = "breadth-first search stopped adding states at its limit: %d successor states were checked but not expanded; the complete spaces and all sequences are not capped" % notes["states not expanded (limit)"] if notes.get("states not expanded (limit)") else None
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
                       "samples": samples, "counters": notes, "runs": runs, "exhaustive": not viol and not capped, "caps": capped,
                       "explanation": "states: concrete object states compared bit by bit (or value by value) with the reference model; transitions: "
                                      "library calls executed; traces: enumerated call sequences, each run on the real library from a fresh state. "
                                      "The enumeration is deterministic and complete within the bounds in DESIGN.md; the seed is not used."},
          "assumptions": ["gcc 13 x86-64 build of the working tree; libm4ri 20200125 as installed", "bounds as listed in DESIGN.md for this property"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %.1f s, %s" % (prop, tier, tot["cases"], tot["states"], tot["transitions"], time.time() - t0, "VIOLATED" if viol else "held"))
    return 1 if viol else 0
if __name__ == "__main__": sys.exit(main())
