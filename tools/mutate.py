#!/usr/bin/env python3
"""Mutation study of the framework itself (not a check): small source changes in a scratch copy,
first the bodies in reduced bounds, then the quick bounds. Lists what nothing noticed.
  mutate.py OUT.jsonl [--n N] [--seed S] [--jobs J] [--files a.c,b.h] [--tier1] [--own]
  --own: only the check of the property the changed function belongs to, quick bounds
  --guard: the change takes effect only under a condition on the arguments (a size, a degree, a placement, contents, the previous call)"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
os.environ.setdefault("M4RIE_REPO", "/repo")
import check as C
OPS = [(r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+1\b", ""), (r"-1\b", ""), (r"(?<=[\w\)\]]) < (?=[\w\(])", " <= "), (r" <= ", " < "), (r"(?<=[\w\)\]]) > (?=[\w\(])", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"(?<=[\w\)\]])<(?=[\w\(])", "<="), (r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "), (r"(?<=[\w\)\]]) - (?=[\w\(])", " + "), (r"(?<=[\w\)\]])\+(?=[\w\(])", "-"), (r"(?<=[\w\)\]])-(?=[\w\(])", "+"),
       (r" \^ ", " | "), (r" \^= ", " |= "), (r" \& (?=[\w\(])", " | "), (r"<<", ">>"), (r">>", "<<"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"(?<=\()(\w+(?:->\w+)?), (\w+(?:->\w+)?)(?=[,\)])", r"\2, \1"), (r"nrows", "ncols"), (r"ncols", "nrows"),
       (r"(?<=\w)\*(?=\w)", "+"), (r" \* ", " + "), (r"\bif \(", "if (0 && "), (r"\bif\(", "if (1 || ")]
SKIPF = {"m4rie.h"}
def sites(files):
    r = []
    for f in files:
        incom = False; depth_print = False
        for i, l in enumerate(open(f, errors="replace").read().split("\n")):
            s = l.strip()
            if "/*" in s: incom = True
            was = incom
            if "*/" in s: incom = False
            if was or not s or s.startswith(("//", "#", "*", "extern", "printf", "assert", "m4ri_die")) or len(l) > 220: continue
            if re.match(r"^(0x|\d|\{)", s): continue
            for a, b in OPS:
                for k, m in enumerate(re.finditer(a, l)):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n != l and "//" not in l[:m.start()]: r.append((f, i, l, n))
            if s.endswith(";") and not re.match(r"^(return|break|continue|goto|const|static|int|word|size_t|rci_t|mzd|mzed|typedef|\w+_t |unsigned|wi_t)", s): r.append((f, i, l, "  ;"))
    return r
def params(lines, i):
    """parameters (type, name) of the function line i belongs to"""
    for j in range(i, -1, -1):
        m = re.match(r"^[A-Za-z_].*?\b(\w+)\s*\(", lines[j])
        if m and not lines[j].startswith(("if", "for", "while", "switch", "else", "#")):
            t = " ".join(lines[j:j + 12]); t = t[m.end() - len(lines[j][:0]):] if 0 else t[t.index("(") + 1:]
            t = t[:t.index(")")] if ")" in t else t; r = []
            for p in t.split(","):
                q = re.match(r"^\s*(?:const\s+)?(\w+)\s*(?:const)?\s*(\**)\s*(?:const)?\s*(\w+)\s*$", p)
                if q: r.append((q.group(1) + q.group(2), q.group(3)))
            return r
    return []
def guards(ps):
    g = []
    for t, n in ps:
        if t in ("mzed_t*", "mzd_slice_t*", "mzd_t*"):
            row = {"mzed_t*": n + "->x->rows", "mzd_slice_t*": n + "->x[0]->rows", "mzd_t*": n + "->rows"}[t]; w = {"mzed_t*": n + "->x", "mzd_slice_t*": n + "->x[0]", "mzd_t*": n}[t]
            c = ["%s->nrows == 64", "%s->nrows > 100", "%s->nrows > 200", "%s->ncols > 100", "%s->ncols > 250", "%s->ncols %% 64 == 63", "%s->ncols == 65", "%s->nrows == %s->ncols", "%s->nrows > 2 * %s->ncols", "%s->ncols > 2 * %s->nrows", "%s->nrows == 1", "%s->ncols == 1", "%s->nrows %% 8 == 5"]
            if t != "mzd_t*": c += ["%s->finite_field->degree == " + str(k) for k in range(2, 17)] + ["%s->nrows == 1", "%s->nrows == 2", "%s->nrows == 3", "%s->nrows %% 8 == 1", "%s->ncols == 1", "%s->ncols == 2", "%s->ncols * 2 <= %s->nrows", "%s->ncols %% 4 == 1", "%s->ncols %% 8 == 0", "%s->ncols %% 16 == 15", "%s->ncols %% 32 == 1"] + ["(%s->finite_field->minpoly & 6) == 6", "%s->finite_field->minpoly & 2"]
            c = [x.replace("%s", n).replace("%%", "%") for x in c]
            c += ["%s->nrows > 0 && %s[0][0] == 0" % (n, row), "%s->nrows > 1 && %s[0][0] == %s[1][0]" % (n, row, row), "%s->nrows > 0 && (%s[%s->nrows - 1][0] & 3) == 3" % (n, row, n), "mzd_is_windowed(%s) && %s->nrows > 2" % (w, n), "%s->width > 3" % w, "%s->width == 2" % w]
            g += ["(%s && (%s))" % (n, x) for x in c] + ["({ static const void *l_; static int r_; int s_ = l_ == %s && r_ == %s->nrows; l_ = %s; r_ = %s ? %s->nrows : 0; s_; })" % (n, n, n, n, n)]
        elif t in ("rci_t", "int", "wi_t", "deg_t"): g += ["%s == 0" % n, "%s == 3" % n, "%s > 70" % n, "%s > 130" % n, "%s %% 64 == 63" % n, "%s %% 5 == 4" % n]
        elif t == "word": g += ["%s == 3" % n, "(%s & 0x5) == 0x5" % n, "%s > 200" % n, "%s == 1" % n]
        elif t == "gf2e*": g += ["%s && %s->degree == %d" % (n, n, k) for k in (3, 7, 11, 13, 16)] + ["%s && (%s->minpoly & 6) == 6" % (n, n)]
    return g
def guarded(site, rnd):
    """the mutated line, effective under a guard only; None if the line has no such form"""
    f, i, l, n = site; lines = open(f, errors="replace").read().split("\n"); gs = guards(params(lines, i)); s, t = l.strip(), n.strip()
    if not gs or l.count("(") != l.count(")") or n.count("(") != n.count(")") or lines[i - 1].rstrip().endswith("\\") or l.rstrip().endswith("\\"): return None
    g = rnd.choice(gs)
    if rnd.random() < .4: g = "(%s) && (%s)" % (g, rnd.choice(gs))
    if s.endswith(";") and not re.match(r"^(break|continue|goto|const|static|int|word|size_t|rci_t|mzd_|mzed_t|mzp_t|typedef|\w+_t |unsigned|wi_t|case|default|for|if|while|else|\})", s) or re.match(r"^(mzd_|mzed_)\w+\(.*;$", s):
        prev = lines[i - 1].rstrip()
        if not prev.endswith((";", "{", "}", "*/", ")", ":", "else")) and prev: return None
        return (f, i, l, "{ if (%s) { %s } else { %s } }" % (g, t, s))
    m = re.match(r"^(\s*)((?:\} )?(?:else )?)(for|if)\s*\((.*)\)\s*(\{?)$", l); q = re.match(r"^(\s*)((?:\} )?(?:else )?)(for|if)\s*\((.*)\)\s*(\{?)$", n)
    if not m or not q or m.group(3) != q.group(3): return None
    if m.group(3) == "if": return (f, i, l, "%s%sif ((%s) ? (%s) : (%s)) %s" % (m.group(1), m.group(2), g, q.group(4), m.group(4), m.group(5)))
    a, b = m.group(4).split(";"), q.group(4).split(";")
    if len(a) != 3 or len(b) != 3 or a[1] == b[1]: return None
    return (f, i, l, "%sfor (%s; (%s) ? (%s) : (%s); %s) %s" % (m.group(1), a[0], g, b[1], a[1], a[2], m.group(5)))
OWN = [("gf2x.h", "", "C02"), ("gf2e", "", "C01"), ("conversion.h", "rescale", "C06"), ("conversion.h", "", "C09"), ("conversion", "", "C04"), ("karatsuba.c", "", "C10"), ("blm", "", "C11"),
       ("mzd_poly", "randomize", "C24"), ("mzd_poly", "mul", "C11"), ("mzd_poly", "", "C07 C11"), ("mzd_ptr.h", "", "C10 C11"), ("newton_john", "mul", "C09"), ("newton_john", "process|table|njt_", "C17"), ("newton_john", "echelon|gauss", "C14"), ("newton_john", "trsm", "C12"),
       ("newton_john", "ple", "C13"), ("newton_john", "inv", "C15"), ("newton_john", "", "C17"), ("ple", "", "C13"), ("echelonform", "", "C14"), ("trsm", "", "C12"), ("strassen", "", "C09"), ("permutation.h", "", "C16"), ("m4ri_functions", "", "C10 C09 C17"),
       ("mzd_ptr.c", "", "C11"), ("mzd_slice", "compress", "C13"), ("mzed", "row_add", "C05"), ("mz", "mul_scalar|_add$|_sub$", "C08"), ("mz", "elem", "C03"), ("mz", "print", "C20"), ("mz", "randomize", "C24"), ("mz", "echelon", "C14"), ("mzd_slice", "row_|_row|col_swap", "C06"), ("mzed", "row|col_swap", "C05"), ("mzd_slice", "mul", "C10"), ("mzed", "mul", "C09"), ("mz", "", "C07")]
def fun_at(lines, i):
    """name of the function line i belongs to: last line at column 0 that looks like a definition"""
    for j in range(i, -1, -1):
        m = re.match(r"^[A-Za-z_].*?\b(\w+)\s*\(", lines[j])
        if m and not lines[j].rstrip().endswith(";") and not lines[j].startswith(("if", "for", "while", "switch", "else")): return m.group(1)
    return ""
def own(f, i):
    L = open(f, errors="replace").read().split("\n"); b, fn = os.path.basename(f), fun_at(L, i)
    if i + 1 < len(L) and "m4ri_die" in L[i + 1]: return ["C19"], fn
    if "free" in L[i]: return ["C25"] + own1(b, fn), fn
    return own1(b, fn), fn
def own1(b, fn):
    for pre, rx, p in OWN:
        if b.startswith(pre) and re.search(rx, fn): return p.split()
    return ["C18"]
def sh(cmd, t=600, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)
    except subprocess.TimeoutExpired: return None
BODIES = [p for p in C.ALL if p not in ("C23", "C25", "C22", "C19")] + ["C22", "C19", "C23", "C25"]
WORK = "/tmp/mut"
def prepare():
    shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK + "/h"); inc = WORK + "/inc"; os.makedirs(inc)
    open(inc + "/config.h", "w").write(C.CONFIG_H % "#define NDEBUG 1"); os.symlink(C.SRC, inc + "/m4rie")
    jobs = [(c, "%s/h/%s.o" % (WORK, os.path.basename(c)[:-2])) for c in glob.glob(C.SRC + "/*.c")] + [(C.HARN + "/core.c", WORK + "/h/core.o")] + [("%s/p_%s.c" % (C.HARN, p), "%s/h/p_%s.o" % (WORK, p)) for p in BODIES]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: sh(["gcc", "-O2"] + C.BASE + ["-I" + inc, "-I" + C.SRC, "-I" + C.HARN, "-c", j[0], "-o", j[1]]), jobs):
            assert r.returncode == 0, r.stdout
def one(args):
    n, (f, i, old, new), tier1, ownmode = args
    d = "%s/w%d" % (WORK, n); os.makedirs(d + "/src"); rec = dict(n=n, file=os.path.basename(f), line=i + 1, old=old.strip(), new=new.strip()); bodies, rec['fn'] = own(f, i)
    if not ownmode: bodies = BODIES
    try:
        for x in glob.glob(C.SRC + "/*"): shutil.copy(x, d + "/src/")
        p = d + "/src/" + os.path.basename(f); t = open(p, errors="replace").read().split("\n"); assert t[i] == old; t[i] = new; open(p, "w").write("\n".join(t))
        inc = d + "/inc"; os.makedirs(inc); shutil.copy(WORK + "/inc/config.h", inc); os.symlink(d + "/src", inc + "/m4rie")
        hdr = f.endswith((".h", ".inl")); objs = []
        src = [d + "/src/" + os.path.basename(c) for c in glob.glob(C.SRC + "/*.c")]
        todo = [(c, d + "/" + os.path.basename(c)[:-2] + ".o") for c in src if hdr or os.path.basename(c) == os.path.basename(f)]
        if hdr: todo += [(C.HARN + "/core.c", d + "/core.o")] + [("%s/p_%s.c" % (C.HARN, p), "%s/p_%s.o" % (d, p)) for p in BODIES]
        for c, o in todo:
            r = sh(["gcc", "-O1"] + C.BASE + ["-I" + inc, "-I" + d + "/src", "-I" + C.HARN, "-c", c, "-o", o])
            if r is None or r.returncode: rec["res"] = "nocompile"; return rec
        have = {os.path.basename(o) for _, o in todo}
        objs = [d + "/" + o for o in have] + [WORK + "/h/" + o for o in os.listdir(WORK + "/h") if o not in have]
        # same object: equivalent for the compiler
        r = sh(["gcc", "-o", d + "/mc"] + objs + [C.LIBM4RI, "-lm", "-Wl," + ",".join("--wrap=" + w for w in C.WRAP)])
        if r.returncode: rec["res"] = "nocompile"; return rec
        for o in os.listdir(d):
            if o.endswith(".o"): os.unlink(d + "/" + o)
        runs = [(b, 0, 0) for b in bodies]
        if ownmode: runs += [(p, t, x) for b in bodies if b != "C18" for v, _, p, t, x in C.varied(b, "quick") if v == "plain"]
        elif tier1: runs += [(b, 1, 0) for b in bodies]
        if True:
            for b, tier, vary in runs:
                out = d + "/out.json"
                r = sh(["bash", "-c", "ulimit -v 40000000; exec \"$@\"", "x", d + "/mc", b, "--tier", str(tier), "--vary", str(vary), "--jobs", "1" if tier == 0 else "2", "--out", out, "--case-limit", "60"], t=200 if tier == 0 else 1200, stdin=subprocess.DEVNULL)
                if r is None: rec.update(res="killed", by=b, tier=tier, how="timeout"); return rec
                try: q = json.load(open(out)); os.unlink(out)
                except Exception: rec.update(res="killed", by=b, tier=tier, how="broken"); return rec
                if q["result"] != "ok": rec.update(res="killed", by=b, tier=tier, how=q.get("message", "")[:100]); return rec
        rec["res"] = "survived"; return rec
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    a = sys.argv; opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    out, n, seed, jobs = a[1], int(opt("--n", "100")), int(opt("--seed", "1")), int(opt("--jobs", "6"))
    names = opt("--files", ""); fs = [os.path.join(C.SRC, x) for x in names.split(",")] if names else sorted(glob.glob(C.SRC + "/*.[ch]") + glob.glob(C.SRC + "/trsm.inl"))
    fs = [f for f in fs if os.path.basename(f) not in SKIPF]
    S = sites(fs); rnd = random.Random(seed)
    by = {}
    for s in S: by.setdefault(s[0], []).append(s)
    # spread over the files, weighted by the square root of the number of sites
    w = {f: len(v) ** .5 for f, v in by.items()}; tot = sum(w.values()); pick = []
    for f, v in by.items(): pick += rnd.sample(v, min(len(v), max(1, round(n * w[f] / tot))))
    if "--guard" in a: pick = [x for x in (guarded(s, rnd) for s in pick) if x]
    rnd.shuffle(pick); print(len(S), "sites,", len(pick), "picked", flush=True); prepare()
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, "a") as o:
        for r in ex.map(one, [(i, s, "--tier1" in a, "--own" in a) for i, s in enumerate(pick)]):
            o.write(json.dumps(r) + "\n"); o.flush()
if __name__ == "__main__": main()
