#!/usr/bin/env python3
"""Confirm planted bugs: applies, builds, stable tests pass, demo 0 / non-zero, which check sees it.
  seed.py ID... [--no-tests] [--also C05,C18]   (scratch copies under /tmp, private mount at /repo)"""
import json, os, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
def ns(copy, cmd, t=900):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
def one(i, tests, also):
    d = V + "/seeded/" + i; c = "/tmp/sc-" + i; meta = json.load(open(d + "/meta.json"))
    shutil.rmtree(c, ignore_errors=True); subprocess.run(["cp", "-a", "/repo", c], check=True)
    try:
        demo = "/tmp/sd-" + i; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = ns(c, "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % demo); print(i, "clean demo", r.returncode, r.stdout[-200:].strip(), flush=True)
        ok = r.returncode == 0
        r = subprocess.run(["git", "-C", c, "apply", d + "/patch.diff"]); 
        if r.returncode: print(i, "DOES NOT APPLY"); return
        r = ns(c, "bash /opt/vp/build.sh"); 
        if r.returncode: print(i, "DOES NOT BUILD", r.stdout[-2000:]); return
        r = ns(c, "bash %s/demo.sh" % demo); print(i, "patched demo", r.returncode, r.stdout[-200:].strip(), flush=True); ok &= r.returncode != 0
        if tests:
            r = ns(c, "bash /opt/vp/test.sh /tmp/sc-%s.json" % i); q = json.load(open("/tmp/sc-%s.json" % i)); os.unlink("/tmp/sc-%s.json" % i)
            base = json.load(open("/opt/vp/BASELINE.json")); want = set(base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable"))
            miss = want - set(q["passed"]); print(i, "tests passed", len(q["passed"]), "missing", len(miss), sorted(miss)[:3], flush=True); ok &= not miss
        for p in [meta["property"]] + also:
            r = subprocess.run(["python3", V + "/check.py", p, "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, M4RIE_REPO=c, VERIF_SEED="1"), cwd=V)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]; print(i, p, "exit", r.returncode, v[:2], flush=True)
            ok &= p != meta["property"] or (r.returncode == 1 and any(("property=" + p) in x for x in v))
        print(i, "OK" if ok else "NOT OK", flush=True)
    finally: shutil.rmtree(c, ignore_errors=True); shutil.rmtree("/tmp/sd-" + i, ignore_errors=True)
if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]; also = []
    if "--also" in sys.argv: also = sys.argv[sys.argv.index("--also") + 1].split(","); a.remove(",".join(also))
    for i in a: one(i, "--no-tests" not in sys.argv, also)
