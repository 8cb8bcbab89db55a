#!/usr/bin/env python3
"""mkseed.py FILE.py [name...]: writes and confirms planted changes.

FILE.py defines seeds with seed(name, prop, edits, pkg, test, needs, breaks).
Each is written to /verif/seeded/<name>/ only if, in a scratch copy of /repo,
it builds, the stable tests pass, and its demonstration passes without and
fails with the change. Prints whether the property's check catches it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(name, prop, edits, pkg, test, needs, breaks, race=False, catch=None):
    SEEDS.append(dict(name=name, prop=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks, race=race, catch=catch or [prop]))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV["PATH"]
DEMO = '''#!/bin/bash
# Runs the demonstration beside this file inside the package, by overlay.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$here/demo_test.go.txt" > "$t/overlay.json"
timeout 250 go test %s-vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestDemo$' ./%s
'''
def run(cmd, cwd, to=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, text=True)
    return p.returncode, p.stdout
def stable_ok(wt):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests")
    rc, o = run(["go", "list", "./..."], wt)
    pk = [l for l in o.split() if not l.endswith("/poolx/gopoolx") and "utilx" in l]
    passed = set()
    for extra, ps in (([], pk), (["-cpu", "1"], ["./poolx/gopoolx"])):
        rc, o = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m"] + extra + ps, wt)
        for l in o.splitlines():
            try: d = json.loads(l)
            except Exception: continue
            if d.get("Action") == "pass" and d.get("Test"):
                passed.add((d["Package"], d["Test"]))
    names = {t for _, t in passed} | {p + "/" + t for p, t in passed} | {p + "." + t for p, t in passed} | {p + "::" + t for p, t in passed}
    miss = [s for s in stable if s not in names and s.split("::")[-1] not in names]
    return miss
def main():
    f = sys.argv[1]
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})
    only = sys.argv[2:]
    for s in SEEDS:
        if only and s["name"] not in only: continue
        wt = tempfile.mkdtemp(prefix="seedwt")
        try:
            subprocess.check_call(["cp", "-a", "/repo/.", wt])
            d = os.path.join(wt, ".demo"); 
            d = tempfile.mkdtemp(prefix="seeddemo")
            open(d + "/demo_test.go.txt", "w").write(s["test"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(DEMO % (s["pkg"], "-race " if s["race"] else "", s["pkg"]))
            rc0, o0 = run(["bash", d + "/demo.sh"], wt)
            for fn, old, new in s["edits"]:
                p = os.path.join(wt, fn); t = open(p).read()
                assert t.count(old) == 1, (s["name"], fn, old, t.count(old))
                open(p, "w").write(t.replace(old, new))
            rc, o = run(["go", "build", "./..."], wt)
            rf, of = run(["gofmt", "-l"] + [e[0] for e in s["edits"]], wt)
            diff = subprocess.check_output(["git", "diff"], cwd=wt, text=True)
            rc1, o1 = run(["bash", d + "/demo.sh"], wt)
            miss = stable_ok(wt) if rc == 0 else ["build"]
            ok = rc == 0 and rc0 == 0 and rc1 != 0 and not miss
            caught = {}
            for c in s["catch"]:
                cc, co = run([V + "/bin/utilxcheck", "-prop", c, "-repo", wt, "-out", d], wt)
                caught[c] = (cc, [l.strip()[:230] for l in co.splitlines() if l.startswith("  ")][:1])
            print("%-28s valid=%s build=%d demo %d/%d missing=%s fmt=%s caught=%s" % (s["name"], ok, rc, rc0, rc1, miss, of.strip(), caught), flush=True)
            if not ok:
                print(o[-500:], o0[-1500:] if rc0 else "", o1[-300:])
                continue
            out = os.path.join(V, "seeded", s["name"]); os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            for n in ("demo_test.go.txt", "demo.sh"): shutil.copy(d + "/" + n, out)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)
main()
