#!/usr/bin/env python3
"""Plants and validates bugs.
   seed.py plant SPEC.py   SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
   seed.py verify [ID..]   patch applies, original lines, builds, tests pass, demo 0 / nonzero
   seed.py catch [ID..]    run the property's quick check (-all: every check) against each planted bug, in a copy
"""
import json, os, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
HEAD = """#!/bin/bash
# Exits 0 when the behaviour is right, 1 when it is broken. Run with the repository as working directory.
set -u
d=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf -- "$d"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
"""
CLI = """go build -o "$d/xgen" ./cmd/xgen || exit 3
gen() { "$d/xgen" -i "$1" -o "$2" -l "$3" -p schema >"$d/log" 2>&1; }
"""

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def copy():
    d = tempfile.mkdtemp(prefix="seedrepo.")
    run(["cp", "-a", "/repo/.", d])
    run(["git", "checkout", "-q", "--", "."], cwd=d)
    return d

def testsh(d):
    # the same tests, in the copy
    r = run(["go", "build", "./..."], cwd=d)
    if r.returncode: return "build: " + r.stdout[-800:]
    r = run(["go", "vet", "./..."], cwd=d)
    env = dict(os.environ)
    r = run("go test ./... 2>&1", shell=True, cwd=d)
    if r.returncode: return "tests: " + r.stdout[-1500:]
    return ""

def blame_ok(d, patch):
    """every removed line is one of the original repository, and there is one"""
    n = 0
    f = None; ln = 0
    for l in patch.split("\n"):
        if l.startswith("--- a/"): f = l[6:]; continue
        if l.startswith("+++ "): continue
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)); continue
        if f is None: continue
        if l.startswith("-"):
            b = run(["git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], cwd=d).stdout
            if not b.lstrip("^").startswith("7d8a806"): return "not an original line: " + b
            n += 1; ln += 1
        elif l.startswith(" "): ln += 1
    return "" if n else "no line removed"

def demo(d, sid):
    t = tempfile.mkdtemp(prefix="seeddemo.")
    for n in os.listdir(os.path.join(SEEDED, sid)):
        if not n.endswith((".diff", ".patch")) and n != "meta.json":
            shutil.copy(os.path.join(SEEDED, sid, n), t)
    r = run(["bash", os.path.join(t, "demo.sh")], cwd=d, timeout=300)
    shutil.rmtree(t)
    return r

def verify(sid, d=None):
    own = d is None
    if own: d = copy()
    try:
        p = os.path.join(SEEDED, sid, "patch.diff")
        r = demo(d, sid)
        if r.returncode: return "demo fails on the unchanged tree: " + r.stdout[-800:]
        if run(["git", "status", "--short"], cwd=d).stdout: return "demo changes the tree"
        r = run(["git", "apply", p], cwd=d)
        if r.returncode: return "patch: " + r.stdout
        e = blame_ok(d, open(p).read()) or testsh(d)
        if e: return e
        r = demo(d, sid)
        if r.returncode == 0: return "demo passes with the patch"
        if r.returncode == 3: return "demo cannot run: " + r.stdout[-500:]
        return ""
    finally:
        run(["git", "checkout", "-q", "--", "."], cwd=d)
        if own: shutil.rmtree(d)

def main():
    what = sys.argv[1]
    if what == "plant":
        ns = {"HEAD": HEAD, "CLI": CLI}
        exec(open(sys.argv[2]).read(), ns)
        only = sys.argv[3:]
        d = copy()
        for s in ns["SEEDS"]:
            if only and s["id"] not in only: continue
            bad = None
            for f, old, new in s["edits"]:
                p = os.path.join(d, f); t = open(p).read()
                if t.count(old) != 1: bad = "%s: %d matches for %r" % (f, t.count(old), old); break
                open(p, "w").write(t.replace(old, new))
            patch = run(["git", "diff"], cwd=d).stdout
            run(["git", "checkout", "-q", "--", "."], cwd=d)
            if bad: print(s["id"], "FAIL", bad); continue
            sd = os.path.join(SEEDED, s["id"]); os.makedirs(sd, exist_ok=True)
            open(os.path.join(sd, "patch.diff"), "w").write(patch)
            open(os.path.join(sd, "demo.sh"), "w").write(HEAD + (CLI if s.get("cli", True) else "") + s["demo"].strip("\n") + "\n")
            os.chmod(os.path.join(sd, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
            e = verify(s["id"], d)
            print(s["id"], "FAIL " + e if e else "ok", flush=True)
        shutil.rmtree(d)
    elif what == "verify":
        d = copy()
        for sid in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            e = verify(sid, d)
            print(sid, "FAIL " + e if e else "ok", flush=True)
        shutil.rmtree(d)
    elif what == "catch":
        # in copies of /repo, with the harness built against each
        ids = [a for a in sys.argv[2:] if not a.startswith("-")]
        seeds = os.environ.get("VERIF_SEED", "1").split(",")
        for sid in ids or sorted(os.listdir(SEEDED)):
            m = json.load(open(os.path.join(SEEDED, sid, "meta.json")))
            d = copy(); t = tempfile.mkdtemp(prefix="seedcatch."); os.chmod(t, 0o755)
            try:
                if run(["git", "apply", os.path.join(SEEDED, sid, "patch.diff")], cwd=d).returncode:
                    print(sid, "patch does not apply"); continue
                mod = open(os.path.join(HERE, "harness/go.mod")).read().replace("=> /repo", "=> " + d)
                open(t + "/go.mod", "w").write(mod)
                shutil.copy(os.path.join(HERE, "harness/go.sum"), t + "/go.sum")
                env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", XV_SCRATCH_BASE=t, XV_XGEN=t + "/xgen")
                props = [m["property"]]
                if "-all" in sys.argv: props = ["C%02d" % i for i in range(1, 24)]
                os.mkdir(t + "/v")
                shutil.copy(os.path.join(HERE, "known_findings.jsonl"), t + "/v/")
                for p in props:
                    race = ["-race"] if p == "C23" else []
                    r = run(["go", "build"] + race + ["-modfile=" + t + "/go.mod", "-o", t + "/xv", "."], cwd=os.path.join(HERE, "harness"), env=env)
                    if r.returncode: print(sid, p, "harness does not build", r.stdout[-500:]); continue
                    if p in ("C17", "C18"):
                        run(["go", "build", "-modfile=" + t + "/go.mod", "-o", t + "/xgen", "github.com/xuri/xgen/cmd/xgen"], cwd=os.path.join(HERE, "harness"), env=env)
                    for seed in seeds:
                        r = run([t + "/xv", "check", "-prop", p, "-verif", t + "/v"], env=dict(env, VERIF_SEED=seed))
                        vs = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=" + p)]
                        print(sid, p, "caught" if r.returncode == 1 and vs else "MISSED rc=%d" % r.returncode, "seed", seed, r.stdout.strip().split("\n")[-1], flush=True)
            finally:
                shutil.rmtree(d); shutil.rmtree(t)
main()
