#!/usr/bin/env python3
"""Trial bugs which are not kept: trial.py SPEC.py [ids].
   SPEC.py defines TRIALS = [(id, property, [(file, old, new)])]; each is applied to a copy of
   /repo, must build and pass the tests, and the property's quick check runs against it."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ns = {}
exec(open(sys.argv[1]).read(), ns)
for tid, prop, edits in ns["TRIALS"]:
    if sys.argv[2:] and tid not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="trial.")
    t = tempfile.mkdtemp(prefix="trialrun.")
    os.chmod(t, 0o755)
    try:
        run(["cp", "-a", "/repo/.", d])
        run(["git", "checkout", "-q", "--", "."], cwd=d)
        bad = None
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: %d matches for %r" % (f, s.count(old), old)
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(tid, "FAIL", bad, flush=True)
            continue
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", XV_SCRATCH_BASE=t, XV_XGEN=t + "/xgen")
        r = run(["go", "vet", "./..."], cwd=d)
        if r.returncode:
            print(tid, "FAIL build", r.stdout[-300:], flush=True)
            continue
        if run(["go", "test", "./..."], cwd=d).returncode:
            print(tid, "tests catch it", flush=True)
        mod = open(os.path.join(HERE, "harness/go.mod")).read().replace("=> /repo", "=> " + d)
        open(t + "/go.mod", "w").write(mod)
        shutil.copy(os.path.join(HERE, "harness/go.sum"), t + "/go.sum")
        os.mkdir(t + "/v")
        shutil.copy(os.path.join(HERE, "known_findings.jsonl"), t + "/v/")
        for p in prop.split():
            race = ["-race"] if p == "C23" else []
            r = run(["go", "build"] + race + ["-modfile=" + t + "/go.mod", "-o", t + "/xv", "."], cwd=os.path.join(HERE, "harness"), env=env)
            if r.returncode:
                print(tid, "harness does not build", r.stdout[-500:])
                continue
            if p in ("C17", "C18"):
                run(["go", "build", "-modfile=" + t + "/go.mod", "-o", t + "/xgen", "github.com/xuri/xgen/cmd/xgen"], cwd=os.path.join(HERE, "harness"), env=env)
            r = run([t + "/xv", "check", "-prop", p, "-verif", t + "/v"], env=env)
            hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            print(tid, p, "caught" if hit else "MISSED rc=%d" % r.returncode, r.stdout.strip().split("\n")[-1], flush=True)
    finally:
        shutil.rmtree(d)
        shutil.rmtree(t)
