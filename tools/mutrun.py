#!/usr/bin/env python3
"""Mutation testing of the checks: mutrun.py OUT.jsonl [every N [offset K]] [only FILE-REGEX]
For each small syntactic change (tools/mutate) which builds and passes the repository's
tests, runs the checks with small numbers of cases until one sees it. Works in copies of
/repo (or $MUTREPO) under /tmp. Survivors are listed for reading: equivalent changes,
behaviour outside of the properties, or gaps."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUTREPO", "/repo")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", VERIF_SEED="1", VERIF_TIER="quick")
CHECKS = [("X00", 300), ("C22", 200), ("C12", 60), ("C16", 600), ("C21", 4000), ("X00", 3000), ("C14", 600), ("C11", 300), ("C13", 400), ("C15", 300), ("C19", 2000),
          ("C05", 1500), ("C10", 800), ("C17", 300), ("C18", 300), ("C20", 1500), ("C01", 1500), ("C06", 1500), ("C16", 5000), ("C04", 3000), ("C08", 2000), ("C09", 2000), ("C02", 2000), ("C23", 30)]

def run(cmd, timeout=600, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, "timeout")

def files(d):
    return sorted(f for f in os.listdir(d) if f.endswith(".go") and not f.endswith("_test.go")) + ["cmd/xgen/xgen.go"]

def one(i, cpu, d, t, mut, fs):
    ts = ["taskset", "-c", str(cpu)]
    run(["git", "checkout", "-q", "--", "."], cwd=d)
    run([mut, "apply", str(i)] + fs, cwd=d)
    if run(ts + ["go", "vet", "./..."], cwd=d, env=ENV).returncode: return "build", ""
    r = run(ts + ["timeout", "60", "go", "test", "-count=1", "./..."], cwd=d, env=ENV)
    if r.returncode: return "tests", ""
    h = os.path.join(HERE, "harness")
    r = run(ts + ["go", "build", "-modfile=" + t + "/go.mod", "-o", t + "/xv", "."], cwd=h, env=ENV)
    if r.returncode: return "harness", r.stdout[-300:]
    env = dict(ENV, XV_SCRATCH_BASE=t, XV_XGEN=t + "/xgen")
    run(ts + ["go", "build", "-modfile=" + t + "/go.mod", "-o", t + "/xgen", "github.com/xuri/xgen/cmd/xgen"], cwd=h, env=ENV)
    for p, n in CHECKS:
        r = run(ts + [t + "/xv", "check", "-prop", p, "-n", str(n), "-verif", t + "/v"], env=env)
        if r.returncode == 1: return "killed", p
        if r.returncode != 0: return "killed?", p + " rc=%d" % r.returncode + r.stdout[-300:]
    return "SURVIVED", ""

def main():
    out = sys.argv[1]; every, off, only = 1, 0, ""
    a = sys.argv[2:]
    while a:
        if a[0] == "every": every = int(a[1])
        if a[0] == "offset": off = int(a[1])
        if a[0] == "only": only = a[1]
        a = a[2:]
    top = tempfile.mkdtemp(prefix="mutrun."); os.chmod(top, 0o755)
    mut = top + "/mutate"
    run(["go", "build", "-o", mut, "."], cwd=os.path.join(HERE, "tools/mutate"), env=ENV)
    fs = files(REPO)
    lst = run([mut, "list"] + fs, cwd=REPO).stdout.strip().split("\n")
    done = set()
    if os.path.exists(out): done = {json.loads(l)["i"] for l in open(out)}
    q = queue.Queue()
    for k, l in enumerate(lst):
        if k % every == off and (not only or re.search(only, l)) and k not in done: q.put((k, l))
    print(q.qsize(), "changes", flush=True)
    lock = threading.Lock()
    procs = int(os.environ.get("MUTPROCS", "8"))
    def work(cpu):
        d = "%s/repo%d" % (top, cpu); t = "%s/t%d" % (top, cpu); os.makedirs(t + "/v"); os.chmod(t, 0o755)
        run(["cp", "-a", REPO, d])
        diff = run(["git", "diff"], cwd=d).stdout
        if diff.strip(): run(["git", "-c", "user.email=a@b", "-c", "user.name=a", "commit", "-qam", "wip"], cwd=d)
        open(t + "/go.mod", "w").write(open(HERE + "/harness/go.mod").read().replace("=> /repo", "=> " + d))
        shutil.copy(HERE + "/harness/go.sum", t + "/go.sum")
        shutil.copy(HERE + "/known_findings.jsonl", t + "/v/")
        while True:
            try: i, l = q.get_nowait()
            except queue.Empty: return
            s, by = one(i, cpu, d, t, mut, fs)
            with lock:
                open(out, "a").write(json.dumps({"i": i, "m": l, "s": s, "by": by}) + "\n")
    th = [threading.Thread(target=work, args=(c,)) for c in range(procs)]
    [x.start() for x in th]; [x.join() for x in th]
    shutil.rmtree(top)
main()
