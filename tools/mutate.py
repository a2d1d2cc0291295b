#!/usr/bin/env python3
"""mutate.py [-j N] TABLE.py [ID...]: applies each change of a table to a scratch copy of /repo,
builds it, runs the stable tests and, if they pass, the check of its property against that copy.
Nothing is kept; used to find gaps in the checks."""
import json, os, threading, shutil, subprocess, sys, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
T = []
def mut(id, prop, file, old, new, *more):
    edits = [(file, old, new)]
    for k in range(0, len(more), 3): edits.append(more[k:k+3])
    T.append((id, prop, edits))
jobs = 2
av = sys.argv[1:]
if av[0] == "-j": jobs = int(av[1]); av = av[2:]
exec(open(av[0]).read())
want = set(av[1:])

def sh(cmd, cwd, t=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, timeout=t)

def passed(cwd):
    r = sh("go test -json -vet=off -count=1 ./...", cwd)
    out = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e["Action"] == "pass": out.add(e["Test"])
    return out

port = threading.Lock() # the tests use a fixed port
base = passed("/repo")
def one(m):
    id, prop, edits = m
    d = "/tmp/mut/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        for f, old, new in edits:
            p = d + "/repo/" + f
            s = open(p).read()
            if s.count(old) < 1: return id, prop, "NOMATCH " + f
            open(p, "w").write(s.replace(old, new, 1))
        r = sh("go build ./...", d + "/repo")
        if r.returncode: return id, prop, "NOBUILD " + r.stderr[:300]
        with port: got = passed(d + "/repo")
        if not base <= got: return id, prop, "TESTS FAIL " + ",".join(sorted(base - got))[:80]
        shutil.copytree(here + "/harness", d + "/harness")
        g = d + "/harness/go.mod"
        s = open(g).read().replace("=> /repo", "=> " + d + "/repo"); open(g, "w").write(s)
        out = []
        for p in prop.split(","):
            r = sh("%s/bin/gosym -prop %s -tier quick -workers 4 -harness %s/harness -evidence %s/ev -known %s/known_findings.txt" % (here, p, d, d, here), here)
            v = [l for l in r.stdout.splitlines() if l.startswith("  harness ")]
            last = (r.stdout.strip().splitlines() or [""])[-1]
            out.append("%s:%s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d %s" % (r.returncode, r.stderr[-300:]))) + (" " + v[0].strip() if v else " " + last if r.returncode else ""))
        return id, prop, " ; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

with cf.ThreadPoolExecutor(jobs) as ex:
    for id, prop, res in ex.map(one, [m for m in T if not want or m[0] in want]):
        print(id, prop, res, flush=True)
