#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: makes /verif/seeded/<id>/ from a table of planted bugs.

Each bug is confirmed in a scratch copy: it applies, builds, passes the stable tests, and
its demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
BUGS = []
HEAD = '''package gojsonschema

import (
%s)

'''
COMMON = '''
func must(t *testing.T, schema string) *Schema {
	s, err := NewSchema(NewStringLoader(schema))
	if err != nil {
		t.Fatalf("%s: %v", schema, err)
	}
	return s
}

func valid(t *testing.T, schema, instance string, want bool) {
	r, err := must(t, schema).Validate(NewStringLoader(instance))
	if err != nil {
		t.Fatal(err)
	}
	if r.Valid() != want {
		t.Errorf("%s on %s: valid=%v, want %v", schema, instance, r.Valid(), want)
	}
}
'''
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right. Runs in /repo.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo$' %s. 
'''

def bug(id, prop, file, old, new, demo, needs, breaks, imports=(), race=False, more=()):
    BUGS.append(dict(id=id, prop=prop, edits=[(file, old, new)] + list(more), demo=demo, needs=needs, breaks=breaks,
                     imports=list(imports), race=race))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, **kw)

def tests(cwd):
    r = sh("go test -json -vet=off -count=1 ./...", cwd)
    out = {}
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e["Action"] in ("pass", "fail"):
            out[e["Package"] + "::" + e["Test"]] = e["Action"]
    return out

exec(open(sys.argv[1]).read())
want = sys.argv[2:]
base = None
for b in BUGS:
    if want and b["id"] not in want: continue
    dst = os.path.join(here, "seeded", b["id"])
    if not want and os.path.exists(dst): continue
    wt = "/tmp/plant_wt"
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    if base is None: base = {k for k, v in tests(wt).items() if v == "pass"}
    tmp = "/tmp/plant_new"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    code = b["demo"]
    use_common = "valid(t," in code or "must(t," in code
    imps = "".join('\t"%s"\n' % i for i in sorted(set(b["imports"] + ["testing"])))
    open(tmp + "/demo_test.go", "w").write(HEAD % imps + (COMMON.lstrip() if use_common else "") + "\n" + code.strip() + "\n")
    open(tmp + "/demo.sh", "w").write(DEMO % ("-race " if b["race"] else ""))
    r = sh("bash %s/demo.sh" % tmp, wt)
    if r.returncode != 0:
        print(b["id"], "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-500:]); continue
    ok = True
    for f, old, new in b["edits"]:
        s = open(wt + "/" + f).read()
        if s.count(old) != 1: print(b["id"], "edit matches", s.count(old)); ok = False; break
        open(wt + "/" + f, "w").write(s.replace(old, new))
    if not ok: continue
    r = sh("go build ./... && gofmt -l *.go", wt)
    if r.returncode != 0: print(b["id"], "BUILD", r.stderr); continue
    after = tests(wt)
    lost = sorted(k for k in base if after.get(k) != "pass")
    if lost: print(b["id"], "TESTS", lost[:5]); continue
    r = sh("bash %s/demo.sh" % tmp, wt)
    if r.returncode == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
    if "FAIL" not in r.stdout: print(b["id"], "demo broken", r.stdout, r.stderr); continue
    open(tmp + "/patch.diff", "w").write(sh("git diff", wt).stdout)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(dst, ignore_errors=True); shutil.move(tmp, dst)
    print(b["id"], "ok")
shutil.rmtree("/tmp/plant_wt", ignore_errors=True); shutil.rmtree("/tmp/plant_new", ignore_errors=True)
