#!/usr/bin/env python3
"""mkseed.py DEFFILE [id...]: builds /verif/seeded/<id> from definitions (python file with SEEDS list), confirming each in a scratch copy:
builds, stable tests pass, demo passes without and fails with the patch."""
import sys, os, subprocess, json, shutil, importlib.util
V = "/verif"; W = "/tmp/seedwork/repo"
def sh(c, cwd=W, timeout=900):
    r = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=timeout); return r.returncode, r.stdout + r.stderr
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this demonstration, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/demo_test.go"
%s
printf '{"Replace":{%%s"%%s":"%%s"}}' "$extra" "$PWD/%s/zz_demo_test.go" "$t/demo_test.go" > "$t/overlay.json"
timeout 250 go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 240s %s -run '^TestDemo$' ./%s
'''
def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    for s in m.SEEDS:
        if want and s["id"] not in want: continue
        shutil.rmtree("/tmp/seedwork", ignore_errors=True); os.makedirs("/tmp/seedwork"); sh("cp -a /repo " + W, cwd="/tmp")
        D = os.path.join(V, "seeded", s["id"]); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        open(D + "/demo.sh", "w").write(DEMO % (s.get("pre", 'extra=""'), s["pkg"], s.get("flags", ""), s["pkg"])); os.chmod(D + "/demo.sh", 0o755)
        open(D + "/demo_test.go.txt", "w").write(s["demo"])
        rc0, out0 = sh("bash %s/demo.sh" % D)
        bad = None
        for f, a, b in s["edits"]:
            t = open(os.path.join(W, f)).read()
            if t.count(a) < 1: bad = "edit point missing in " + f; break
            n = s.get("count", 1)
            if isinstance(a, str): t = t.replace(a, b) if n == 0 else t.replace(a, b, n)
            open(os.path.join(W, f), "w").write(t)
        if bad: print(s["id"], bad); continue
        _, diff = sh("git diff"); open(D + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(D + "/meta.json", "w"), indent=1)
        rcb, outb = sh("go build ./...")
        rct, outt = sh("export HOME=/root GOFLAGS=-mod=mod GOPROXY=off; go test -vet=off -count=1 -timeout 10m ./... 2>&1 | grep -v 'no test files'")
        ok_t = "FAIL" not in outt
        rc1, out1 = sh("bash %s/demo.sh" % D)
        good = rc0 == 0 and rcb == 0 and ok_t and rc1 != 0
        print(s["id"], "OK" if good else "BAD", "demo0=%d build=%d tests=%s demo1=%d" % (rc0, rcb, ok_t, rc1), flush=True)
        if rc0: print(out0[-1500:])
        if rcb: print(outb[-800:])
        if not ok_t: print(outt[-1200:])
        if good: print("   ", [l for l in out1.splitlines() if "demo" in l or "panic" in l][:3])
        if not good: shutil.move(D, "/tmp/seedbad_" + s["id"]) if not os.path.exists("/tmp/seedbad_" + s["id"]) else shutil.rmtree(D)
main()
