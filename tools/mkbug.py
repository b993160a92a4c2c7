#!/usr/bin/env python3
"""Helper used while planting bugs: makes /verif/seeded/<id> from edits, confirms it in a scratch copy.

A spec file (python) calls bug(id, prop, edits=[(file, old, new), ...], demo=BASH, needs=..., breaks=...).
BASH runs with $G = the built program, $T = a scratch directory, cwd = the repository.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
G=$T/goledger
go build -o "$G" . || exit 98
export GOLEDGER_CONF=$T/conf.toml
: > "$GOLEDGER_CONF"
unset LANG LC_ALL
want() { # want NAME EXPECTED ACTUAL
  if [ "$2" != "$3" ]; then echo "$1: expected:"; echo "$2"; echo "got:"; echo "$3"; exit 1; fi
}
'''
def sh(cmd, cwd, **kw):
    env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=env, **kw)
ONLY = []
CHECK = True
def bug(id, prop, edits, demo, needs, breaks, check=None, files=None):
    if ONLY and id not in ONLY: return
    tmp = tempfile.mkdtemp(prefix="bug-", dir="/dev/shm")
    r = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        sh("git checkout -q -- .", r)
        d = os.path.join(tmp, "seed"); os.mkdir(d)
        with open(os.path.join(d, "demo.sh"), "w") as f: f.write(HEAD + demo.strip("\n") + "\nexit 0\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "w") as f: f.write(c)
        p0 = sh(["bash", os.path.join(d, "demo.sh")], r)
        for fn, old, new in edits:
            p = os.path.join(r, fn); s = open(p).read()
            if s.count(old) != 1: print(id, "edit matches", s.count(old), "times:", old); return
            open(p, "w").write(s.replace(old, new))
        g = sh("gofmt -l book cmd loader script", r).stdout.split()
        diff = sh("git diff", r).stdout
        b = sh("go build -o /dev/null . && go vet ./book ./cmd/app ./cmd/utils >/dev/null 2>&1; go build -o /dev/null .", r)
        if b.returncode: print(id, "BUILD FAILS", b.stderr); return
        t = sh("go test -vet=off -count=1 ./book ./cmd/app", r)
        if t.returncode: print(id, "TESTS FAIL", t.stdout[-1500:]); return
        p1 = sh(["bash", os.path.join(d, "demo.sh")], r)
        ok = p0.returncode == 0 and p1.returncode not in (0, 98, 99)
        print(id, prop, "demo clean:", p0.returncode, "patched:", p1.returncode, "OK" if ok else "BAD")
        if not ok:
            print(p0.stdout[-800:], p0.stderr[-800:], "----", p1.stdout[-800:], p1.stderr[-800:]); return
        out = os.path.join(V, "seeded", id)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for n in os.listdir(d): shutil.copy(os.path.join(d, n), out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        if CHECK:
            for c in [prop] + (check or []):
                q = subprocess.run([sys.executable, os.path.join(V, "run.py"), "check", c], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
                v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
                print("   ", c, "->", "CAUGHT" if q.returncode == 1 and v else "MISSED rc=%d" % q.returncode, (v or [q.stdout[-300:] + q.stderr[-300:]])[0][:300])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if "-n" in a: CHECK = False; a.remove("-n")
    spec = a[0]; ONLY[:] = a[1:]
    exec(compile(open(spec).read(), spec, "exec"), {"bug": bug})
