#!/usr/bin/env python3
"""Driver: builds the model-checking harness against /repo's working tree and runs one check.

  run.py check C01 [--tier quick|thorough]     run a check (exit 0 / 1 / 2)
  run.py replay FILE                           re-run the case recorded in a replay file
  run.py build                                 only build (both flavours)

The harness (harness/*.go) is compiled as an extra main package of the goledger module through
`go build -overlay`; nothing is written into /repo.  The hooked flavour additionally overlays four
files of the Go standard library so that map iteration order, the clock and file system calls are
owned by the harness (tools/goroot_overlay.py).
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import goroot_overlay

HOOKED = {"C09", "C12", "C15", "C16", "C17", "C25", "C27"}
YIELDS = {"C25"} # scheduling points in cmd/download
PROGRAM = {"C21", "C27"} # compared with the program as it is built

def goenv():
    env = dict(os.environ)
    env["HOME"] = env.get("HOME") or "/root"
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on")
    env.pop("LANG", None)
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    return env

def yields(scratch, env, pkg):
    """Copies of the files of a package with a scheduling point before every statement."""
    d = os.path.join(REPO, pkg)
    tool = os.path.join(VERIF, "tools", "yieldgen")
    out = os.path.join(scratch, "yield")
    os.mkdir(out)
    files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".go") and not f.endswith("_test.go")]
    e = dict(env, GO111MODULE="off", GOFLAGS="")
    p = subprocess.run(["go", "run", "main.go", out] + files, cwd=tool, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stderr)
        return {}
    rep = dict(l.split("\t") for l in p.stdout.splitlines())
    rep[os.path.join(d, "zz_verif_yield.go")] = os.path.join(tool, "hook.go.txt")
    return rep

def build(scratch, hooked, yielding=False):
    env = goenv()
    replace = {}
    hdir = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".go"):
            replace[os.path.join(REPO, "zz_verifmc", f)] = os.path.join(hdir, f)
    tags = "verifmc"
    if hooked:
        goroot = subprocess.run(["go", "env", "GOROOT"], env=env, capture_output=True, text=True, check=True).stdout.strip()
        replace.update(goroot_overlay.generate(goroot, os.path.join(scratch, "goroot")))
        tags += ",verifhooks"
    if yielding:
        replace.update(yields(scratch, env, "cmd/download"))
        tags += ",verifyield"
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": replace}, f)
    out = os.path.join(scratch, "vmc")
    p = subprocess.run(["go", "build", "-overlay", ov, "-tags", tags, "-o", out, "./zz_verifmc"],
                       cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout + p.stderr)
        return None
    return out

def run(args_, prop):
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="verifmc-", dir=shm)
    try:
        b = build(scratch, prop in HOOKED, prop in YIELDS)
        if b is None:
            print("ERROR: the harness does not build against the working tree")
            return 2
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        env = goenv()
        env["VERIF_SCRATCH"] = work
        if prop in PROGRAM:
            exe = os.path.join(scratch, "goledger")
            q = subprocess.run(["go", "build", "-o", exe, "."], cwd=REPO, env=env, capture_output=True, text=True)
            if q.returncode != 0:
                sys.stderr.write(q.stdout + q.stderr)
                print("ERROR: the program does not build")
                return 2
            env["VERIF_GOLEDGER"] = exe
        p = subprocess.run([b] + args_, cwd=work, env=env, stdin=subprocess.DEVNULL)
        return p.returncode if p.returncode in (0, 1) else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "build":
        for h in ((False, False), (True, False), (True, True)):
            scratch = tempfile.mkdtemp(prefix="verifmc-")
            try:
                if build(scratch, *h) is None: return 2
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        print("harness builds (plain, hooked and with scheduling points)")
        return 0
    if a[0] == "check":
        prop = a[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        extra = a[a.index("--") + 1:] if "--" in a else []
        return run(["-prop", prop, "-tier", tier, "-seed", os.environ.get("VERIF_SEED", "1"),
                    "-evidence", os.path.join(VERIF, "evidence", prop + ".json"),
                    "-replaydir", os.path.join(VERIF, "replays"),
                    "-known", os.path.join(VERIF, "known_findings.json")] + extra, prop)
    if a[0] == "replay":
        r = json.load(open(a[1]))
        return run(["-prop", r["property"], "-tier", r["tier"], "-seed", str(r["seed"]), "-only", str(r["case"]), "-show"], r["property"])
    print(__doc__); return 2

if __name__ == "__main__":
    sys.exit(main())
