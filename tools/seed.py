#!/usr/bin/env python3
"""seed.py ID...: tests planted bugs of /verif/seeded in a scratch copy of /repo
(never in /repo): the patch applies, builds, passes the stable tests, the demo
tells the trees apart, and which checks report it. With -c C01,C02: the checks
to run (default: the property of meta.json)."""
import json, os, subprocess, sys, shutil, re, tempfile
V = "/verif"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", PATH="/usr/local/go/bin:" + os.environ["PATH"])

def sh(cmd, cwd, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, env=dict(env, **kw))

def tests(tree):
    r = sh("go test -json -vet=off -count=1 -timeout 10m ./...", tree)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(re.sub(r"0x[0-9a-f]{8,}", "0xPTR", e["Package"] + "/" + e["Test"]))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - ok)

def demo(d, tree):
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        r = sh(["bash", t + "/x/demo.sh"], tree, 300)
    finally:
        shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr).strip().replace("\n", " | ")[-200:]

def one(id, checks, base, verbose=True):
    d = f"{V}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    tree = tempfile.mkdtemp(prefix="seed")
    out = []
    try:
        shutil.rmtree(tree); shutil.copytree("/repo", tree, symlinks=True)
        sh("git checkout -q -- .", tree)
        c0, t0 = demo(d, tree)
        if c0 != 0: out.append(f"DEMO FAILS ON CLEAN TREE: {t0}")
        r = sh(["git", "apply", d + "/patch.diff"], tree)
        if r.returncode: return f"{id}: does not apply {r.stderr}"
        r = sh("go build ./...", tree)
        if r.returncode: return f"{id}: does not build {r.stderr[:300]}"
        m = tests(tree)
        if m: out.append(f"TESTS CATCH IT: {m[:2]}")
        c1, t1 = demo(d, tree)
        if c1 == 0: out.append("DEMO PASSES")
        else: out.append(f"demo: {t1[:120]}")
        for c in checks or [meta["property"]]:
            r = sh(["./check", c], V, 900, HZ_REPO=tree)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            first = r.stdout.splitlines()[:1]
            for l in v: 
                p = l.split("replay=")[1]
                if os.path.exists(p): os.remove(p)
            if r.returncode == 1 and v: out.append(f"{c} CAUGHT {first[0][:150]}")
            else: out.append(f"{c} missed (exit {r.returncode}) {r.stderr[:200]}")
    finally:
        shutil.rmtree(tree, ignore_errors=True)
    return f"{id}: " + "\n    ".join(out)

if __name__ == "__main__":
    a = sys.argv[1:]
    checks = None
    if a and a[0] == "-c":
        checks = a[1].split(","); a = a[2:]
    for id in a or sorted(os.listdir(V + "/seeded")):
        print(one(id, checks, None), flush=True)
