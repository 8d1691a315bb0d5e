"""Builds /verif/seeded/<id>/ from seeds.py and confirms each planted bug.

usage: mkseed.py [id...]   (no ids: all)
"""
import json, os, shutil, subprocess, sys
from seeds import SEEDS
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
WT = "/tmp/seedwt"

def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def demo(d, tree):
    return run(["bash", os.path.join(d, "demo.sh")], cwd=tree, timeout=300)

def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        if os.path.exists(WT):
            shutil.rmtree(WT)
        run(["cp", "-a", "/repo", WT])
        run(["git", "checkout", "-q", "--", "."], cwd=WT)
        d = os.path.join(OUT, s["id"])
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        # demo files
        for f in ["lib.sh", "go.mod.txt", "go.sum.txt", "random.go.txt"]:
            shutil.copy(os.path.join(HERE, "common", f), d)
        kind = "run_prog" if "main" in s else "run_gen"
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n%s\n' % kind)
        if "main" in s:
            open(os.path.join(d, "main.go.txt"), "w").write(s["main"])
        else:
            open(os.path.join(d, "schema.txt"), "w").write(s["schema"])
            open(os.path.join(d, "check_test.go.txt"), "w").write(s["test"])
        a = demo(d, WT)
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT", f, "matches", t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = run(["git", "diff"], cwd=WT).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            b = demo(d, WT)
            # compile everything + stable tests that cover the touched packages
            pk = run(["bash", "-c", ". %s/common/lib.sh; cd $T/trunnel && go vet ./ast ./gen ./tv ./parse ./inspect ./internal/intervals" % HERE], cwd=WT)
            t = run(["bash", "-c", "cd %s && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly go test -vet=off ./ast ./parse/... ./examples/... ./internal/test 2>&1 | grep -v '^ok\\|no test files'" % WT])
            ok = a.returncode == 0 and b.returncode != 0
            print(s["id"], "unchanged", a.returncode, "patched", b.returncode, "tests:", t.stdout.strip()[:300] or "ok", "" if ok else "BAD\n" + a.stdout[-600:] + a.stderr[-600:] + b.stdout[-600:])
            if not ok: continue
            last = (b.stdout + b.stderr).strip().splitlines()
            print("    ", last[:2])
    if os.path.exists(WT):
        shutil.rmtree(WT)
main()
