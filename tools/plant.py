#!/usr/bin/env python3
"""plant.py FILE.py...: builds seeded/<id>/ from a bug description.

A description sets ID, PROPERTY, NEEDS, BREAKS, PKG (directory of the package the
demonstration joins), EDITS [(file, old, new)] and DEMO (source of a Go test
named TestDemo), and RACE to run it with the race detector. The bug is kept only if it builds, passes the repository's
stable tests, and the demonstration fails with it and passes without it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case; non-zero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace": {"%s/@PKG@@FILE@": "%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
exec_test() { timeout 250 go test@RACE@ -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo$' "./@PKG@" ; }
exec_test
'''
def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

def run(desc):
    g = {}
    exec(open(desc).read(), g)
    out = os.path.join(V, "seeded", g["ID"])
    w = tempfile.mkdtemp(prefix="plant")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        d = os.path.join(w, "demo")
        os.mkdir(d)
        pkg = g["PKG"].strip("./")
        pkg = pkg + "/" if pkg else ""
        name = "main_test.go" if pkg == "" else "zz_demo_test.go"
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("@PKG@", pkg).replace("@FILE@", name).replace("@RACE@", " -race" if g.get("RACE") else ""))
        open(os.path.join(d, "demo_test.go.txt"), "w").write(g["DEMO"])
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode != 0:
            return g["ID"], "demo fails on the unchanged tree\n" + r.stdout[-3000:]
        for f, old, new in g["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return g["ID"], f"{f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        r = sh(["go", "build", "./..."], repo)
        if r.returncode:
            return g["ID"], "does not build\n" + r.stdout[-2000:]
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
        open(os.path.join(w, "test.sh"), "w").write(t)
        sh(["bash", os.path.join(w, "test.sh"), os.path.join(w, "o.json")], repo)
        res = json.load(open(os.path.join(w, "o.json")))
        passed = set(res.get("passed", []))
        missing = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
        if missing:
            return g["ID"], "stable tests fail: %s" % missing[:5]
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode == 0:
            return g["ID"], "demo passes with the bug"
        diff = sh(["git", "diff"], repo).stdout
        new = [l[1:] for l in sh(["git", "diff", "c0a7583", "HEAD"], "/repo").stdout.splitlines() if l.startswith("+") and len(l.strip()) > 4]
        mine = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] in new]
        if mine:
            return g["ID"], "changes lines of our own commits: %s" % mine
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        c = ""
        if "AZ" in os.environ:
            r = sh([os.environ["AZ"], "-property", g["PROPERTY"], "-repo", repo, "-verif", V], V)
            c = " | check: exit %d %s" % (r.returncode, "".join(l[:200] + " / " for l in r.stdout.splitlines()[-4:]))
        return g["ID"], "kept" + c
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(run, sys.argv[1:]):
            print(i, ":", m, flush=True)
