#!/usr/bin/env python3
"""Planted bugs: seeds.py verify [ID...] confirms them in scratch copies; seeds.py run [--tier T] [ID[=CHECK,..]...]
applies each to /repo in turn, runs the check of its property (or those named) and undoes it.
seeds.py demo DIR writes the usual demo.sh. Never used by a check."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", TZ="UTC",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = """#!/bin/bash
# run in the repository: exit 0 if the property holds for the case of main.go
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=UTC
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/verifdemo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./verifdemo || exit 2
mkdir "$tmp/work"
VERIF_REPO=$PWD VERIF_WORK=$tmp/work timeout 120 "$tmp/demo"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def ids(a):
    return a or sorted(d for d in os.listdir(S) if os.path.exists(os.path.join(S, d, "patch.diff")))


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "pass"):
        if k in b:
            return set(b[k])
    raise SystemExit("BASELINE: %s" % list(b))


def tests(d):
    p = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], d)
    ok = set()
    for l in p.stdout.splitlines():
        try:
            r = json.loads(l)
        except ValueError:
            continue
        if r.get("Action") == "pass" and r.get("Test"):
            ok.add((r["Package"], r["Test"]))
    return ok


def original_lines(patch):
    """every removed line comes from the base commit; pure insertions are fine only next to original lines"""
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], "/repo").stdout.split()[0]
    bad, cur, n, removed = [], None, 0, 0
    blame = {}
    for l in open(patch):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
            o = sh(["git", "blame", "-l", "-s", "--root", "HEAD", "--", cur], "/repo").stdout
            blame[cur] = [x[:40] for x in o.splitlines()]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            removed += 1
            if blame[cur][n - 1] != base:
                bad.append("%s:%d" % (cur, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return removed, bad


def verify(todo):
    # every copy is made at the same place, one after the other
    w = tempfile.mkdtemp(prefix="seedwt-", dir="/tmp")
    fails = 0
    try:
        clean = os.path.join(w, "clean")
        shutil.copytree("/repo", clean, symlinks=True)
        base = None
        for i in todo:
            d = os.path.join(S, i)
            out = []
            meta = json.load(open(os.path.join(d, "meta.json")))
            if not all(meta.get(k) for k in ("property", "needs", "what_it_breaks")):
                out.append("meta.json incomplete")
            rem, bad = original_lines(os.path.join(d, "patch.diff"))
            if bad:
                out.append("changes lines of my own: %s" % bad)
            if not rem:
                out.append("(only adds lines)")
            fl = re.findall(r"^\+\+\+ b/(.*)$", open(os.path.join(d, "patch.diff")).read(), re.M)
            if any(f.endswith("_test.go") for f in fl):
                out.append("touches tests")
            c = os.path.join(w, "x")
            shutil.rmtree(c, ignore_errors=True)
            shutil.copytree("/repo", c, symlinks=True)
            p = sh(["git", "apply", os.path.join(d, "patch.diff")], c)
            if p.returncode:
                out.append("does not apply: " + p.stderr[:200])
            else:
                p = sh(["go", "build", "./..."], c)
                if p.returncode:
                    out.append("does not build: " + p.stderr[:300])
                dd = os.path.join(w, "demo")
                shutil.rmtree(dd, ignore_errors=True)
                shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
                r0 = sh(["bash", os.path.join(dd, "demo.sh")], clean)
                r1 = sh(["bash", os.path.join(dd, "demo.sh")], c)
                if r0.returncode != 0:
                    out.append("demo fails on the unchanged tree: %d %s" % (r0.returncode, (r0.stdout + r0.stderr)[-300:]))
                if r1.returncode in (0, 2):
                    out.append("demo with the change: %d %s" % (r1.returncode, (r1.stdout + r1.stderr)[-300:]))
                if sh(["git", "status", "--porcelain"], clean).stdout:
                    out.append("demo changes the tree")
                t = tests(c)
                if base is None:
                    c2 = os.path.join(w, "y")
                    shutil.copytree("/repo", c2, symlinks=True)
                    base = tests(c2)
                    shutil.rmtree(c2)
                if base - t:
                    out.append("tests fail: %s" % sorted(base - t)[:4])
            sig = [x for x in out if not x.startswith("(")]
            fails += bool(sig)
            print("%-28s %s %s %s" % (i, meta["property"], "BAD" if sig else "ok", "; ".join(out)), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return fails


def run(todo, tier):
    assert not sh(["git", "status", "--porcelain"], "/repo").stdout, "/repo is not clean"
    miss = 0
    for t in todo:
        i, _, ch = t.partition("=")
        meta = json.load(open(os.path.join(S, i, "meta.json")))
        for c in (ch.split(",") if ch else [meta["property"]]):
            p = sh(["git", "apply", os.path.join(S, i, "patch.diff")], "/repo")
            assert p.returncode == 0, p.stderr
            t0 = time.time()
            try:
                p = sh(["python3", "check.py", c, tier], V)
            finally:
                sh(["git", "checkout", "--", "."], "/repo")
            hit = p.returncode == 1 and "VIOLATION property=" + c in p.stdout
            miss += not hit
            ex = [l for l in p.stdout.splitlines() if l.startswith("---")][:1]
            print("%-28s %s %s %.0fs %s" % (i, c, "caught" if hit else "MISSED rc=%d" % p.returncode, time.time() - t0,
                                           (ex[0][:160] if ex else "") if hit else (p.stdout + p.stderr)[-200:]), flush=True)
    return miss


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "verify":
        sys.exit(verify(ids(a[1:])) > 0)
    if a[0] == "demo":
        open(os.path.join(a[1], "demo.sh"), "w").write(DEMO)
    if a[0] == "run":
        tier = "quick"
        if a[1:2] == ["--tier"]:
            tier, a = a[2], a[2:]
        sys.exit(run([x for x in (a[1:] or ids([]))], tier) > 0)
