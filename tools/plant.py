#!/usr/bin/env python3
"""Authoring and trying out planted bugs (never part of a check).

  plant.py try NAME [CHECK...]   demo on clean tree, apply, tests, demo, checks, undo
  mkbug(...)                     from a script: writes /verif/seeded/NAME
"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# A scratch copy of /repo, and test.sh beside it that builds and tests the copy.
BASE = os.environ.get("PLANT_BASE", "/tmp/plant")
REPO = BASE + "/repo"


def scratch():
    if not os.path.isdir(REPO):
        os.makedirs(BASE)
        sh("cp -a /repo %s && rm -rf %s/_build" % (REPO, REPO))
        for f in ("build.sh", "test.sh", "run_gtests.py"):
            t = open("/opt/vp/" + f).read().replace("/repo", REPO)
            for q in ("build.sh", "run_gtests.py"):
                t = t.replace("/opt/vp/" + q, BASE + "/" + q)
            open(BASE + "/" + f, "w").write(t)
        sh("bash %s/test.sh %s/clean.json" % (BASE, BASE), cwd=BASE)
    sh("git -C %s checkout -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (REPO, REPO, REPO))

DEMO = """#!/bin/bash
# Run in /repo: builds the small program beside this file from the sources.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%s -std=c++17 -w -g -O0 %s -I. -Iwebm_parser/include -Iwebm_parser -o "$T/demo" "$D/demo.cc" %s || exit 2
cd "$T" && timeout 120 "$T/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def mkbug(name, prop, needs, breaks, edits, demo, srcs="mkvmuxer/*.cc mkvparser/*.cc",
          flags="", cxx="g++"):
    d = os.path.join(ROOT, "seeded", name)
    os.makedirs(d, exist_ok=True)
    scratch()
    assert not sh("git -C %s status --short" % REPO).stdout.strip()
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
    sh("git -C %s checkout -- ." % REPO)
    assert diff
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    # "cd" happens after the build, so name the sources from /repo.
    open(d + "/demo.sh", "w").write(DEMO % (cxx, flags, srcs))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1)


def try_bug(name, checks):
    d = os.path.join(ROOT, "seeded", name)
    meta = json.load(open(d + "/meta.json"))
    checks = checks or [meta["property"]]
    scratch()
    assert not sh("git -C %s status --short" % REPO).stdout.strip()
    r = sh("bash %s/demo.sh" % d, cwd=REPO)
    print(name, "demo clean:", r.returncode, "" if r.returncode == 0 else r.stdout[-500:])
    res = []
    try:
        r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
        assert r.returncode == 0, r.stdout
        r = sh("bash %s/test.sh %s/out.json" % (BASE, BASE), cwd=BASE)
        out = json.load(open(BASE + "/out.json"))
        print(name, "tests passed/failed:", out["passed"] if isinstance(out["passed"], int) else len(out["passed"]),
              out["failed"] if isinstance(out["failed"], int) else len(out["failed"]))
        r = sh("bash %s/demo.sh" % d, cwd=REPO)
        print(name, "demo patched:", r.returncode, r.stdout[-200:].strip())
        for c in checks:
            t = time.time()
            r = sh("VERIF_BUILD=%s/build VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % (BASE, REPO, c), cwd=ROOT)
            print(name, c, "exit", r.returncode, "%.0fs" % (time.time() - t),
                  r.stdout.strip().splitlines()[-2:] if r.stdout else "")
    finally:
        sh("git -C %s checkout -- ." % REPO)


if __name__ == "__main__":
    if sys.argv[1] == "try":
        try_bug(sys.argv[2], sys.argv[3:])
