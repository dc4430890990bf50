#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/<id>.py and confirms it in a scratch copy of /repo.

tools/seeds/<id>.py defines: property, needs, what, edits = [(file, old, new), ...], demo (C++ source text) or
demo_sh (shell text). usage: mkseed.py [--no-confirm] [--check] ID...
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

DEMO_SH = r'''#!/bin/bash
# builds demo.cpp against the objects build.sh left in _build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
INC="-I$R/src"
for d in avcodec avformat cache install io io/url log module module/root module/host module/http module/rtmp \
  module/server module/srt module/stream module/upstream sys sys/st sys/st/io util; do INC="$INC -I$R/src/$d"; done
g++ -std=c++14 -w -g $INC -isystem /opt/vp/compat "$here/demo.cpp" \
  $(find "$R/_build/CMakeFiles/vp_objs.dir" -name '*.o') -o "$T/demo" \
  -lst -lhttp_parser -lrtmp -lsrt -lssl -lcrypto -lavformat -lavcodec -lavdevice -lavfilter -lavutil -lswresample \
  -lswscale -lz -lpthread -ldl || exit 3
cd "$T" && timeout 120 ./demo
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(sid):
    g = {}
    exec(open(os.path.join(V, "tools/seeds", sid + ".py")).read(), g)
    wt = tempfile.mkdtemp(prefix="seed_")
    try:
        run(["git", "-C", R, "worktree", "add", "--detach", wt, "HEAD"])
        for f, old, new in g["edits"]:
            p = os.path.join(wt, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                raise SystemExit(f"{sid}: {s.count(old)} matches in {f} for {old!r}")
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"]).decode()
        # is every removed line original?
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                f = None
        orig = ""
        for f, _, _ in g["edits"]:
            orig += subprocess.check_output(["git", "-C", R, "show", "be5f7d6:" + f]).decode()
        bad = [l for l in diff.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:] not in orig.split("\n")]
        if bad:
            print(sid, "WARNING changes lines of my own commits:", bad)
    finally:
        run(["git", "-C", R, "worktree", "remove", "--force", wt])
        shutil.rmtree(wt, ignore_errors=True)
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(g.get("demo_sh", DEMO_SH))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "demo" in g:
        open(os.path.join(d, "demo.cpp"), "w").write(g["demo"].lstrip("\n"))
    for n, t in g.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return g["property"]


def confirm(sid, prop, check):
    d = os.path.join(V, "seeded", sid)
    out = []
    r = run(["bash", "/opt/vp/build.sh"])
    a = run(["bash", d + "/demo.sh"], cwd=R)
    run(["git", "-C", R, "apply", d + "/patch.diff"])
    try:
        b = run(["bash", "/opt/vp/build.sh"])
        c = run(["bash", d + "/demo.sh"], cwd=R)
        run(["bash", "/opt/vp/test.sh", "/tmp/seedout.json"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("stable_passing") or base.get("passed") or []
        t = json.load(open("/tmp/seedout.json"))
        failed = [x for x in stable if x not in t["passed"]]
        print(sid, prop, "base demo", a.returncode, "| build", b.returncode, "| bug demo", c.returncode, "| stable failed", failed,
              "OK" if (a.returncode == 0 and b.returncode == 0 and c.returncode not in (0, 3) and not failed) else "BAD", flush=True)
        if a.returncode:
            print(a.stdout[-1500:])
        if b.returncode:
            print(b.stdout[-1500:])
        if check:
            k = run(["python3", V + "/run.py", prop, "quick"])
            print("   check", prop, "exit", k.returncode, [l for l in k.stdout.splitlines() if "VIOLATION" in l], flush=True)
            if k.returncode != 1:
                print(k.stdout[-800:])
    finally:
        run(["git", "-C", R, "checkout", "--", "."])
    run(["bash", "/opt/vp/build.sh"])


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    for sid in a:
        p = make(sid)
        if "--no-confirm" not in sys.argv:
            confirm(sid, p, "--check" in sys.argv)
