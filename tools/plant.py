#!/usr/bin/env python3
"""plant.py ID...        : (re)creates seeded/ID from tools/seeds/ID.py and confirms it against /repo
   plant.py --check ID.. : additionally runs the check of its property against the planted bug
A seed file defines: PROP, EDITS = [(file relative to /repo, old, new)], DEMO (C++ source), NEEDS, BREAKS,
and optionally FLAGS (g++ flags), DEFS (lines of generated_definitions.hpp), TIMEOUT, DEMO_SH (whole script)."""
import json, os, shutil, subprocess, sys, tempfile, time
V = "/verif"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
SH = r'''#!/bin/bash
# Run in the repository's directory after its build: exit 0 when the property holds, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/g3demo.XXXXXX) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/inc/g3log" "$d/%(rundir)s"
printf '%%s\n' '#pragma once' %(defs)s > "$d/inc/g3log/generated_definitions.hpp"
g++ -std=c++17 -O1 -g -w -pthread %(flags)s -I"$d/inc" -I"$repo/src" "$here/demo.cpp" \
    $(ls "$repo"/src/*.cpp | grep -v windows) -o "$d/%(rundir)s/demo" -ldl || exit 2
cd "$d/%(rundir)s" || exit 2
timeout -k 5 %(timeout)d "$d/%(rundir)s/demo" > "$d/out" 2> "$d/err"
rc=$?
tail -n 5 "$d/out"
exit $rc
'''
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def run_demo(dst):
    # from another directory, with only the files that count
    t = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    for f in os.listdir(dst):
        if f not in ("patch.diff", "meta.json"): shutil.copy(os.path.join(dst, f), t)
    t0 = time.time()
    r = sh(["bash", os.path.join(t, "demo.sh")], cwd="/repo", timeout=300)
    shutil.rmtree(t)
    return r.returncode, time.time() - t0, r.stdout.decode(errors="replace")[-400:]
def clean():
    sh(["git", "-C", "/repo", "checkout", "--", "."])
check = "--check" in sys.argv
for sid in [a for a in sys.argv[1:] if not a.startswith("--")]:
    ns = {}
    exec(open(f"{V}/tools/seeds/{sid}.py").read(), ns)
    dst = f"{V}/seeded/{sid}"
    os.makedirs(dst, exist_ok=True)
    assert not sh(["git", "-C", "/repo", "status", "--porcelain", "--untracked-files=no"]).stdout.strip(), "dirty /repo"
    try:
        for f, old, new in ns["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", "/repo", "diff"]).stdout
        open(dst + "/patch.diff", "wb").write(diff)
        if "DEMO" in ns: open(dst + "/demo.cpp", "w").write(ns["DEMO"].lstrip())
        defs = ns.get("DEFS", ["#define G3LOG_DEBUG DEBUG"])
        open(dst + "/demo.sh", "w").write(ns.get("DEMO_SH") or SH % dict(rundir=ns.get("RUNDIR", "run"), timeout=ns.get("TIMEOUT", 120),
             flags=ns.get("FLAGS", ""), defs=" ".join("'%s'" % x for x in defs)))
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(dst + "/meta.json", "w"), indent=1)
        b = sh(["bash", "/opt/vp/build.sh"])
        if b.returncode: print(sid, "DOES NOT BUILD", b.stdout.decode()[-1500:]); continue
        dp = run_demo(dst)
        t = sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
        try: j = json.load(open("/tmp/plant.json"))
        except Exception: j = {"passed": [], "failed": ["?"]}
        cr = None
        if check:
            c = sh(["python3", f"{V}/check.py", ns["PROP"]], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            cr = (c.returncode, [l for l in c.stdout.decode(errors="replace").splitlines() if "VIOLATION" in l][:1])
    finally:
        clean()
    sh(["bash", "/opt/vp/build.sh"])
    du = run_demo(dst)
    ok = dp[0] not in (0, 2) and du[0] == 0 and len(j["passed"]) == 216 and not j["failed"]
    print(sid, ns["PROP"], "OK" if ok else "NOT OK", "| patched", dp[0], f"{dp[1]:.0f}s", dp[2].strip()[-150:].replace("\n", " / "), "| clean", du[0], f"{du[1]:.0f}s", du[2].strip()[-100:] if du[0] else "", "| tests", len(j["passed"]), j["failed"][:3], "| check", cr, flush=True)
