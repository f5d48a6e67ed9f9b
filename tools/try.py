#!/usr/bin/env python3
"""try.py S01[:P03,P04] ...: runs the check of each planted bug's property (or the named ones) on a scratch copy of /repo/src with it."""
import json, os, shutil, subprocess, sys, tempfile
for a in sys.argv[1:]:
    sid, _, ps = a.partition(":")
    s = f"/verif/seeded/{sid}"
    props = ps.split(",") if ps else [json.load(open(s + "/meta.json"))["property"]]
    d = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src")
        subprocess.check_call(["git", "apply", "--directory=" + d.lstrip("/"), "--unsafe-paths", s + "/patch.diff"], cwd="/")
        for pr in props:
            r = subprocess.run(["python3", "/verif/check.py", pr] + (["--engine", os.environ["ENGINE"]] if os.environ.get("ENGINE") else []), env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/mutbuild"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = [l for l in r.stdout.decode(errors="replace").strip().splitlines() if l.strip()]
            print(sid, pr, "rc", r.returncode, "|", [l[:200] for l in out][:3], "|", out[-1][:120], flush=True)
    finally:
        shutil.rmtree(d)
