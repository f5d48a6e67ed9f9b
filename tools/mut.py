#!/usr/bin/env python3
"""mut.py FILE 'old' 'new' P01 [P02 ...]: runs checks against a scratch copy of /repo/src with one textual change."""
import os, subprocess, sys, tempfile, shutil, re
f, old, new, *props = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
try:
    shutil.copytree("/repo/src", d + "/src")
    p = os.path.join(d, "src", f)
    s = open(p).read()
    old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
    assert old in s, "pattern not found"
    open(p, "w").write(s.replace(old, new, 1))
    for pr in props:
        r = subprocess.run(["python3", "/verif/check.py", pr] + (["--engine", os.environ["ENGINE"]] if os.environ.get("ENGINE") else []), env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/mutbuild"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors="replace").strip().splitlines()
        print(pr, "rc", r.returncode, "|", [l[:160] for l in out if l.strip()][:2], "|", out[-1][:150])
finally:
    shutil.rmtree(d)
