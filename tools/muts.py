#!/usr/bin/env python3
"""muts.py LIST.py [name...]: runs checks on scratch copies of /repo/src, one per entry (name, props, [(file, old, new), ...]) of LIST."""
import os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
for name, props, edits in ns["MUTS"]:
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/src", d + "/src")
        ok = True
        for f, old, new in edits:
            p = os.path.join(d, "src", f)
            s = open(p).read()
            if s.count(old) < 1:
                print(name, "PATTERN NOT FOUND", f, repr(old[:60]), flush=True)
                ok = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if not ok:
            continue
        for pr in props.split():
            r = subprocess.run(["python3", "/verif/check.py", pr], env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/mutbuild"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = [l for l in r.stdout.decode(errors="replace").strip().splitlines() if l.strip()]
            print(name, pr, "rc", r.returncode, "|", [l[:170] for l in out][:2], "|", out[-1][:100], flush=True)
    finally:
        shutil.rmtree(d)
