#!/usr/bin/env python3
"""try textual mutations on a scratch copy: mut.py PROP file 'old' 'new' [count-index]; prints the check's verdict"""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
k = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/torch_harmonics", d + "/torch_harmonics", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    p = os.path.join(d, f)
    s = open(p).read()
    parts = s.split(old)
    assert len(parts) > k + 1, "text not found"
    s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    open(p, "w").write(s)
    r = subprocess.run([sys.executable, "/verif/check.py", prop, "quick"], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    lines = r.stdout.splitlines()
    print("exit", r.returncode, "|", lines[0] if lines else r.stderr[-300:])
    for l in lines[1:4]:
        print("   ", l[:260])
finally:
    shutil.rmtree(d)
