#!/usr/bin/env python3
"""C++ mutations decided by the kernel tasks only: kmut.py disco|attention file 'old' 'new' [k]"""
import os, shutil, subprocess, sys, tempfile
ns, f, old, new = sys.argv[1:5]
k = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/torch_harmonics", d + "/torch_harmonics", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    p = os.path.join(d, "torch_harmonics", ns, "optimized", f)
    s = open(p).read()
    parts = s.split(old)
    assert len(parts) > k + 1, "text not found"
    open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
    code = "import sys; sys.path.insert(0,'/verif')\nfrom checks import kern\nfrom sa import report\nr=report.run_tasks(kern.%s_tasks())\nfrom collections import Counter\nprint(Counter(o['status'] for o in r))\nfor o in r:\n  if o['status'] in ('violation','undecided'): print(o['status'],o['rule'],o['subject'][:60],str(o['detail'])[:160]); break" % ns
    r = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    print(old[:50], "->", new[:50], "|", r.stdout.strip()[:500] or r.stderr[-300:])
finally:
    shutil.rmtree(d)
