#!/usr/bin/env python3
"""C++ mutations decided by the safety tasks: smut.py disco|attention file track filter 'old' 'new' ['old' 'new' ...]"""
import os, shutil, subprocess, sys, tempfile
ns, f, track, filt = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/torch_harmonics", d + "/torch_harmonics", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    p = os.path.join(d, "torch_harmonics", ns, "optimized", f)
    s = open(p).read()
    for old, new in zip(sys.argv[5::2], sys.argv[6::2]):
        assert old in s, "text not found: " + old
        s = s.replace(old, new, 1)
    open(p, "w").write(s)
    code = "import sys; sys.path.insert(0,'/verif')\nfrom checks import kern\nfrom sa import report\nts=[(a,b) for a,b in kern.safety_tasks() if b[0]=='%s' and (%s)]\nr=report.run_tasks(ts)\nfrom collections import Counter\nprint(len(ts),Counter(o['status'] for o in r))\nfor o in [o for o in r if o['status'] in ('violation','undecided')][:3]: print(o['status'],o['rule'],o['subject'][:110],str(o['detail'])[:160])" % (track, filt)
    r = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    print(sys.argv[6][:50], "|", r.stdout.strip()[:900] or r.stderr[-600:])
finally:
    shutil.rmtree(d)
