#!/usr/bin/env python3
"""Development helper: turn a directory of seed descriptions into seeded/<id>/ (patch.diff, demo.sh, meta.json), verifying each one in a scratch copy.
usage: mkseed.py SEEDFILE.py [id ...]   (SEEDFILE defines SEEDS = {id: dict(file=, old=, new=, property=, needs=, breaks=, demo=<python source>)})
Nothing registered in MANIFEST.json uses this file."""
import json, os, subprocess, sys, runpy, shutil

REPO = "/repo"
OUT = "/verif/seeded"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else json.load(open("/opt/vp/BASELINE.json")))

PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_prelude.py")).read()


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or list(seeds)
    notest = "-n" in sys.argv
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    for i in ids:
        s = seeds[i]
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        ok = True
        try:
            for f, old, new in edits:
                p = os.path.join(REPO, f)
                src = open(p).read()
                n = src.count(old)
                if n != s.get("count", 1):
                    print(i, "FAIL: text found %d times in %s" % (n, f)); ok = False; break
                open(p, "w").write(src.replace(old, new))
            if not ok:
                continue
            d = os.path.join(OUT, i)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
            open(os.path.join(d, "demo.py"), "w").write((PRE if s.get("prelude", True) else "") + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport GLOO_SOCKET_IFNAME=lo OMP_NUM_THREADS=2\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            if s.get("build") or any(not f.endswith(".py") for f, _, _ in edits):
                b = sh("bash /opt/vp/build.sh")
                if b.returncode:
                    print(i, "BUILD FAILED", b.stderr[-500:]); continue
            r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
            print(i, "demo with patch: rc", r.returncode, (r.stdout + r.stderr).strip()[-200:].replace("\n", " | "))
            if r.returncode == 0:
                ok = False
            t = None
            if not notest and ok:
                sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd="/repo")
                res = json.load(open("/tmp/seedtest.json"))
                passed = set(res.get("passed", res if isinstance(res, list) else []))
                miss = BASE - passed
                print(i, "tests: %d baseline, %d missing %s" % (len(BASE), len(miss), sorted(miss)[:2]))
        finally:
            clean()
            if s.get("build") or any(not f.endswith(".py") for f, _, _ in edits):
                sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % os.path.join(OUT, i), cwd="/repo", timeout=300)
        print(i, "demo clean: rc", r.returncode, (r.stdout + r.stderr).strip()[-200:].replace("\n", " | ") if r.returncode else "")


main()
