"""Reports: obligations, violations, evidence files, known findings, parallel task runner."""
import json
import multiprocessing
import multiprocessing.connection as mpc
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Obl(list):
    """obligations produced by one task"""

    def ok(self, rule, subject, detail=""):
        self.append({"rule": rule, "subject": subject, "status": "ok", "detail": detail})

    def bad(self, rule, subject, where, msg):
        self.append({"rule": rule, "subject": subject, "status": "violation", "where": where, "detail": msg})

    def und(self, rule, subject, why, where=""):
        self.append({"rule": rule, "subject": subject, "status": "undecided", "where": where, "detail": why})

    def note(self, key, value):
        self.append({"rule": "_note", "subject": key, "status": "note", "detail": value})


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def _run(job):
    fn, args, limit = job
    o = Obl()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = fn(*args)
        if r is not None:
            o.extend(r)
    except Timeout:
        o.und("analysis", "%s%r" % (fn.__name__, tuple(str(a)[:60] for a in args)), "time limit of %d s" % limit)
    except MemoryError:
        o = Obl()
        o.und("analysis", "%s%r" % (fn.__name__, tuple(str(a)[:60] for a in args)), "memory limit")
    except RecursionError:
        o.und("analysis", "%s%r" % (fn.__name__, tuple(str(a)[:60] for a in args)), "recursion limit")
    except Exception as e:       # the analyser does not understand this shape of code: no verdict
        o.und("analysis", "%s%r" % (fn.__name__, tuple(str(a)[:60] for a in args)), "analyser: %s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    o.note("_time", round(time.time() - t0, 1))
    return list(o)


def _child(conn, job):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        r = _run(job)
    except MemoryError:
        r = None
    try:
        conn.send(r)
    except MemoryError:
        conn.send(None)
    conn.close()
    os._exit(0)


MEM = 3400 * 1024 * 1024


def run_tasks(tasks, limit=300, procs=8):
    """tasks: list of (function, args); one process per task, `procs` at a time; results in task order"""
    from . import scen
    scen.repo()
    jobs = [(f, a, limit) for f, a in tasks]
    if os.environ.get("SA_SERIAL"):
        return [o for j in jobs for o in _run(j)]
    ctx = multiprocessing.get_context("fork")
    res, running, nxt = {}, {}, 0
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < procs:
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=_child, args=(b, jobs[nxt]))
            pr.start()
            b.close()
            running[a] = (nxt, pr)
            nxt += 1
        for c in mpc.wait(list(running), 5):
            i, pr = running.pop(c)
            try:
                res[i] = c.recv()
            except (EOFError, OSError):
                res[i] = None
            c.close()
            pr.join()
            if res[i] is None:
                f, args, _ = jobs[i]
                o = Obl()
                o.und("analysis", "%s%r" % (f.__name__, tuple(str(x)[:60] for x in args)), "memory limit")
                res[i] = list(o)
    if os.environ.get("SA_TIMES"):
        for i in range(len(jobs)):
            tt = [o["detail"] for o in res[i] if o["subject"] == "_time"]
            print(tt, jobs[i][0].__name__, [str(x)[:50] for x in jobs[i][1]])
    return [o for i in range(len(jobs)) for o in res[i] if o["subject"] != "_time"]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def finish(pid, tier, obls, meta, t0):
    """write evidence, print verdict, return exit code"""
    notes = {}
    for o in obls:
        if o["status"] == "note":
            notes.setdefault(o["subject"], [])
            v = o["detail"]
            notes[o["subject"]] += v if isinstance(v, list) else [v]
    obls = [o for o in obls if o["status"] != "note"]
    known = [k for k in known_findings().get("known", []) if k["property"] == pid]
    viol, listed = [], {}
    seen = set()
    for o in obls:
        if o["status"] != "violation":
            continue
        hit = next((k for k in known if k["rule"] == o["rule"] and k["subject"] == o["subject"] and (not k.get("contains") or k["contains"] in o["detail"])), None)
        if hit is not None:
            listed[hit["what"]] = o
            continue
        key = (o["rule"], o["subject"], o.get("where", ""))
        if key in seen:
            continue
        seen.add(key)
        viol.append(o)
    rules = {}
    for o in obls:
        r = rules.setdefault(o["rule"], {"discharged": 0, "violated": 0, "undecided": 0})
        r[{"ok": "discharged", "violation": "violated", "undecided": "undecided"}[o["status"]]] += 1
    und = [o for o in obls if o["status"] == "undecided"]
    cov = {
        "explanation": meta["explanation"],
        "obligations": len(obls),
        "discharged": sum(1 for o in obls if o["status"] == "ok"),
        "undecided": len(und),
        "violated": len(viol),
        "rules": rules,
        "subjects": sorted({o["subject"] for o in obls if o["status"] == "ok"})[:400],
        "undecided_list": [{"rule": o["rule"], "subject": o["subject"], "why": str(o["detail"])[:200], "where": str(o.get("where", ""))[-400:]} for o in und[:60]],
    }
    for k, v in notes.items():
        vv = sorted(set(map(str, v)))
        cov[k] = vv[:400]
        cov[k + "_count"] = len(vv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "other"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": meta.get("assumptions", []),
          "violations": [{"rule": o["rule"], "subject": o["subject"], "where": o.get("where", ""), "detail": str(o["detail"])[:1000]} for o in viol]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for what in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (pid, len(obls), cov["discharged"], len(und), len(viol), time.time() - t0))
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for o in viol:
                f.write("rule: %s\nsubject: %s\nwhere: %s\n%s\n\n" % (o["rule"], o["subject"], o.get("where", ""), o["detail"]))
        for o in viol[:12]:
            print("  [%s] %s\n    at %s\n    %s" % (o["rule"], o["subject"], o.get("where", ""), str(o["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
