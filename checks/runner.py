"""Runs the analysis tasks of a check in parallel processes and reports."""
import importlib
import json
import multiprocessing
import os
import re
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Report:
    """what one task found and what it looked at (picklable)"""

    def __init__(self, task):
        self.task = task
        self.findings = []      # (rule, construct, text)
        self.count = {}         # name -> int
        self.sets = {}          # name -> set of str
        self.notes = []
        self.error = None
        self.wall = 0.0

    def find(self, rule, construct, text):
        x = (rule, str(construct), text)
        if x not in self.findings:
            self.findings.append(x)

    def add(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def seen(self, name, item):
        self.sets.setdefault(name, set()).add(str(item))

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)


def thread_main(fn, rep, repo):
    t = time.time()
    try:
        fn(rep, repo)
    except Exception as e:      # the analysis itself is broken: error exit
        rep.error = "".join(traceback.format_exception_only(type(e), e)).strip() + "\n" + \
            "".join(traceback.format_exc().splitlines(True)[-6:])
    rep.wall = round(time.time() - t, 2)


def child(fn, name, repo, conn):
    rep = Report(name)
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    t = threading.Thread(target=thread_main, args=(fn, rep, repo))
    t.start()
    t.join()
    conn.send(rep)
    conn.close()


def run_tasks(tasks, repo, limit=8, timeout=840):
    ctx = multiprocessing.get_context("fork")
    todo = list(tasks)
    running = []
    done = []
    end = time.time() + timeout
    while todo or running:
        while todo and len(running) < limit:
            name, fn = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(fn, name, repo, b))
            p.start()
            b.close()
            running.append((name, p, a))
        for r in list(running):
            name, p, a = r
            if a.poll(0.05):
                try:
                    rep = a.recv()
                except EOFError:
                    rep = Report(name)
                    rep.error = f"analysis process ended with {p.exitcode}"
                p.join()
                done.append(rep)
                running.remove(r)
            elif not p.is_alive() and not a.poll(0):
                rep = Report(name)
                rep.error = f"analysis process ended with {p.exitcode}"
                done.append(rep)
                running.remove(r)
        if time.time() > end:
            for name, p, a in running:
                p.kill()
                rep = Report(name)
                rep.error = "time limit"
                done.append(rep)
            for name, fn in todo:
                rep = Report(name)
                rep.error = "time limit"
                done.append(rep)
            break
    order = {n: i for i, (n, _) in enumerate(tasks)}
    done.sort(key=lambda r: order[r.task])
    return done


def known_findings(pid):
    """lines: KNOWN property=<id> rule=<rule> construct=<construct> :: <text>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"KNOWN property=(\S+) rule=(\S+) construct=(\S+) :: (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def main(argv):
    pid = argv[0]
    tier = "thorough" if "thorough" in argv[1:] else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    tasks = mod.tasks(tier) if callable(mod.tasks) else mod.tasks
    reps = run_tasks(tasks, REPO)
    errors = [(r.task, r.error) for r in reps if r.error]
    findings = {}
    for r in reps:
        for rule, construct, text in r.findings:
            findings.setdefault((rule, construct), []).append((r.task, text))
    fin = getattr(mod, "finish", None)
    if fin and not errors:
        for rule, construct, text in fin(reps):
            findings.setdefault((rule, construct), []).append(("all", text))
    count, sets, notes = {}, {}, []
    for r in reps:
        for k, v in r.count.items():
            count[k] = count.get(k, 0) + v
        for k, v in r.sets.items():
            sets.setdefault(k, set()).update(v)
        for n in r.notes:
            if n not in notes:
                notes.append(n)
    known = known_findings(pid)
    listed = {(a, b): t for a, b, t in known}
    viol = {k: v for k, v in findings.items() if k not in listed}
    hits = {k: v for k, v in findings.items() if k in listed}
    # minimum instance counts: a rule which matches nothing is broken, not satisfied
    broken = []
    if not viol and not errors:
        for name, least in getattr(mod, "MINIMUM", {}).items():
            have = count.get(name, len(sets.get(name, ())))
            if have < least:
                broken.append(f"{name}: {have} instances, at least {least} expected")
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, f"{pid}.violation.txt")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": mod.RULE,
            "tasks": [{"task": r.task, "wall_s": r.wall, "error": r.error, "counts": r.count,
                       "findings": len(r.findings)} for r in reps],
            "counts": count,
            "sets": {k: sorted(v)[:200] for k, v in sets.items()},
            "notes": notes[:100],
            "violations": [{"rule": a, "construct": b, "where": v} for (a, b), v in viol.items()][:50],
            "known_findings": [f"{a} {b}" for a, b in hits],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    for k in hits:
        print(f"KNOWN-FINDING: property={pid} {listed[k]}")
    if viol:
        with open(replay, "w", encoding="utf-8") as f:
            for (rule, construct), v in viol.items():
                f.write(f"property {pid}, rule {rule}, construct {construct}\n")
                for task, text in v:
                    f.write(f"  [{task}] {text}\n")
        for (rule, construct), v in list(viol.items())[:20]:
            print(f"{pid} {rule}: {construct}: {v[0][1][:600]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    if errors or broken:
        for task, e in errors:
            print(f"{pid}: analysis of {task} failed: {e}", file=sys.stderr)
        for b in broken:
            print(f"{pid}: analysis is broken: {b}", file=sys.stderr)
        return 2
    print(f"{pid}: ok, {sum(r.wall for r in reps):.0f} s of analysis, " + ", ".join(f"{k} {v}" for k, v in sorted(count.items())))
    return 0
