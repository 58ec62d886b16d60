"""Is the binding between traces and specification vacuous?  Recorded values are
corrupted one at a time; each corrupted trace has to be rejected by TLC.
  python3 tools/selftest.py [copies per field]
Prints, per kind of line and field, how many corrupted traces were rejected;
exits 1 if a recorded result can be changed without being noticed."""
import json
import os
import random
import re
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from hv import design, run, suites

COPIES = int(sys.argv[1]) if len(sys.argv) > 1 else 3
# fields that say what was asked for, not what was observed (another valid request has another valid answer)
ARGS = {"id", "t", "lg", "lot", "cx", "nz", "p", "e"}


# fields of calls that ask for something (another request may have the same answer), and
# fields only some values of which make a difference (see DESIGN.md)
REQUESTS = set("add.bm all.c all.r all.wr atan2.x.cls atan2.y.cls each.mb fill.mb get.chk get1.chk layout.via matmul.mb new.s1 new.sz "
               "new.via over.via rmac.k rmac.via rscal.own set.chk set.mb set1.mb slicew.mb smul.am "
               "zeros.via smul.side matmul.beta.*.* smul.s.*.*.*".split())


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x): yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x): yield from leaves(y, path + (i,))
    else: yield path, x


def changed(x, path, rng):
    x = json.loads(json.dumps(x))
    y = x
    for k in path[:-1]: y = y[k]
    v = y[path[-1]]
    if isinstance(v, bool): y[path[-1]] = not v
    elif isinstance(v, int): y[path[-1]] = v + rng.choice([1, 2]) if v < 10**9 else 12345
    elif isinstance(v, str): y[path[-1]] = {"ok": "panic", "panic": "ok"}.get(v, v + "x")
    else: return None
    return x


def name(op, path): return op + "." + ".".join("*" if isinstance(k, int) else k for k in path)


def messages(traces, work, tag):
    """numbers of the sessions TLC complains about"""
    path = os.path.join(work, tag + ".ndjson")
    first = []
    n = 0
    with open(path, "w") as f:
        for t in traces:
            first.append(n + 1)
            for l in t: f.write(l + "\n")
            n += len(t)
        f.write('{"op":"end"}\n')
    rc, out = run.java(["-workers", "4", "-noGenerateSpecTE", "-continue", "-deadlock", "-metadir", os.path.join(work, "md"), "-config", "HTrace.cfg", "HTrace.tla"],
                       work, 800, {"HTRACE": path})
    shutil.rmtree(os.path.join(work, "md"), ignore_errors=True)
    lines = {int(x) for x in re.findall(r'"(?:MISMATCH|BADPROGRAM)",\s*"line",\s*(\d+)', out)} | {int(x) - 1 for x in re.findall(r"violated[^\n]*\n(?:.*\n)*?l = (\d+)", out)}
    stop = "Attempted to" in out or "Error: Evaluating" in out or "TLC threw" in out
    import bisect
    return {bisect.bisect_right(first, l) - 1 for l in lines}, stop


def rejected(traces, work):
    """for each trace, is it rejected?"""
    def split(ids):
        got, stop = messages([traces[i] for i in ids], work, "batch")
        bad = {ids[g] for g in got}
        if stop:
            rest = [i for i in ids if i not in bad]
            if len(rest) > 1:
                m = len(rest) // 2
                return bad | split(rest[:m]) | split(rest[m:])
        if len(ids) == 1 and not bad:
            return set() if run.validate([traces[ids[0]]], work, "one").ok else set(ids)
        return bad
    bad = set()
    for g in range(0, len(traces), 400): bad |= split(list(range(g, min(g + 400, len(traces)))))
    for i in range(len(traces)):                   # silent ones: on their own
        if i in bad: continue
        try:
            if not run.validate([traces[i]], work, "one").ok: bad.add(i)
        except run.CheckError: bad.add(i)
    return bad


def main():
    rng = random.Random(1)
    work = tempfile.mkdtemp(prefix="self")
    try:
        run.copy_spec(work)
        exe = run.build(["dev"])["dev"]
        ss = []
        for p in ["C%02d" % i for i in range(1, 20)]:
            some = [s.json() for s in suites.sessions(p, "quick", 1)]
            some = [s for s in some if len(s["ops"]) <= 60 and s.get("lg", True) is not False]
            ss += rng.sample(some, min(len(some), 40))
        tr = run.run_all(exe, ss, work, "base")
        places = {}
        for t, lines in enumerate(tr):
            for i, l in enumerate(lines[1:], 1):
                if len(l) > 20000: continue
                o = json.loads(l)
                for path, v in leaves(o):
                    if path[0] in ARGS or path == ("op",): continue
                    b = places.setdefault(name(o["op"], path), [])
                    if len(b) < 40: b.append((t, i, path))
                    elif rng.random() < .05: b[rng.randrange(40)] = (t, i, path)
        traces, keys = [], []
        for k in sorted(places):
            for t, i, path in rng.sample(places[k], min(COPIES, len(places[k]))):
                x = changed(json.loads(tr[t][i]), path, rng)
                if x is None: continue
                traces.append(tr[t][:i] + [json.dumps(x)] + tr[t][i + 1:])
                keys.append(k)
        bad = rejected(traces, work)
        res = {}
        for i, k in enumerate(keys):
            a = res.setdefault(k, [0, 0, []])
            a[0] += i in bad
            a[1] += 1
            if i not in bad: a[2].append(i)
        for k in sorted(res): print("%-40s %d of %d rejected" % (k, res[k][0], res[k][1]))
        print("%d corrupted traces, %d rejected" % (len(traces), len(bad)))
        json.dump({k: [traces[i] for i in v[2][:2]] for k, v in res.items() if v[2]}, open(os.path.join(ROOT, "evidence", "selftest-accepted.json"), "w"), indent=1)
        idle = sorted(k for k in res if res[k][0] == 0 and k not in REQUESTS)
        if idle: print("never noticed:", " ".join(idle))
        return 1 if idle else 0
    finally: shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
