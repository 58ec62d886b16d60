#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /verif/properties.jsonl for /repo's working tree:
model-checks the specification, drives the real library with programs that
exercise the property, and has TLC decide whether every recorded trace is a
behaviour of the specification.  See DESIGN.md."""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import run, suites, design, borrow  # noqa: E402

ROOT = run.ROOT
LOGICAL = {"C06", "C07", "C08", "C10", "C11", "C12", "C16", "C17", "C18"}   # traces are also checked against Logical.tla


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + "-", dir=os.path.join(ROOT, "work"))
    try:
        rc = check(a.prop, a.tier, a.seed, work, t0)
    except run.CheckError as e:
        print("ERROR", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def locate(traces, line):
    """(session index, position in it) of a line of the concatenated trace"""
    n = 0
    for i, t in enumerate(traces):
        if n < line <= n + len(t): return i, line - n - 1
        n += len(t)
    return None, None


def replay_file(prop, profile, sess, pos, verdict, trace):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    json.dump({"property": prop, "profile": profile, "session": sess, "position": pos, "message": verdict.message[:6000],
               "trace": [json.loads(l) for l in (trace or [])][: (pos or 0) + 1]}, open(p, "w"), indent=1)
    return p


def evidence(prop, tier, seed, coverage, t0, found, assumptions):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 1), "violations": 1 if found else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)


def check_compiler(prop, tier, seed, work, t0):
    """properties of what the compiler accepts"""
    run.copy_spec(work)
    d = design.Design()
    progs, traces, bad = borrow.check(prop, tier, seed, work, d)
    t1 = time.time()
    states = transitions = 0
    v = None
    for g in range(0, len(traces), 60000):
        m = "BTrace" if prop == "C20" else "TTrace"
        v = run.validate(traces[g:g + 60000], work, "compiled%d" % g, cfg=m + ".cfg", module=m)
        states, transitions = states + v.states, transitions + v.transitions
        if not v.ok: break
    found = not v.ok
    ops = {}
    for t in traces:
        o = json.loads(t[-1])
        k = "%s %s" % (o["op"], "accepted" if o["ok"] else "rejected")
        ops[k] = ops.get(k, 0) + 1
    pick = [i * (len(progs) - 1) // 4 for i in range(5)]
    evidence(prop, tier, seed, {
        "states": states + d.states, "transitions": transitions + d.transitions, "traces_validated_against_impl": len(traces),
        "design_states": d.states, "design_models": d.models, "programs": len(progs), "programs_rejected_by_the_compiler": len(bad),
        "last_calls": ops, "samples": [" ".join(progs[i][2])[:700] + ("  // rejected: " + bad[i][0] if i in bad else "  // accepted") for i in pick],
    }, t0, found, ["TLC and the JSON reader are correct", "rustc implements Rust's type and borrow rules",
                   "bounds: all programs of up to 3 (thorough: 4) building calls, sampled to 7" if prop == "C20" else "bounds: operands of the layouts, sizes and scalar types in MCTyping.tla"])
    print("%s %s: %d programs, %d rejected by the compiler, %d states; total %.0f s" % (prop, tier, len(progs), len(bad), states + d.states, time.time() - t0))
    if not found: return 0
    i, pos = locate(traces, v.line)
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, "%s.json" % prop)
    json.dump({"property": prop, "program": progs[i][2], "parameters": progs[i][1], "compiler": bad.get(i, ("", "accepted"))[1], "message": v.message[:6000],
               "trace": [json.loads(l) for l in traces[i]]}, open(rp, "w"), indent=1)
    print(v.message[:1500])
    print("\n".join(progs[i][2]))
    print(bad.get(i, ("", "accepted by the compiler"))[1][:2000])
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


def check(prop, tier, seed, work, t0):
    if prop in ("C20", "C21"): return check_compiler(prop, tier, seed, work, t0)
    thorough = tier == "thorough"
    profiles = ["dev", "release", "nochk"] if thorough else ["dev", "nochk"]
    run.copy_spec(work)
    with run.cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run.build, profiles)
        fd = ex.submit(design.check, prop, tier, seed, work)
        exes, d = fb.result(), fd.result()
    t1 = time.time()
    ss = [s.json() for s in suites.sessions(prop, tier, seed)] + d.sessions
    ids = [s["id"] for s in ss]
    assert len(set(ids)) == len(ids), "session ids"
    nops = sum(len(s["ops"]) for s in ss)
    states = transitions = validated = concurrent = 0
    per = 150000 if thorough else 10**9
    groups, cur, n = [], [], 0
    for s in ss:
        cur.append(s)
        n += len(s["ops"])
        if n > per: groups.append(cur); cur, n = [], 0
    if cur: groups.append(cur)
    found = None
    opcount = {}
    for g, part in enumerate(groups):
        seen = []
        for p in profiles:
            tr = run.run_all(exes[p], part, work, p)
            if tr not in seen:                                # else the very same trace
                seen.append(tr)
                for t in tr if p == "dev" else []:
                    for l in t:
                        o = json.loads(l[:l.index(",")] + "}")["op"] if l.startswith('{"op"') and "," in l else json.loads(l)["op"]
                        opcount[o] = opcount.get(o, 0) + 1
                v = run.validate(tr, work, "%s-%d" % (p, g), cfg="HLogical.cfg" if prop in LOGICAL else "HTrace.cfg")
                states += v.states
                transitions += v.transitions
                if not v.ok:
                    i, pos = locate(tr, v.line) if v.line else (None, None)
                    sid = json.loads(tr[i][0])["id"] if i is not None else None
                    found = (p, next((x for x in part if x["id"] == sid), None), pos, v, tr[i] if i is not None else None)
                    break
            validated += len(tr)
            if p != profiles[-1]: continue
            # the same sessions at the same time in several threads; traces that
            # differ from those just validated are validated in turn
            some, n = [], 0
            for s in sorted(part, key=lambda s: (s.get("lg", True), run.hashlib.md5(s["id"].encode()).hexdigest())):
                if n < (20000 if thorough else 8000): some.append(s); n += len(s["ops"])
            concurrent += run.THREADS * len(some)
            other = run.concurrently(exes[p], some, tr, work, "conc")[:50]
            if not other: continue
            v = run.validate(other, work, "conc", cfg="HLogical.cfg" if prop in LOGICAL else "HTrace.cfg")
            if not v.ok:
                i, pos = locate(other, v.line) if v.line else (None, None)
                sid = json.loads(other[i][0])["id"] if i is not None else None
                found = (p + ", %d threads" % run.THREADS, next((x for x in part if x["id"] == sid), None), pos, v, other[i] if i is not None else None)
                break
        if found: break
    known = [] if found else design.observe_known(prop, exes["dev"], work)
    evidence(prop, tier, seed, {
            "states": states + d.states, "transitions": transitions + d.transitions,
            "traces_validated_against_impl": validated,
            "design_states": d.states, "design_models": d.models,
            "sessions": len(ss), "calls": nops, "profiles": profiles, "calls_by_operation": opcount,
            "spec_generated_sessions": len(d.sessions), "sessions_in_concurrent_threads": concurrent,
            "samples": [ss[i * (len(ss) - 1) // 2]["id"] + ": " + json.dumps(ss[i * (len(ss) - 1) // 2].get("ops", [])[:6])[:700] for i in range(3)],
    }, t0, found, ["TLC and the JSON reader are correct", "the driver reports arguments and results faithfully (corrupted traces are rejected: selftest.py)",
                   "bounds: see DESIGN.md for dimensions, values and program lengths"])
    for k in known: print(k)
    print("%s %s: %d sessions, %d calls, %d states; built and model-checked in %.0f s, total %.0f s" % (prop, tier, len(ss), nops, states + d.states, t1 - t0, time.time() - t0))
    if found:
        p, s, pos, v, tr = found
        rp = replay_file(prop, p, s, pos, v, tr)
        print("profile", p, "session", s and s["id"], "call", pos, (tr[pos][:600] if tr and pos is not None and pos < len(tr) else ""))
        print(v.message[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    main()
