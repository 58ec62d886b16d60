"""Model checking of the specification itself, and behaviours taken from it.

Every model is explored exhaustively by TLC up to its depth; the histories
leading to its transitions become programs for the real library."""
import json
import os
import random
import re
import shutil
import subprocess

from . import run

# property -> [(model, depth quick, depth thorough, complex too)]
MODELS = {
    "C03": [("access", 2, 4, 0)],
    "C04": [("access", 2, 4, 1), ("each", 2, 3, 0)],
    "C05": [("view", 2, 3, 0)],
    "C06": [("view", 2, 3, 1)],
    "C07": [("split", 2, 3, 0)],
    "C08": [("lazy", 2, 3, 1)],
    "C09": [("lazy", 2, 3, 0)],
    "C10": [("eval", 2, 3, 0)],
    "C11": [("prod", 1, 2, 1)],
    "C12": [("prod", 1, 2, 0)],
    "C13": [("mem", 1, 3, 0)],
    "C14": [("mem", 2, 3, 0)],
    "C15": [("each", 2, 3, 1)],
    "C16": [("access", 2, 4, 1)],
    "C17": [("all", 2, 3, 0)],
}
# behaviours simulated at random: (model, depth, number quick, number thorough)
SIMS = {"C04": [("access", 8, 40, 400)], "C05": [("view", 6, 60, 400)], "C06": [("view", 8, 60, 600)], "C07": [("split", 10, 60, 600)],
        "C08": [("lazy", 7, 60, 600)], "C10": [("eval", 8, 60, 600)], "C11": [("prod", 4, 60, 400)],
        "C16": [("access", 9, 60, 600)], "C17": [("all", 12, 120, 1500)]}


class Design:
    def __init__(self):
        self.states = self.transitions = 0
        self.models, self.sessions = [], []


def tlc(work, name, module, cfg, extra=(), workers=run.CORES, timeout=780, heap="8g"):
    d = os.path.join(work, "mc-" + name)
    os.makedirs(d)
    run.copy_spec(d)
    open(os.path.join(d, "X.cfg"), "w").write(cfg)
    rc, out = run.java(["-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "md"), "-config", "X.cfg"]
                       + list(extra) + [module + ".tla"], d, timeout, heap=heap)
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def mc_cfg(model, depth, emit, cplx):
    s = open(os.path.join(run.ROOT, "spec", "MC.cfg")).read()
    s = s.replace('"view"', '"%s"' % model).replace("Depth = 2", "Depth = %d" % depth).replace("Emit = 0", "Emit = %d" % emit)
    return s.replace("Cplx = FALSE", "Cplx = %s" % ("TRUE" if cplx else "FALSE"))


def explored(d, name, out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if not m or "No error has been found" not in out:
        raise run.CheckError("the specification violates its own properties (%s):\n%s" % (name, "\n".join(
            l for l in out.split("\n") if not l.startswith('"HIST'))[-4000:]))
    d.transitions += int(m[-1][0])
    d.states += int(m[-1][1])
    d.models.append({"model": name, "states_generated": int(m[-1][0]), "distinct_states": int(m[-1][1])})


def histories(out):
    """[(calls, observations)] printed by MC.tla"""
    res = []
    for l in out.split("\n"):
        if not l.startswith('"HIST '): continue
        s = json.loads(l)
        i = s.index(" OBS ")
        res.append((s[5:i], s[i + 5:]))
    return res


def maximal(hs):
    """drop histories that a longer one begins with"""
    hs = sorted(set(hs))
    keep = []
    for i, (h, o) in enumerate(hs):
        p = h[:-1] + ","
        if i + 1 < len(hs) and hs[i + 1][0].startswith(p): continue
        keep.append((h, o))
    return keep


def sessions(prop, tag, hs, cplx):
    t = "c64" if cplx else "f64"
    return [dict(id="%s-%s%d" % (prop, tag, i), t=t, nz=False, e=[0, -40, 40, -1][i % 4], ops=json.loads(h) + json.loads(o)) for i, (h, o) in enumerate(hs)]


def known_findings(prop):
    """{id: text} of the known findings of a property"""
    res = {}
    for l in open(os.path.join(run.ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == prop: res[m.group(2)] = m.group(3)
    return res


def observe_known(prop, exe, work):
    """lines for the known findings that the real library still shows"""
    lines = []
    for k, text in known_findings(prop).items():
        if k == "C07-raw":
            ops = [dict(op="arena", b=1, init=[1, 2, 3, 4]),
                   dict(op="over", h=1, b=1, off=0, len=4, k="RM", r=2, c=2, s0=0, s1=0, sz="DD", acc="rw", via="slice"),
                   dict(op="split", h=1, hs=[2, 3, 4, 5], at=[2, 1]),
                   dict(op="slicew", h=2, f=1, t=2, vals=[99], mb=1),
                   dict(op="get", h=3, r=0, c=0, chk=True)]
            tr = run.run_all(exe, [dict(id=k, t="f64", nz=False, ops=ops)], work, "known")
            ev = [json.loads(l) for l in tr[0]]
            # the write through the upper left quadrant is seen by the upper right one
            if ev[-1].get("op") == "get" and ev[-1].get("out") == "ok" and ev[-1]["v"] == 99:
                v = run.validate(tr, work, "known", cfg="HKnown.cfg")
                if v.ok or v.property != "QuadrantCells": raise run.CheckError("known finding not recognised: " + v.message[:500])
                lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k, text))
    return lines


def check(prop, tier, seed, work):
    d = Design()
    thorough = tier == "thorough"
    rng = random.Random("%s/%s/design" % (seed, prop))
    if prop in ("C01", "C02"):
        cfg = open(os.path.join(run.ROOT, "spec", "MCLayouts.cfg")).read()
        if thorough: cfg = cfg.replace("MaxDim = 4", "MaxDim = 6").replace("MaxStride = 5", "MaxStride = 8")
        explored(d, "layouts", tlc(work, "lay", "MCLayouts", cfg)[1])
        explored(d, "bignat", tlc(work, "big", "MCBigNat", open(os.path.join(run.ROOT, "spec", "MCBigNat.cfg")).read())[1])
    if prop in ("C18", "C19"):
        explored(d, "bignat", tlc(work, "big", "MCBigNat", open(os.path.join(run.ROOT, "spec", "MCBigNat.cfg")).read())[1])
        explored(d, "floats", tlc(work, "fl", "MCFloats", open(os.path.join(run.ROOT, "spec", "MCFloats.cfg")).read())[1])
    for model, q, th, cx in MODELS.get(prop, []):
        for cplx in ([0, 1] if cx and thorough else [0]):
            name = "%s%s depth %d" % (model, " complex" if cplx else "", th if thorough else q)
            if thorough: explored(d, name, tlc(work, model + str(cplx), "MC", mc_cfg(model, th, 0, cplx), heap="20g")[1])
            # behaviours: one worker, so that the histories are always the same
            rc, out = tlc(work, "h" + model + str(cplx), "MC", mc_cfg(model, q, 1, cplx), workers=1)
            if not thorough: explored(d, name, out)
            hs = maximal(histories(out))
            n = 6000 if thorough else 500
            if len(hs) > n: hs = rng.sample(hs, n)
            d.sessions += sessions(prop, "mc%s%d-" % (model, cplx), hs, cplx)
    for model, depth, q, th in SIMS.get(prop, []):
        n = th if thorough else q
        rc, out = tlc(work, "s" + model, "MC", mc_cfg(model, depth, depth, 0).replace("VIEW View\n", ""),
                      ["-simulate", "num=%d" % n, "-depth", str(depth + 1), "-seed", str(seed)], workers=1)
        if "Error" in out or not histories(out): raise run.CheckError("simulation of %s failed:\n%s" % (model, "\n".join(
            l for l in out.split("\n") if not l.startswith('"HIST'))[-4000:]))
        # one last call per behaviour (all possible ones are printed)
        by = {}
        for h, o in histories(out): by.setdefault(json.dumps(json.loads(h)[:-1]), []).append((h, o))
        hs = [rng.choice(by[k]) for k in sorted(by)]
        d.models.append({"model": "%s simulated to depth %d" % (model, depth), "behaviours": len(hs)})
        d.sessions += sessions(prop, "sim%s-" % model, hs, 0)
    return d
