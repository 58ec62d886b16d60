"""Random and systematic programs, per property."""
import random
from .model import *

TYPES = ["f64", "f32", "c64", "c32"]


def dims(r, mx=5):
    return r.choice([0, 1, 1, 2, 2, 3, 3, 4, mx]) if mx > 4 else r.randint(0, mx)


def rlay(r, kinds=KINDS, mx=5, over=0.1, nonempty=False):
    """a random layout; strides usually without overlap, with gaps"""
    k = r.choice(kinds)
    a, b = dims(r, mx), dims(r, mx)
    if nonempty: a, b = max(a, 1), max(b, 1)
    if k in ("RV", "ASRV"): a = 1
    if k in ("CV", "ASCV"): b = 1
    if k == "UT": b = a
    s0 = s1 = 0
    if k == "ASRV": s1 = r.choice([1, 1, 2, 3, 5])
    if k == "ASCV": s0 = r.choice([1, 1, 2, 3, 5])
    if k in ("ASRM", "ASCM"):
        if r.random() < over:
            s0, s1 = r.randint(0, 3), r.randint(0, 3)
        else:
            inner = r.choice([1, 1, 2, 3])
            if r.random() < 0.7 if k == "ASRM" else r.random() < 0.3:
                s1 = inner
                s0 = inner * max(b, 1) + r.randint(0, 3) + (0 if inner == 1 else 0)
            else:
                s0 = inner
                s1 = inner * max(a, 1) + r.randint(0, 3)
    return Lay(k, a, b, s0, s1)


def sizes_of(k):
    return {"RV": ["DD", "1D"], "ASRV": ["DD", "1D"], "CV": ["DD", "D1"], "ASCV": ["DD", "D1"]}.get(k, ["DD"])


ZVIA = {"RM": ["dim", "mat", "matrm"], "CM": ["dim", "matcm"], "RV": ["dim", "rvlen", "rvdim", "vecrv"],
        "CV": ["dim", "cvlen", "cvdim", "vec", "veccv"], "UT": ["dim"]}


def dense(s, lay, how=None, sz=None, acc=None, init=True, slack=None):
    """a dense matrix of the given layout; how: container"""
    r = s.rng
    sz = sz or r.choice(sizes_of(lay.k))
    how = how or r.choice(["slice", "slice", "usr", "vec", "zeros", "ptr", "arr"])
    if how == "zeros" and lay.k not in ZVIA: how = "vec"
    if how == "ptr" and (sz != "DD" or lay.k not in STRIDED): how = "slice"
    if how == "arr" and (sz != "DD" or lay.k in ("ASRV", "ASCV") or max(lay.extent(), lay.n()) > 9): how = "vec"
    need = max(lay.extent(), lay.n())
    if how in ("slice", "usr", "ptr"):
        pre, post = (r.randint(0, 3), r.randint(0, 3)) if slack is None else slack
        extra = 0 if how == "ptr" else r.choice([0, 0, 1, 2])
        b = s.arena(pre + need + extra + post) if not callable(init) else s.arena(init=init(pre + need + extra + post))
        ln = lay.extent() if how == "ptr" else need + extra
        if how == "ptr" and not lay.fits(ln): return dense(s, lay, "slice", sz, acc, init, slack)
        return s.over(b, pre, ln, lay, sz, acc or r.choice(["rw", "rw", "rw", "ro"]), how)
    if how == "zeros":
        via = r.choice([v for v in ZVIA[lay.k] if (v in ("rvlen", "rvdim", "vecrv", "cvlen", "cvdim", "vec", "veccv")) == (sz != "DD")])
        h = s.zeros(via, lay.k, lay.r, lay.c)
    elif how == "arr":
        h = s.new(min(n for n in (1, 4, 6, 9) if n >= need), lay, sz, "arr")
    else:
        h = s.new(need + r.choice([0, 0, 1, 3]), lay, sz, "vec")
    if init and h and not s.objs[h].overlap:
        n = lay.n()
        if init is True: s.each(h, s.distinct(n, s.rng.randint(1, 40)))
        else: s.each(h, init(n))
    return h


def pos(s, h, bad=0.15):
    """a position, usually existing"""
    r, L = s.rng, s.objs[h].lay
    P = L.positions() if L.r * L.c <= 400 else [(r.randrange(L.r), r.randrange(L.c))]
    if P and r.random() > bad: return r.choice(P)
    if r.random() < 0.3: return (r.choice(HUGE), r.randint(0, L.c)) if r.random() < .5 else (r.randint(0, L.r), r.choice(HUGE))
    return (r.randint(0, L.r + 1), r.randint(0, L.c + 1))


def idx(s, h, bad=0.15):
    r, n = s.rng, s.objs[h].lay.n()
    if n and r.random() > bad: return r.randrange(n)
    return r.choice(HUGE) if r.random() < 0.3 else n + r.randint(0, 3)


def stored(s, h, p):
    return s.objs[h].lay.stored(big(p[0]), big(p[1]))


def window(s, h, bad=0.15):
    r, L = s.rng, s.objs[h].lay
    if r.random() < bad:
        m = r.random()
        v = [r.randint(0, L.r + 1), r.randint(0, L.c + 1), r.randint(0, L.r + 1), r.randint(0, L.c + 1)]
        if m < 0.4: v[r.randrange(4)] = r.choice(HUGE)
        return (v[0], v[1]), (v[2], v[3])
    a, b = r.randint(0, L.r), r.randint(0, L.c)
    if r.random() < .8 and L.r and L.c: a, b = r.randrange(L.r), r.randrange(L.c)
    return (a, b), (r.randint(min(1, L.r - a), L.r - a) if r.random() < .9 else r.randint(0, L.r - a),
                    r.randint(min(1, L.c - b), L.c - b) if r.random() < .9 else r.randint(0, L.c - b))


PROBES = None


def probe_all(s, h, huge=True, wr=None):
    """every position around the edge, by every checked accessor"""
    L = s.objs[h].lay
    wr = s.settable(h) if wr is None else wr
    ps = []
    n = L.n()
    rows = list(range(L.r + 2)) if L.r < 12 else [0, 1, L.r - 1, L.r, L.r + 1]
    cols = list(range(L.c + 2)) if L.c < 12 else [0, 1, L.c - 1, L.c, L.c + 1]
    iis = list(range(n + 3)) if n < 40 else [0, 1, n // 2, n - 1, n, n + 1, n + 2]
    iis += [L.r * L.c, L.r * L.c - 1 if L.r * L.c else 0, L.extent(), max(0, L.extent() - 1)]
    if s.dense(h): iis += [s.objs[h].len, max(0, s.objs[h].len - 1)]
    if huge:
        rows += HUGE
        cols += HUGE
        iis += HUGE
    for a in rows:
        for b in cols:
            if huge and (a < 0 and b < 0) and s.rng.random() < .7: continue
            ps.append(("get", a, b))
            if wr: ps.append(("set", a, b))
    for i in iis:
        ps.append(("get1", i, 0))
        if wr: ps.append(("set1", i, 0))
    s.probe(h, ps)


# ---------------------------------------------------------------------
# Random walks

def step(s, W, cfg):
    """one random admissible call, drawn by the weights W"""
    r = s.rng
    ops = list(W)
    for _ in range(30):
        op = r.choices(ops, [W[o] for o in ops])[0]
        if try_op(s, op, cfg): return True
    return False


def some(s, pred):
    c = [h for h in s.objs if s.live(h) and pred(h)]
    if not c: return None
    # prefer recent objects
    return s.rng.choice(c[-4:]) if s.rng.random() < .5 else s.rng.choice(c)


def try_op(s, op, cfg):
    r = s.rng
    nd = sum(1 for o in s.objs.values() if o.t == "d")
    if op == "mk":
        if len(s.objs) >= cfg.get("maxobj", 9): return False
        lay = rlay(r, cfg.get("kinds", KINDS), cfg.get("mx", 5), cfg.get("over", .05))
        return dense(s, lay, cfg.get("how") and r.choice(cfg["how"]), init=cfg.get("init", True) if not callable(cfg.get("init")) else (lambda n: [cfg["init"](s) for _ in range(n)])) is not None
    if op == "over":     # a second window over an arena, or one that does not fit
        bs = [b for b in s.bufs if any(o["op"] == "arena" and o["b"] == b for o in s.ops)]
        if not bs: return False
        b = r.choice(bs)
        n = s.bufs[b]["len"]
        off = r.randint(0, n)
        ln = r.randint(0, n - off)
        acc = r.choice(["ro", "rw"])
        if not s.free_range(b, off, ln, acc): return False
        lay = rlay(r, cfg.get("kinds", KINDS), 4)
        s.over(b, off, ln, lay, r.choice(sizes_of(lay.k)), acc, r.choice(["slice", "usr"]))
        return True
    if op == "newbad":
        lay = rlay(r, cfg.get("kinds", KINDS), 4, nonempty=True)
        s.new(max(0, lay.extent() - r.randint(1, 2)), lay)
        return True
    if op == "drop":
        h = some(s, s.movable)
        if not h or len(s.objs) < 2: return False
        s.drop(h)
        return True
    if op in ("get", "uget"):
        h = some(s, s.readable)
        if not h: return False
        p = pos(s, h)
        chk = op == "get"
        if not chk and not stored(s, h, p): return False
        s.get(h, *p, chk=chk)
        return True
    if op in ("get1", "uget1"):
        h = some(s, s.readable)
        if not h: return False
        i = idx(s, h)
        chk = op == "get1"
        if not chk and big(i) >= s.objs[h].lay.n(): return False
        s.get1(h, i, chk)
        return True
    if op in ("set", "uset", "set1", "uset1"):
        h = some(s, s.settable)
        if not h: return False
        chk = op[0] != "u"
        v = cfg["val"](s) if "val" in cfg else s.val()
        if op[-1] == "1":
            i = idx(s, h)
            if not chk and big(i) >= s.objs[h].lay.n(): return False
            s.set1(h, i, v, chk)
        else:
            p = pos(s, h)
            if not chk and not stored(s, h, p): return False
            s.set(h, *p, v, chk)
        return True
    if op == "all":
        h = some(s, s.readable)
        if not h: return False
        s.all(h, wr=s.settable(h) and r.random() < .5)
        return True
    if op in ("meta", "convh"):
        h = some(s, s.readable)
        if not h: return False
        getattr(s, op)(h)
        return True
    if op == "probe":
        h = some(s, s.readable)
        if not h: return False
        ps = []
        for _ in range(6):
            w = r.choice(["get", "get1"] + (["set", "set1"] if s.settable(h) else []))
            ps.append((w, *pos(s, h, .7)) if w in ("get", "set") else (w, idx(s, h, .7), 0))
        s.probe(h, ps)
        return True
    if op in ("slice", "slicew"):
        h = some(s, lambda h: s.dense(h) and (s.readable(h) if op == "slice" else s.writable(h)))
        if not h: return False
        n = s.objs[h].len
        f, t = r.randint(0, n), r.randint(0, n)
        if r.random() < .75: f, t = min(f, t), max(f, t)
        if r.random() < .1: f, t = r.choice([(0, n + 1), (n, n), (n, n + 1), (-1, 1), (0, -1), (-1, -1), (-2, -1)])
        getattr(s, op)(h, f, t)
        return True
    if op in ("each", "fill"):
        h = some(s, lambda h: s.dense(h) and s.writable(h) and not s.objs[h].overlap)
        if not h: return False
        if op == "fill":
            if s.fl or s.draws + 2 * s.objs[h].lay.n() > 2500: return False
            s.fill(h)
        else:
            n = s.objs[h].lay.n()
            s.each(h, [cfg["val"](s) for _ in range(n)] if "val" in cfg else None, stop=r.randint(1, n) if n and r.random() < .15 else 0)
        return True
    if op == "rscal":
        if s.fl or s.draws > 2400: return False
        s.rscal()
        return True
    if op in ("block", "blockm"):
        h = some(s, lambda h: s.blockable(h) and (s.writable(h) if op == "blockm" else s.readable(h)))
        if not h or len(s.objs) > cfg.get("maxobj", 12): return False
        s.block(h, *window(s, h), mut=op == "blockm")
        return True
    if op == "split":
        h = some(s, s.splittable)
        if not h or len(s.objs) > cfg.get("maxobj", 12): return False
        L = s.objs[h].lay
        at = (r.randint(0, L.r), r.randint(0, L.c))
        if r.random() < .1: at = r.choice([(L.r + 1, 0), (0, L.c + 1), (-1, 0), (0, -1), (L.r, L.c + 1), (-1, -1)])
        s.split(h, at)
        return True
    if op == "add":
        if len(s.objs) > cfg.get("maxobj", 14): return False
        a = some(s, lambda h: s.operandable(h, "r"))
        if not a: return False
        x = s.objs[a]
        am = r.choice("or")
        def fit(h):
            y = s.objs[h]
            return s.addable(a, am, h, "r") and ((x.lay.r, x.lay.c) == (y.lay.r, y.lay.c) or r.random() < .05)
        if not s.operandable(a, am): am = "r"
        b = some(s, fit)
        if not b: return False
        bm = r.choice("or")
        if not s.addable(a, am, b, bm): bm = "r"
        s.add(a, am, b, bm)
        return True
    if op == "smul":
        if len(s.objs) > cfg.get("maxobj", 14): return False
        a = some(s, lambda h: s.operandable(h, "r"))
        if not a: return False
        am = r.choice("or")
        c = cfg["scal"](s) if "scal" in cfg else (s.mk(r.choice([0, 1, -1])) if r.random() < .3 else s.val(4))
        if not s.operandable(a, am): am = "r"
        if not s.smulable(a, am, c): return False
        s.smul(c, a, am, r.choice("lr"), None if r.random() < .15 else 0)
        return True
    if op == "ref":
        h = some(s, s.readable)
        if not h or len(s.objs) > cfg.get("maxobj", 14): return False
        s.ref(h)
        return True
    if op == "refm":
        h = some(s, s.settable)
        if not h or len(s.objs) > cfg.get("maxobj", 14): return False
        s.refm(h)
        return True
    if op == "eval":
        h = some(s, s.evaluable)
        if not h or len(s.objs) > cfg.get("maxobj", 14): return False
        s.eval(h)
        return True
    if op == "matmul":
        def mm(h): return s.mulready(h)
        c = some(s, lambda h: mm(h) and s.writable(h) and not s.objs[h].overlap)
        if not c: return False
        hs = [h for h in s.objs if s.live(h) and mm(h) and s.readable(h) and h != c]
        r.shuffle(hs)
        al = s.mk(r.choice([0, 1, -1])) if r.random() < .4 else s.val(3)
        be = s.mk(r.choice([0, 1, -1])) if r.random() < .4 else s.val(3)
        C = s.objs[c].lay
        for strict in ((1, 0) if r.random() < .1 else (1,)):
            for a in hs:
                for b in hs:
                    A, B = s.objs[a].lay, s.objs[b].lay
                    if strict and (A.r != C.r or B.c != C.c or A.c != B.r): continue
                    if s.matmulable(al, a, b, be, c):
                        s.matmul(al, a, b, be, c, None if r.random() < .2 else 0)
                        return True
        return False
    if op == "dot":
        hs = [h for h in s.objs if s.live(h) and s.readable(h) and s.mulready(h)]
        r.shuffle(hs)
        bad = r.random() < .1
        for a in hs:
            for b in hs:
                if (s.objs[a].lay.c == s.objs[b].lay.r or bad) and s.dotable(a, b):
                    s.dot(a, b)
                    return True
        return False
    if op == "snap":
        s.snap()
        return True
    raise KeyError(op)


def walk(sid, t, nz, seed, W, n, cfg, start=1, unit=0, cls=S):
    s = cls(sid, t, nz, random.Random("%s/%s" % (seed, sid)))
    s.unit = unit
    s.step = 0
    for _ in range(start): try_op(s, "mk", cfg)
    for _ in range(n):
        if not step(s, W, cfg): break
    finish(s)
    return s


def finish(s):
    for h in list(s.objs):
        if s.readable(h): s.all(h)
    s.snap()
    # release everything, innermost borrower first, and look at what remains
    while True:
        m = [h for h in s.objs if s.movable(h) and s.objs[h].acc != "own" and s.objs[h].src]
        if not m: break
        for h in m: s.drop(h)
    for h in list(s.objs):
        if s.readable(h): s.all(h)
    s.snap()
