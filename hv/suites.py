"""The programs each property is checked with."""
import itertools
import random
from .gen import *
from .sweeps import SWEEPS
from .bulk import BULK

ALLK = KINDS
FOURK = ["RM", "CM", "ASRM", "ASCM"]
BASEK = ["RM", "CM", "RV", "CV", "UT"]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.out = []
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.units = random.Random("%s/%s/unit" % (prop, seed))
        self.n = 0

    def new(self, t="f64", nz=False, tag="", cls=S):
        self.n += 1
        s = cls("%s-%s%d" % (self.prop, tag, self.n), t, nz, random.Random("%s/%s/%d" % (self.prop, self.seed, self.n)))
        s.unit = self.unit(t, cls)
        self.out.append(s)
        return s

    def unit(self, t, cls=S):
        return cls.someunit(t, self.units)

    def walks(self, count, W, n, cfg=None, types=TYPES, nz=False, start=1, tag="walk", cls=S):
        if self.thorough: count = count * 12
        for i in range(count):
            self.n += 1
            self.out.append(walk("%s-%s%d" % (self.prop, tag, self.n), types[i % len(types)], nz, self.seed, W, n,
                                 cfg if not callable(cfg) else cfg(self.rng), start, self.unit(types[i % len(types)], cls), cls))

    def pick(self, xs, quick):
        """all of xs when thorough, otherwise a sample"""
        xs = list(xs)
        if self.thorough or len(xs) <= quick: return xs
        return self.rng.sample(xs, quick)


def shapes(k, m):
    if k in ("RV", "ASRV"): return [(1, c) for c in range(m + 1)]
    if k in ("CV", "ASCV"): return [(r, 1) for r in range(m + 1)]
    if k == "UT": return [(n, n) for n in range(m + 1)]
    return [(r, c) for r in range(m + 1) for c in range(m + 1)]


def strided_lays(k, r, c, rng=None, few=False):
    """layouts of kind k and shape, with various strides"""
    if k == "ASRV": return [Lay(k, r, c, 0, s) for s in ((1, 3) if few else (1, 2, 5))]
    if k == "ASCV": return [Lay(k, r, c, s, 0) for s in ((1, 3) if few else (1, 2, 5))]
    if k in ("ASRM", "ASCM"):
        R, C = max(r, 1), max(c, 1)
        a = [(C, 1), (1, R), (2 * C + 1, 2), (3, 3 * R + 2)]
        if not few: a += [(C + 3, 1), (1, R + 1), (2, 2 * R), (0, 1), (1, 1), (7, 5)]
        return [Lay(k, r, c, x, y) for x, y in a]
    return [Lay(k, r, c)]


def any_layouts(m, few=False):
    for k in ALLK:
        for r, c in shapes(k, m):
            for L in strided_lays(k, r, c, few=few): yield L


BIGSHAPES = [(1, 64), (64, 1), (9, 13), (16, 16), (17, 33), (33, 2), (8, 31), (40, 25)]


def big_layouts():
    for k in ALLK:
        for r, c in BIGSHAPES:
            if k in ("RV", "ASRV"): r = 1; c = max(c, 40)
            if k in ("CV", "ASCV"): c = 1; r = max(r, 40)
            if k == "UT": c = r
            for L in strided_lays(k, r, c, few=True)[:2]: yield L


# -- huge layouts ------------------------------------------------------

def huge_session(cx, count, focus):
    """layouts that no memory could hold"""
    r = cx.rng
    ops = []
    M = 2**64

    def num(bits):
        b = r.randint(1, bits)
        v = r.choice([2**b, 2**b - 1, 2**b + 1, r.randrange(2**b) + 1, 2**b - r.randint(0, 3), 3 * 2**max(0, b - 2)])
        return max(0, min(v, 2**bits))

    def fill(L, n):
        k, R, C, s0, s1, ne, ex = L.k, L.r, L.c, L.s0, L.s1, L.n(), L.extent()
        op = dict(k=k, r=str(R), c=str(C), s0=str(s0), s1=str(s1), n=str(n), conv1=[], conv2=[], acc1=[], acc2=[])
        if L.fits(n):
            ii = set()
            if ne:
                for _ in range(8 if focus == "ut" else 4):
                    i = r.choice([0, ne - 1, ne // 2, r.randrange(ne), r.randrange(ne), max(0, ne - 1 - r.randrange(min(ne, 100)))])
                    if k == "UT":     # around the ends of rows
                        p = r.choice([r.randrange(R), R - 1, r.randrange(max(1, R // 2), R) if R > 1 else 0])
                        i = min(ne - 1, max(0, p * (p + 1) // 2 + r.choice([-1, 0, 1, p // 2])))
                    elif r.random() < .5:
                        w = C if k in ROWK else R
                        i = min(ne - 1, max(0, r.randrange(ne // w + 1) * w + r.choice([-1, 0, 1])))
                    ii.add(i)
            op["conv1"] = [str(i) for i in sorted(ii)]
            acc1 = sorted(ii) + [x for x in {ne, ne + 1, ne + 7, M - 1, R * C, ex} if x >= ne and x < M]
            op["acc1"] = [str(i) for i in acc1]
            ps = set()
            if ne:
                for _ in range(4):
                    a = r.choice([0, R - 1, r.randrange(R)])
                    b = r.choice([C - 1, r.randrange(C), a if k == "UT" else 0])
                    if k == "UT": b = max(a, b)
                    ps.add((a, b))
            op["conv2"] = [[str(a), str(b)] for a, b in sorted(ps)]
            bad = {(R, 0), (0, C), (R, C), (M - 1, 0), (0, M - 1), (R + 1, max(0, C - 1))}
            if k == "UT" and R > 1: bad |= {(1, 0), (R - 1, R - 2)}
            op["acc2"] = op["conv2"] + [[str(a), str(b)] for a, b in sorted(bad) if a < M and b < M]
        ops.append(op)

    def edges():
        """strided layouts at the edge of what a machine number holds: rows and columns
        that fit or do not on their own and together, and layouts without elements"""
        for k in ("ASRM", "ASCM"):
            for q in r.sample([2, 3, 5, 2**20, 2**31], 2):
                top, few = (M - 1) // q, r.choice([0, 1, 5])
                near = M - q * (top - 1)
                two = [(0, q + 1, few, top + 1), (0, q + 1, few, M - 1), (1, q + 1, M - 1, 1), (1, q + 1, M - 1, top + 1), (2, q + 1, 0, top + 1),
                       (2, q + 1, near, top - 1), (2, q + 1, near + 7, top - 1), (2, q, 2**62, 2**62 // q), (q + 1, q + 1, top // 2 + q, top // 2 + q)]
                for R, C, s0, s1 in two + [(0, 0, M - 1, M - 1), (1, 1, M - 1, M - 1), (2, 2, 2**63, 2**63), (2, 3, 2, 2**63 - 1), (2, 3, 1, 2**62)]:
                    for x in ((R, C, s0, s1), (C, R, s1, s0)): yield (k,) + x
        for q in (2, 3, 2**20, 2**31):
            top = (M - 1) // q
            for d, x in [(0, M - 1), (1, M - 1), (q + 1, top + 1), (q + 1, top + 2), (q + 1, M - 1), (q, top // 2)]:
                yield "ASRV", 1, d, 0, x
                yield "ASCV", d, 1, x, 0

    if focus != "ut":
        some = list(edges())
        for k, R, C, s0, s1 in (some if focus in ("fit", "all") else r.sample(some, count)):
            L = Lay(k, R, C, s0, s1)
            for n in r.sample([M - 1, M // 2, 7, 0], 2):
                if not (L.fits(n) and L.extent() > 2**63): fill(L, n)
    count += len(ops)
    while len(ops) < count:
        k = r.choice(ALLK if focus != "ut" else ["UT"])
        R, C = num(r.choice([4, 20, 33, 50])), num(r.choice([4, 20, 33, 50]))
        if r.random() < .05: R = 0
        if r.random() < .05: C = 0
        if k in ("RV", "ASRV"): R, C = 1, num(61)
        if k in ("CV", "ASCV"): R, C = num(61), 1
        if k == "UT": R = C = num(31) if r.random() < .8 else num(10)
        if R * C >= M or (focus != "fit" and R * C >= M // 2): continue
        s0 = s1 = 0
        if k == "ASRV": s1 = num(r.choice([2, 8, 40, 63]))
        if k == "ASCV": s0 = num(r.choice([2, 8, 40, 63]))
        if k in ("ASRM", "ASCM"):
            if r.random() < .6:
                u = r.choice([1, 1, 2, 5])
                s0, s1 = (u * max(C, 1) + r.randint(0, 9), u) if (r.random() < .5) == (k == "ASRM") else (u, u * max(R, 1) + r.randint(0, 9))
            else: s0, s1 = num(r.choice([2, 8, 40, 63])), num(r.choice([2, 8, 40, 63]))
        if max(s0, s1) >= M: continue
        L = Lay(k, R, C, s0, s1)
        ne, ex = L.n(), L.extent()
        need = max(ne, ex)
        if need < M and r.random() < (.75 if focus != "fit" else .4):
            n = min(M - 1, need + r.choice([0, 0, 1, 5]))
        else:
            n = r.choice([max(0, min(need, M) - 1), need % M, ne % M, min(ex, M - 1), r.randrange(1, 1000), min(M - 1, ex % M + 1), M - 1, 10, max(0, min(M, ex) - r.randint(1, 3)), 2**32, 2**32 - 1])
        if n >= M: continue
        ok = L.fits(n)
        if ok and ex > 2**63: continue
        fill(L, n)
    cx.n += 1

    class Raw:
        id = "%s-big%d" % (cx.prop, cx.n)
        t = "big"

        def json(self): return dict(id=self.id, t="big", ops=ops)
    x = Raw()
    x.ops = ops
    cx.out.append(x)


# -- objects of every kind ---------------------------------------------

HOWS = ["slice", "usr", "vec", "arr", "ptr", "zeros"]


def zoo(cx, m=3, few=True, hows=HOWS, szs=True):
    """(layout, size class, container) of everything that can be made directly"""
    for k in ALLK:
        for r, c in shapes(k, m):
            for L in strided_lays(k, r, c, few=few):
                for how in hows:
                    for sz in (sizes_of(k) if szs else ["DD"]):
                        if how == "zeros" and k not in ZVIA: continue
                        if how == "ptr" and (k not in FOURK or sz != "DD"): continue
                        if how == "arr" and (sz != "DD" or k in ("ASRV", "ASCV") or max(L.extent(), L.n()) > 9): continue
                        yield L, sz, how


def fixed_all(s):
    for (k, r, c) in FIXED: yield s.zeros("fixed", k, r, c)


def wrap(s, h, depth=2):
    """things made from h: reference, scalar product, sum, view (readable)"""
    res = []
    if s.readable(h): res.append(s.ref(h))
    if s.operandable(h, "r"):
        res.append(s.smul(s.mk(1), h, "r"))
        if s.addable(h, "r", h, "r"): res.append(s.add(h, "r", h, "r"))
    if s.blockable(h) and s.readable(h):
        L = s.objs[h].lay
        if L.r and L.c: res.append(s.block(h, (L.r // 2, L.c // 2), (L.r - L.r // 2, L.c - L.c // 2)))
    return [x for x in res if x]


def group(cx, items, per, t=None, nz=False, tag=""):
    """spread items over sessions of `per` items"""
    items = list(items)
    for i in range(0, len(items), per):
        s = cx.new(t or TYPES[(i // per) % 4], nz, tag)
        for x in items[i:i + per]: yield s, x


def done(s, h):
    """release h and what depends on it"""
    for x in [x for x in s.objs if h in s.objs[x].src]: done(s, x)
    if s.movable(h): s.drop(h)


# ---------------------------------------------------------------------

READ = dict(mk=3, drop=1, get=3, uget=2, get1=3, uget1=2, set=3, uset=1, set1=2, uset1=1, all=2, block=3, blockm=2, ref=2, refm=1)


def C01(cx):
    for s, L in group(cx, any_layouts(5 if cx.thorough else 4, few=True), 40, "f64", tag="lay"):
        s.layout("new", L)
        if L.k in BASEK: s.layout("fromdim", L)
        if L.k in ("RV", "CV"): s.layout("fromlen", L)
    for s, L in group(cx, big_layouts(), 2, "f64", tag="layb"): s.layout("new", L)
    for s, n in group(cx, [6, 7, 8, 9, 11, 15, 21, 32] + ([45, 64] if cx.thorough else []), 2, "f64", tag="tri"):
        s.layout("new", Lay("UT", n, n))
    items = cx.pick(zoo(cx, 3, few=True), 250)
    for s, (L, sz, how) in group(cx, items, 10, tag="zoo"):
        h = dense(s, L, how, sz)
        if not h: continue
        s.all(h); s.convh(h)
        for x in wrap(s, h): s.convh(x); s.all(x); s.meta(x)
        done(s, h)
    for t in TYPES:
        s = cx.new(t, tag="fix")
        for h in fixed_all(s): s.convh(h); s.each(h); s.all(h); s.drop(h)
    for f in ("all", "ut"):
        for _ in range(12 if cx.thorough else 2): huge_session(cx, 40, f)
    W = dict(READ, convh=6, meta=1, add=2, smul=2, eval=2, split=1)
    cx.walks(60, W, 35, dict(mx=6))


def C02(cx):
    for s, L in group(cx, any_layouts(5 if cx.thorough else 4), 40, "f64", tag="lay"): s.layout("new", L)
    for s, L in group(cx, big_layouts(), 2, "f64", tag="layb"): s.layout("new", L)
    items = cx.pick(zoo(cx, 3, few=False, hows=["usr", "usr", "slice", "vec", "zeros", "ptr"]), 350)
    for s, (L, sz, how) in group(cx, items, 8, tag="zoo"):
        h = dense(s, L, how, sz, init=True)
        if not h: continue
        s.meta(h); s.convh(h)
        touch(s, h)
        if s.blockable(h) and L.r and L.c and s.readable(h):
            b = s.block(h, (L.r // 2, L.c // 2), (L.r - L.r // 2, L.c - L.c // 2), mut=s.writable(h))
            if b: s.meta(b); s.convh(b); touch(s, b, 1)
        if s.readable(h): x = s.ref(h); s.meta(x); touch(s, x, 1)
        for x in wrap(s, h)[1:] if s.readable(h) else []: s.meta(x)
        done(s, h)
    for t in TYPES:
        s = cx.new(t, tag="fix")
        for h in fixed_all(s): s.meta(h); s.each(h); touch(s, h); s.drop(h)
    s = cx.new("f64", tag="blen")
    for n in range(5):
        for ln in range(6): s.emit("blen", len=ln, n=n)
    for _ in range(12 if cx.thorough else 3): huge_session(cx, 40, "all")
    W = dict(READ, convh=2, meta=6, eval=1, split=2, set=5, uset=4, set1=4, uset1=4, slice=1, snap=1, smul=1, add=1)
    cx.walks(60, W, 40, dict(mx=6, how=["usr", "slice", "usr", "vec", "ptr", "zeros"], over=.1))


def touch(s, h, k=2):
    """read (and write) every element by every way"""
    L, r = s.objs[h].lay, s.rng
    P = L.positions()
    if not P: return
    for p in r.sample(P, min(len(P), 4 * k)):
        s.get(h, *p, chk=r.random() < .5)
    for i in r.sample(range(L.n()), min(L.n(), 4 * k)):
        s.get1(h, i, chk=r.random() < .5)
    if s.settable(h):
        for p in r.sample(P, min(len(P), 4 * k)):
            s.set(h, *p, s.val(), chk=r.random() < .5)
        for i in r.sample(range(L.n()), min(L.n(), 4 * k)):
            s.set1(h, i, s.val(), chk=r.random() < .5)


def C03(cx):
    items = cx.pick(zoo(cx, 3, few=True), 150)
    for s, (L, sz, how) in group(cx, items, 6, tag="zoo"):
        h = dense(s, L, how, sz)
        if not h: continue
        probe_all(s, h)
        for x in wrap(s, h):
            probe_all(s, x)
            if s.objs[x].t != "add": probe_all(s, s.ref(x))
        for x in [x for x in list(s.objs) if h in s.objs[x].src]: done(s, x)
        if s.settable(h):
            m = s.refm(h)
            probe_all(s, m)
            probe_all(s, s.ref(m)); done(s, m)
            if s.blockable(h):
                b = s.block(h, (0, 0), (max(0, L.r - 1), max(0, L.c - 1)), mut=True)
                probe_all(s, b)
                n = s.refm(b)
                probe_all(s, n)
        done(s, h)
        s.snap()
    for t in TYPES:
        s = cx.new(t, tag="fix")
        for h in fixed_all(s): s.each(h); probe_all(s, h); x = s.ref(h); probe_all(s, x); done(s, h)
    for t in cx.pick(TYPES, 2):
        for L in cx.pick(list(big_layouts()), 8):
            s = cx.new(t, tag="large")
            h = dense(s, L, "slice", acc="rw")
            probe_all(s, h)
    s = cx.new("f64", tag="quad")
    for at in [(0, 0), (1, 2), (3, 4), (2, 0), (0, 4)]:
        h = dense(s, Lay("RM", 3, 4), "vec")
        for q in s.split(h, at): probe_all(s, q)
        done(s, h)
    for _ in range(6 if cx.thorough else 2): huge_session(cx, 40, "all")
    W = dict(READ, probe=8, add=2, smul=2, eval=1, split=1, snap=1)
    cx.walks(50, W, 35, dict(mx=5))


HIST = dict(mk=2, drop=.3, get=2, uget=2, get1=2, uget1=2, set=5, uset=4, set1=4, uset1=4, all=3, slice=2, slicew=3, each=2, fill=.3, snap=1, meta=.3)


def C04(cx):
    items = cx.pick(zoo(cx, 3, few=True), 220)
    for s, (L, sz, how) in group(cx, items, 8, tag="zoo"):
        h = dense(s, L, how, sz, acc="rw")
        if not h: continue
        r = s.rng
        s.all(h, wr=True)
        for p in r.sample(L.positions(), min(L.n(), 6)): s.set(h, *p, s.val(), chk=r.random() < .5)
        s.all(h, wr=True)
        for i in r.sample(range(L.n()), min(L.n(), 6)): s.set1(h, i, s.val(), chk=r.random() < .5)
        if s.objs[h].len:
            f = r.randrange(s.objs[h].len)
            t = r.randint(f + 1, s.objs[h].len)
            s.slicew(h, f, t); s.slice(h, f, t)
        s.all(h)
        s.snap()
        done(s, h)
    for t in TYPES:
        s = cx.new(t, tag="fix")
        for h in fixed_all(s): s.each(h); touch(s, h); s.all(h, wr=True); s.drop(h)
        for L in [Lay("RM", 17, 9), Lay("CM", 9, 17), Lay("UT", 13, 13), Lay("ASRM", 8, 9, 31, 3), Lay("ASCM", 9, 8, 2, 20)]:
            s = cx.new(t, tag="large")
            h = dense(s, L, "slice", acc="rw")
            for _ in range(6): touch(s, h)
            s.all(h, wr=True); s.snap()
    cx.walks(70, HIST, 60, dict(mx=5, over=.1, maxobj=5))
    cx.walks(20, dict(HIST, block=2, blockm=2, ref=1, refm=2, drop=2), 60, dict(mx=5))
    cx.walks(16, HIST, 45, special(maxobj=5), nz=True, tag="spec")


def C05(cx):
    m = 4 if cx.thorough else 3
    for k in FOURK:
        for R in range(m + 1):
            for C in range(m + 1):
                if not cx.thorough and (R, C) not in ((3, 3), (2, 3), (3, 1), (1, 2), (0, 2), (2, 0), (0, 0)): continue
                L = cx.rng.choice(strided_lays(k, R, C, few=True))
                s = cx.new(cx.rng.choice(TYPES), tag="win")
                h = dense(s, L, cx.rng.choice(["slice", "usr", "vec"]))
                for r0, c0, a, b in itertools.product(range(R + 2), range(C + 2), range(R + 2), range(C + 2)):
                    if not cx.thorough and cx.rng.random() < .5: continue
                    if (r0 + a > R or c0 + b > C) and cx.rng.random() < .6: continue
                    mut = s.writable(h) and s.rng.random() < .5
                    x = s.block(h, (r0, c0), (a, b), mut)
                    if x:
                        s.all(x)
                        if s.rng.random() < .3: s.meta(x); s.convh(x)
                        if s.rng.random() < .2: probe_all(s, x, huge=False)
                        if s.rng.random() < .3:
                            y = s.block(x, *window(s, x, 0), mut=mut and s.rng.random() < .5)
                            if y:
                                s.all(y)
                                z = s.block(y, *window(s, y, 0))
                                if z: s.all(z); s.meta(z)
                        done(s, x)
                # corners beyond the matrix, up to the largest index
                for hu in HUGE:
                    for v in ((hu, 0, 1, 1), (0, hu, 1, 1), (0, 0, hu, 1), (0, 0, 1, hu), (hu, hu, 1, 1), (0, 0, hu, hu), (1, 0, hu, 1), (0, 1, 1, hu), (1, 1, hu, hu), (hu, 0, 2, 1), (0, hu, 1, 3), (hu, 0, 0, 0), (0, hu, 0, 0), (hu, 0, hu, 0)):
                        if s.rng.random() < .3: s.block(h, v[:2], v[2:], mut=s.writable(h) and s.rng.random() < .5)
                s.snap()
    for k in FOURK:        # larger matrices, deeper nesting
        for t in TYPES:
            s = cx.new(t, tag="deep")
            L = s.rng.choice(strided_lays(k, 11, 13, few=True))
            h = dense(s, L, s.rng.choice(["slice", "vec", "usr", "ptr"]))
            for _ in range(4):
                x = h
                for d in range(5):
                    M = s.objs[x].lay
                    a, b = s.rng.randint(0, min(2, M.r)), s.rng.randint(0, min(2, M.c))
                    y = s.block(x, (a, b), (M.r - a - s.rng.randint(0, min(1, M.r - a)), M.c - b - s.rng.randint(0, min(1, M.c - b))))
                    s.all(y); s.meta(y)
                    x = y
                e = s.eval(x)
                s.all(e)
    W = dict(mk=2, drop=2, block=6, blockm=4, all=3, get=2, get1=2, uget=1, uget1=1, set=2, set1=1, convh=1, meta=1, probe=1, eval=1, ref=1, split=1, snap=.5)
    cx.walks(60, W, 40, dict(mx=7, kinds=FOURK + ["ASRM", "ASCM"], maxobj=14))


def C06(cx):
    W = dict(mk=1, drop=3, blockm=6, set=4, uset=2, set1=4, uset1=2, each=2, slicew=1, all=1.5, snap=1, refm=1, fill=.3, get=.5, get1=.5, meta=.3)
    for k in FOURK:
        for (R, C) in [(3, 4), (4, 3), (1, 5), (5, 1), (2, 2)] + ([(6, 7), (9, 4), (17, 5)] if cx.thorough else [(7, 6)]):
            for L in cx.pick(strided_lays(k, R, C, few=True), 2):
                s = cx.new(cx.rng.choice(TYPES), tag="mut")
                h = dense(s, L, s.rng.choice(["slice", "usr", "vec", "ptr"]), acc="rw")
                r = s.rng
                for _ in range(6):
                    x, chain = h, []
                    for d in range(r.randint(1, 4)):
                        M = s.objs[x].lay
                        if not (M.r and M.c): break
                        a, b = r.randrange(M.r), r.randrange(M.c)
                        x = s.block(x, (a, b), (r.randint(1, M.r - a), r.randint(1, M.c - b)), mut=True)
                        chain.append(x)
                    w = r.randrange(6)
                    P = s.objs[x].lay.positions()
                    if w == 0: s.each(x)
                    elif w == 1: touch(s, x, 1)
                    elif w == 2:
                        for p in r.sample(P, min(len(P), 4)): s.set(x, *p, s.val(), chk=False)
                    elif w == 3: y = s.refm(x); touch(s, y, 1)
                    elif w == 4: s.fill(x) if s.draws < 1000 else s.each(x)
                    else:
                        touch(s, x, 1)
                        f = r.randrange(s.objs[x].len); s.slicew(x, f, s.objs[x].len)
                    s.all(x) if s.readable(x) else None
                    done(s, chain[0])
                    s.all(h)
                s.snap()
    cx.walks(70, W, 50, dict(mx=6, kinds=FOURK, maxobj=9, how=["slice", "usr", "vec", "ptr"]))
    cx.walks(15, dict(W, split=3), 50, dict(mx=6, kinds=["RM"], maxobj=12, how=["slice", "vec", "ptr"]))
    cx.walks(12, W, 40, special(kinds=FOURK, maxobj=9), nz=True, tag="spec")


def C07(cx):
    m = 5 if cx.thorough else 4
    for R in range(m + 1):
        for C in range(m + 1):
            s = cx.new(TYPES[(R * 5 + C) % 4], tag="split")
            r = s.rng
            h = dense(s, Lay("RM", R, C), r.choice(["slice", "vec", "usr", "ptr"]), acc="rw")
            for at in [(a, b) for a in range(R + 2) for b in range(C + 2)] + [(-1, 0), (0, -1), (R, -1), (-2, C), (-3, -3), (-4, 1), (-5, 0), (0, -6)]:
                q = s.split(h, at)
                if not q: continue
                for x in q: s.meta(x); s.all(x)
                todo = [(x, p) for x in q for p in s.objs[x].lay.positions()]
                r.shuffle(todo)
                for x, p in todo[:8]:
                    if r.random() < .5: s.set(x, *p, s.val(), chk=r.random() < .5)
                    else: s.set1(x, r.randrange(s.objs[x].lay.n()), s.val(), chk=r.random() < .5)
                for x in q:
                    if r.random() < .3: s.each(x)
                    s.all(x)
                s.snap()
                done(s, h) if False else [done(s, x) for x in q]
                s.all(h)
    for (R, C) in [(17, 9), (9, 17), (33, 3)]:
        s = cx.new("f64", tag="large")
        h = dense(s, Lay("RM", R, C), "slice", acc="rw")
        for _ in range(4):
            q = s.split(h, (s.rng.randint(0, R), s.rng.randint(0, C)))
            for x in q:
                s.all(x)
                if s.objs[x].lay.n(): touch(s, x, 1)
            for x in q: s.each(x)
            s.snap()
            for x in q: done(s, x)
    # work on quadrants: blocks, references, products, evaluation
    W = dict(mk=1, split=5, drop=2, set=4, set1=4, uset=2, uset1=2, each=1.5, all=2, get=1, get1=1, snap=1, block=1, blockm=2, refm=1, eval=1, probe=1, meta=.5, matmul=1.5, add=1, smul=1)
    cx.walks(70, W, 45, dict(mx=6, kinds=["RM"], maxobj=14, how=["slice", "vec", "usr", "ptr"], over=0))
    cx.walks(12, dict(W, matmul=0), 40, special(kinds=["RM"], maxobj=14, over=0), nz=True, tag="spec")


EXPR = dict(mk=3, add=6, smul=6, ref=2, refm=.3, block=2, eval=1, all=3, get=2, uget=1, get1=2, uget1=1, drop=1, meta=1, set=1)


def spec_cfg(r):
    return dict(mx=4, over=.05, init=lambda s: s.special(.25), scal=lambda s: s.special(.4, 3), val=lambda s: s.special(.3))


def special(**kw):
    """infinities, NaN and signed zeros among the values"""
    return lambda r: dict(spec_cfg(r), **kw)


def C08(cx):
    # every pair of layouts and ownership modes
    pairs = [(a, b) for a in ALLK for b in ALLK if INDEX[a] == INDEX[b]]
    for s, ((ka, kb), (am, bm), shape) in group(cx, itertools.product(pairs, itertools.product("or", "or"), [(2, 3), (3, 2), (1, 1), (0, 2), (3, 3)] if cx.thorough else [(2, 3), (3, 3)]), 12, tag="pair"):
        r, c = shape
        if ka in ("RV", "ASRV"): r = 1
        if ka in ("CV", "ASCV"): c = 1
        if ka == "UT": c = r
        for sz in sizes_of(ka):
            if sz == "DD" and ka in ("RV", "CV", "ASRV", "ASCV") and s.t not in S.ZOO: continue
            a = dense(s, s.rng.choice(strided_lays(ka, r, c, few=True)), None, sz)
            b = dense(s, s.rng.choice(strided_lays(kb, r, c, few=True)), None, sz)
            if not (s.addable(a, am, b, bm)): continue
            x = s.add(a, am, b, bm)
            s.all(x); s.meta(x)
            y = s.smul(s.val(3), x, s.rng.choice("or"), s.rng.choice("lr"), s.rng.choice([0, None])) if s.smulable(x, "o", s.mk(3, 3)) else None
            if y: s.all(y); s.meta(y)
            if y and s.evaluable(y): s.all(s.eval(y))
            for h in [h for h in list(s.objs)]:
                if h in s.objs and s.live(h) and s.movable(h): done(s, h)
    # scalars from both sides, on everything
    for s, (L, sz, how) in group(cx, cx.pick(zoo(cx, 3), 120), 8, tag="scal"):
        h = dense(s, L, how, sz)
        if not h: continue
        for side in "lr":
            for c in [s.mk(0), s.mk(1), s.mk(-1), s.val(5)]:
                if s.rng.random() < .4 or not s.smulable(h, "r", c): continue
                x = s.smul(c, h, "r", side, s.rng.choice([0, None]))
                s.all(x); s.meta(x)
                if s.readable(x) and s.objs[x].sz == "DD" and s.rng.random() < .3: s.all(s.eval(x))
        done(s, h)
    # refused sums
    for s, (k, m) in group(cx, itertools.product(ALLK, range(8)), 12, tag="dim"):
        am, bm = s.rng.choice("or"), s.rng.choice("or")
        (a, b), (c, d) = [s.rng.choice(shapes(k, 3)) for _ in range(2)]
        if m < 2: c, d = b, a
        if not valid(k, c, d): c, d = a, b
        sz = s.rng.choice(sizes_of(k))
        if sz == "DD" and k in ("RV", "CV", "ASRV", "ASCV") and s.t not in S.ZOO: sz = sizes_of(k)[1]
        x = dense(s, s.rng.choice(strided_lays(k, a, b, few=True)), None, sz)
        y = dense(s, s.rng.choice(strided_lays(k, c, d, few=True)), None, sz)
        z = s.add(x, am, y, bm)
        if z: s.all(z)
        s.snap()
    # fixed sizes
    for t in ("f64", "c64"):
        s = cx.new(t, tag="fix")
        for k, r, c in [("RM", 2, 2), ("CM", 2, 2), ("RM", 2, 3), ("CM", 2, 3)]:
            for am, bm in itertools.product("or", "or"):
                a, b = s.zeros("fixed", k, r, c), s.zeros("fixed", k, r, c)
                s.each(a); s.each(b)
                x = s.add(a, am, b, bm)
                s.all(x)
                y = s.smul(s.val(4), x, "o", s.rng.choice("lr"), s.rng.choice([0, None]))
                s.all(y); s.meta(y)
    # larger
    for t in TYPES:
        s = cx.new(t, tag="large")
        for k in FOURK:
            a = dense(s, Lay(k, 13, 17, *((0, 0) if k in ("RM", "CM") else (40, 2) if k == "ASRM" else (2, 30))), "slice")
            b = dense(s, Lay(INDEX[k], 13, 17), "vec")
            x = s.add(a, "r", b, "r")
            y = s.smul(s.mk(3), x, "r")
            s.all(y)
            z = s.add(y, "r", x, "r")
            s.all(s.eval(z))
    cx.walks(50, EXPR, 40, dict(mx=4, maxobj=16), start=2)
    cx.walks(40, EXPR, 35, spec_cfg, types=["f64", "c64", "f32", "c32"], nz=False, start=2, tag="spec")
    cx.walks(40, EXPR, 35, spec_cfg, types=["f64", "f32", "c64", "c32"], nz=True, start=2, tag="nz")


def C09(cx):
    W = dict(mk=3, add=7, smul=6, ref=2, block=2, eval=3, all=.5, get=4, uget=2, get1=4, uget1=2, drop=1, set=1, snap=2, set1=.5)
    for s, (L, sz, how) in group(cx, cx.pick(zoo(cx, 3, hows=["slice", "vec", "usr"]), 150), 8, tag="zoo"):
        a = dense(s, L, how, sz)
        if not a or not s.operandable(a, "r"): continue
        b = dense(s, L, "slice", sz)
        b = b or a
        x = s.add(a, "r", b, "r")
        y = s.smul(s.mk(2, 1), x, s.rng.choice("or"), s.rng.choice("lr"))
        z = s.add(y, "r", a, "r")
        w = s.smul(s.mk(-1), s.ref(a), "o")
        v = s.add(z, "o", w, "o") if s.objs[w].sz == s.objs[z].sz and INDEX[s.objs[w].lay.k] == INDEX[s.objs[z].lay.k] and s.addable(z, "o", w, "o") else None
        for e in [e for e in (v, z, y, x) if e and s.readable(e)]:
            touch(s, e, 1)
            if s.evaluable(e): s.all(s.eval(e))
        s.snap()
        s.all(a)
        if not s.readable(a): continue
        for h in list(s.objs):
            if h in s.objs and s.live(h) and s.movable(h): done(s, h)
    # operands stay usable: use, release, change, use again
    for t in TYPES:
        for k in ("RM", "CM", "UT", "ASRM", "ASCM"):
            s = cx.new(t, tag="reuse")
            L = strided_lays(k, 3, 3, few=True)[-1]
            a, b = dense(s, L, "slice", acc="rw"), dense(s, Lay(INDEX[k], 3, 3), "vec")
            for i in range(4):
                x = s.add(a, "r", b, "r") if s.addable(a, "r", b, "r") else s.add(b, "r", a, "r")
                y = s.smul(s.mk(i - 1, 1), x, "r", "lr"[i % 2])
                touch(s, y, 1)
                e = s.eval(y); s.all(e)
                s.snap(); s.all(a); s.all(b)
                done(s, x)
                s.each(a); s.set1(b, i, s.val())
    for t in TYPES[:2] if not cx.thorough else TYPES:
        s = cx.new(t, tag="large")
        a, b = dense(s, Lay("RM", 13, 15), "vec"), dense(s, Lay("ASRM", 13, 15, 40, 2), "slice")
        x = s.add(s.smul(s.mk(2), a, "r"), "o", b, "r")
        s.eval(x); touch(s, x); s.snap()
    cx.walks(80, W, 40, dict(mx=4, maxobj=16), start=2)
    cx.walks(40, W, 40, special(maxobj=16), start=2, nz=True, tag="spec")


def C10(cx):
    for s, (L, sz, how) in group(cx, cx.pick(zoo(cx, 4, few=True), 220), 6, tag="zoo"):
        if sz != "DD": continue
        h = dense(s, L, how, sz)
        if not h: continue
        e = s.eval(h)
        s.all(e, wr=True); s.meta(e); s.convh(e)
        if s.settable(h): touch(s, h, 1); s.all(e)
        touch(s, e, 1); s.each(e); s.snap(); s.all(h)
        for x in wrap(s, h):
            if s.evaluable(x):
                y = s.eval(x); s.all(y); s.meta(y); s.each(y)
                z = s.eval(y); s.all(z)
        s.snap()
        done(s, h)
        s.all(e)
    for t in TYPES:
        s = cx.new(t, tag="large")
        for L in [Lay("RM", 13, 17), Lay("CM", 17, 13), Lay("ASRM", 9, 8, 30, 3), Lay("ASCM", 9, 8, 3, 30), Lay("UT", 14, 14)]:
            h = dense(s, L, "slice", acc="rw")
            e = s.eval(h)
            s.all(e); touch(s, h); touch(s, e); s.all(e); s.all(h); s.snap()
    cx.walks(60, dict(EXPR, eval=8, set=3, set1=2, each=1, slicew=1, blockm=1, split=.5, snap=1, fill=.3), 40, dict(mx=5, maxobj=16), start=2)
    cx.walks(16, dict(EXPR, eval=6), 35, spec_cfg, nz=True, start=2, tag="spec")


def wide(cx, exprs=True, count=16):
    """values that need more digits than single precision has (where the type has them)"""
    for i in range(count * (6 if cx.thorough else 1)):
        t = ["f64", "c64", "f64", "c64", "f32", "c32"][i % 6]
        s = cx.new(t, tag="wide")
        r = s.rng
        m = 2**27 if t in ("f64", "c64") else 2**20
        odd = lambda: r.choice([-1, 1]) * (r.randrange(m // 2, m) | 1)
        one = lambda: [odd(), odd()] if s.cx else odd()
        iv = lambda n: [one() for _ in range(n)]
        for k in r.sample(["RM", "CM", "ASRM", "ASCM", "UT"], 2):
            a_, b_ = (3, 3) if k == "UT" else (r.randint(1, 4), r.randint(1, 5))
            L = r.choice(strided_lays(k, a_, b_, few=True))
            if not L.injective(): continue
            h, g = dense(s, L, None, "DD", init=iv, acc="rw"), dense(s, Lay(INDEX[k], a_, b_), r.choice(["vec", "slice"]), "DD", init=iv, acc="rw")
            P = L.positions()
            for p in r.sample(P, min(3, len(P))): s.set(h, *p, one(), chk=r.random() < .5); s.set1(g, r.randrange(L.n()), one(), chk=r.random() < .5)
            s.all(h); s.all(g)
            if exprs:
                x = s.add(h, "r", g, "r") if s.addable(h, "r", g, "r") else None
                y = s.smul(s.mk(r.choice([-1, 2, 3]) if t[1:] == "64" else -1), h, "r", r.choice("lr")) if s.smulable(h, "r", s.mk(3)) else None
                for z in (x, y):
                    if not z: continue
                    s.all(z)
                    if s.evaluable(z): e = s.eval(z); s.all(e)
                w = s.ref(h); s.all(w)
                e = s.eval(w); s.all(e)
            for z in [z for z in list(s.objs)]:
                if z in s.objs and s.objs[z].src: done(s, z)
            s.each(h, iv(L.n())); s.all(h)
            if s.blockable(h):
                b = s.block(h, (0, 0), (a_, b_), mut=True)
                s.set1(b, 0, one()); s.each(b, iv(L.n())); s.all(b)
            s.snap()


def wideprod(cx, dot=False):
    """products of numbers of 14 digits, few terms"""
    for i in range(60 if cx.thorough else 12):
        t = ["f64", "c64"][i % 2] if not dot else "f64"
        s = cx.new(t, tag="wprod")
        r = s.rng
        odd = lambda m: r.choice([-1, 1]) * (r.randrange(m // 2, m) | 1)
        iv = lambda m: lambda n: [[odd(m), odd(m)] if s.cx else odd(m) for _ in range(n)]
        M = 2**14 if not s.cx else 2**12
        for _ in range(3):
            m, k, n = r.randint(1, 3), r.randint(1, 2), r.randint(1, 3)
            f = lambda a, b, mm: dense(s, r.choice([l for l in strided_lays(r.choice(FOURK), a, b, few=True) if l.injective()]), r.choice(["slice", "vec"]), "DD", "rw", init=iv(mm))
            a, b, c = f(m, k, M), f(k, n, M), f(m, n, M)
            if dot:
                if s.dotable(a, b): e = s.dot(a, b); s.all(e)
                continue
            if s.matmulable(s.mk(1), a, b, s.mk(1), c): s.matmul(s.mk(1), a, b, s.mk(1), c)
            one = s.mk(1)
            g, c2 = f(m, k, 8), f(m, n, 64)
            if s.matmulable(s.val(2), g, b, one, c2): s.matmul(s.mk(-2), g, b, s.mk(3), c2) if s.matmulable(s.mk(-2), g, b, s.mk(3), c2) else s.matmul(one, g, b, one, c2)
        s.snap()


def mat(s, k, r, c, how=None, m=9, acc="rw", sz="DD"):
    """a multiplicable matrix; strided ones are embedded in a larger area or are blocks"""
    rr = s.rng
    iv = lambda n: [s.val(m) for _ in range(n)]
    if how == "block":
        base = INDEX[k]
        a, b, e, f = [rr.randint(0, 2) for _ in range(4)]
        h = dense(s, Lay(base, r + a + e, c + b + f), rr.choice(["vec", "slice", "usr"]), "DD", "rw", init=iv)
        return s.block(h, (a, b), (r, c), mut=acc == "rw")
    L = rr.choice([l for l in strided_lays(k, r, c, few=True) if l.injective()])
    return dense(s, L, how or rr.choice(["slice", "vec", "ptr", "usr"]), sz, acc, init=iv)


def tweak(s, h):
    """write one element of a matrix or a few, rarely the first or the last"""
    r, o = s.rng, s.objs[h]
    n = o.lay.n()
    if not n: return
    mid = list(range(1, n - 1)) or [0]
    p = o.lay.positions()
    order = p if o.lay.k == "UT" or o.lay.k in ROWK else sorted(p, key=lambda q: (q[1], q[0]))
    i = r.choice(mid)
    if o.t == "refm" or o.acc == "ro" or not s.writable(h): return
    w = r.choice(["set", "set", "set1", "set1", "uset", "refm", "block", "stop", "slicew"])
    if w == "block" and (o.sz != "DD" or not s.blockable(h)): w = "set"
    v = s.val(3)
    if w in ("set", "uset"): s.set(h, *order[i], v, chk=w == "set")
    elif w == "set1": s.set1(h, i, v)
    elif w == "refm":
        g = s.refm(h); s.set(g, *order[i], v); s.drop(g)
    elif w == "block":
        g = s.block(h, order[i], (1, 1), mut=True); s.set(g, 0, 0, v); s.drop(g)
    elif w == "stop": s.each(h, [s.val(3) for _ in range(n)], stop=r.randint(1, n))
    else:
        q = o.lay.raw(*order[i])
        s.slicew(h, q, q + 1, [v])


def again(cx, what, rounds=5, cls=S, types=TYPES):
    """the same call with the same objects, elements of which were written in
    between; then with others in the same place"""
    dims = [(2, 2, 2), (2, 3, 2), (3, 4, 5), (1, 5, 3), (4, 3, 1), (9, 8, 3), (4, 9, 9), (5, 5, 5)]
    for i in range(96 if cx.thorough else 12):
        s = cx.new(types[i % len(types)], tag="again", cls=cls)
        r = s.rng
        m, k, n = r.choice(dims) if cls is S else r.choice(dims[:5])
        if what in ("add", "smul", "all"): k = m; n = max(n, 2)
        made = 0
        size = lambda x, y: x * y + 2 * (x + y) + 8
        arenas = [s.arena(init=[s.val(3) for _ in range(size(x, y))]) for x, y in ((m, k), (k, n))]
        for turn in range(3):
            kinds = [r.choice(FOURK) for _ in range(2)]
            if what in ("add", "smul", "all"): kinds[1] = r.choice([q for q in FOURK if INDEX[q] == INDEX[kinds[0]]])
            hs = []
            for b, kd, (x, y) in zip(arenas, kinds, ((m, k), (k, n)) if what in ("matmul", "dot") else ((m, n), (m, n))):
                st = {"RM": (0, 0), "CM": (0, 0), "ASRM": (y, 1), "ASCM": (1, x)}[kd]
                hs.append(s.over(b, 2, x * y, Lay(kd, x, y, *st), "DD", "rw", "slice"))
            a, b = hs
            c = dense(s, Lay(r.choice(["RM", "CM"]), m, n), "vec", "DD", init=lambda q: [s.val(3) for _ in range(q)]) if what == "matmul" else None
            al = coef(s) if r.random() < .5 else s.mk(1)
            for q in range(rounds):
                if what == "matmul":
                    if s.matmulable(al, a, b, s.mk(0), c): s.matmul(al, a, b, s.mk(0), c)
                elif what == "dot":
                    if s.dotable(a, b): d = s.dot(a, b); s.all(d); s.drop(d)
                else:
                    x = s.add(a, "r", b, "r") if what != "smul" else s.smul(s.val(3), a, "r", r.choice("lr"))
                    if what == "all": s.all(x)
                    else: e = s.eval(x); s.all(e); s.drop(e)
                    s.drop(x)
                for _ in range(r.choice([1, 1, 2])): tweak(s, r.choice(hs))
            for x in hs + ([c] if c else []): s.drop(x)
        s.snap()


def coef(s):
    return s.rng.choice([s.mk(0), s.mk(1), s.mk(-1), s.mk(2), s.val(3)] + ([[0, 1], [1, -1]] if s.cx else []))


def C11(cx):
    triple = list(itertools.product(FOURK, repeat=3))
    items = []
    for t in TYPES:
        for ks in cx.pick(triple, 30):
            items.append((t, ks, tuple(cx.rng.randint(0 if cx.rng.random() < .15 else 1, 4) for _ in range(3))))
    cx.rng.shuffle(items)
    items.sort(key=lambda x: x[0])
    for t, g in itertools.groupby(items, key=lambda x: x[0]):
        for s, (_, ks, (m, k, n)) in group(cx, g, 6, t, tag="mm"):
            a = mat(s, ks[0], m, k, s.rng.choice([None, None, "block"]), acc=s.rng.choice(["ro", "rw"]))
            b = mat(s, ks[1], k, n, s.rng.choice([None, None, "block"]), acc=s.rng.choice(["ro", "rw"]))
            c = mat(s, ks[2], m, n, s.rng.choice([None, None, "block"]))
            for _ in range(3):
                al, be = coef(s), coef(s)
                if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, s.rng.choice([0, 0, None]))
            if s.matmulable(s.mk(1), a, a, s.mk(1), c): s.matmul(s.mk(1), a, a, s.mk(1), c)
            s.snap()
    # vectors
    for t in TYPES:
        for _ in range(8 if cx.thorough else 2):
            s = cx.new(t, tag="vec")
            for kv in ("CV", "ASCV"):
                for kc in ("CV", "ASCV"):
                    m, k = s.rng.randint(0, 4), s.rng.randint(0, 4)
                    a = mat(s, s.rng.choice(FOURK), m, k)
                    b = mat(s, kv, k, 1, s.rng.choice(["slice", "vec", "zeros"]), sz="D1")
                    c = mat(s, kc, m, 1, s.rng.choice(["slice", "vec", "zeros"]), sz="D1")
                    for _ in range(2):
                        al, be = coef(s), coef(s)
                        if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, s.rng.choice([0, 0, None]))
            for kv in ("RV", "ASRV"):
                for kc in ("RV", "ASRV"):
                    k, n = s.rng.randint(0, 4), s.rng.randint(0, 4)
                    a = mat(s, kv, 1, k, s.rng.choice(["slice", "vec", "zeros"]), sz="1D")
                    b = mat(s, s.rng.choice(FOURK), k, n)
                    c = mat(s, kc, 1, n, s.rng.choice(["slice", "vec", "zeros"]), sz="1D")
                    for _ in range(2):
                        al, be = coef(s), coef(s)
                        if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, s.rng.choice([0, 0, None]))
            s.snap()
    # row/column shaped and vector-layout operands of unfixed size
    for t in TYPES:
        s = cx.new(t, tag="ddv")
        for ka, kb, kc, (m, k, n) in [("RV", "RM", "RV", (1, 3, 2)), ("RM", "CV", "CV", (3, 2, 1)), ("CV", "RV", "RM", (3, 1, 2)), ("RV", "CV", "RM", (1, 3, 1)), ("ASRV", "CM", "RM", (1, 2, 3)), ("CM", "ASCV", "ASCV", (2, 3, 1)), ("ASCV", "ASRV", "CM", (2, 1, 3))]:
            a, b, c = mat(s, ka, m, k, "slice"), mat(s, kb, k, n, "slice"), mat(s, kc, m, n, "slice")
            for _ in range(2):
                al, be = coef(s), coef(s)
                if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, s.rng.choice([0, 0, None]))
        s.snap()
    # all small dimensions, empty included
    for t in TYPES:
        for s, (m, k, n) in group(cx, cx.pick(itertools.product(range(4), repeat=3), 24), 6, t, tag="dims"):
            ks = [s.rng.choice(FOURK) for _ in range(3)]
            a, b, c = mat(s, ks[0], m, k), mat(s, ks[1], k, n), mat(s, ks[2], m, n)
            for al, be in [(s.mk(0), s.mk(0)), (s.mk(1), s.mk(0)), (s.mk(0), s.mk(1)), (s.mk(2), s.mk(-1)), (coef(s), coef(s))]:
                if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, s.rng.choice([0, 0, None]))
            s.snap()
    # sizes around the blocking of the kernels
    sz = [(17, 16, 9), (8, 33, 5), (65, 3, 2), (3, 70, 4), (2, 5, 66)] + ([(33, 33, 33), (64, 65, 12), (12, 257, 9), (130, 4, 16), (9, 16, 129)] if cx.thorough else [])
    for t in TYPES:
        for (m, k, n) in sz:
            s = cx.new(t, tag="large")
            ks = [s.rng.choice(FOURK) for _ in range(3)]
            a, b, c = [mat(s, q, x, y, s.rng.choice([None, "block"]), m=5) for q, x, y in zip(ks, (m, k, m), (k, n, n))]
            al, be = s.rng.choice([s.mk(1), s.mk(2), s.mk(-1, 1)]), s.rng.choice([s.mk(0), s.mk(1), s.mk(2, 1)])
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, s.rng.choice([0, 0, None]))
    W = dict(mk=3, block=2, blockm=2, matmul=10, split=1, set=1, drop=1.5, all=1, snap=.5, dot=1, eval=.5, each=.5)
    cx.walks(50, W, 35, dict(mx=4, kinds=FOURK + ["RV", "CV"], over=0, maxobj=12, val=lambda s: s.val(3), init=lambda s: s.val(3)), start=3)


def C12(cx):
    for t in TYPES:
        # all combinations of dimensions around matching ones
        for s, (m, k, n) in group(cx, cx.pick(itertools.product(range(1, 4), repeat=3), 9), 3, t, tag="mis"):
            for dm in [(0, 0, 0, 0, 0, 0)] + [tuple(d * (i == j) for i in range(6)) for j in range(6) for d in (-1, 1)] + [(1, 1, 0, 0, 1, 1), (0, 1, 0, 0, 0, 0), (1, 0, 0, 0, 1, 0), (0, 1, 1, 0, 0, 0), (0, 0, 0, 1, 0, 1), (1, 0, 0, 1, 0, 0)]:
                if not cx.thorough and s.rng.random() < .4: continue
                x = [max(0, v + d) for v, d in zip((m, k, k, n, m, n), dm)]
                a, b, c = mat(s, s.rng.choice(FOURK), x[0], x[1], m=3), mat(s, s.rng.choice(FOURK), x[2], x[3], m=3), mat(s, s.rng.choice(FOURK), x[4], x[5], m=3)
                al, be = coef(s), coef(s)
                if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
                if s.dotable(a, b):
                    d = s.dot(a, b)
                    if d: s.all(d); s.meta(d)
                s.snap()
                for h in list(s.objs):
                    if h in s.objs and s.live(h) and s.movable(h): done(s, h)
        for rep in range(6 if cx.thorough else 2):
            s = cx.new(t, tag="vec")
            for _ in range(10):
                if s.rng.random() < .5:
                    m, k = s.rng.randint(0, 3), s.rng.randint(0, 3)
                    d, e = s.rng.choice([(0, 0), (1, 0), (0, 1), (1, -1), (-1, 0), (0, -1)])
                    a = mat(s, s.rng.choice(FOURK), m, k)
                    b = mat(s, s.rng.choice(["CV", "ASCV"]), max(0, k + d), 1, s.rng.choice(["slice", "vec"]), sz="D1")
                    c = mat(s, s.rng.choice(["CV", "ASCV"]), max(0, m + e), 1, s.rng.choice(["slice", "vec"]), sz="D1")
                else:
                    k, n = s.rng.randint(0, 3), s.rng.randint(0, 3)
                    d, e = s.rng.choice([(0, 0), (1, 0), (0, 1), (1, -1), (-1, 0), (0, -1)])
                    a = mat(s, s.rng.choice(["RV", "ASRV"]), 1, max(0, k + d), s.rng.choice(["slice", "vec"]), sz="1D")
                    b = mat(s, s.rng.choice(FOURK), k, n)
                    c = mat(s, s.rng.choice(["RV", "ASRV"]), 1, max(0, n + e), s.rng.choice(["slice", "vec"]), sz="1D")
                al, be = coef(s), coef(s)
                if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
                if s.dotable(a, b):
                    d = s.dot(a, b)
                    if d: s.all(d, wr=True); s.meta(d); s.convh(d); s.each(d); s.snap()
    for s, (ka, kb, (m, k, n)) in group(cx, cx.pick(itertools.product(FOURK, FOURK, [(2, 3, 4), (4, 2, 3), (1, 3, 1), (3, 1, 2), (0, 2, 3), (2, 0, 3), (2, 3, 0), (3, 3, 3)]), 64), 5, "f64", tag="dot"):
        a, b = mat(s, ka, m, k, s.rng.choice([None, "block"]), acc=s.rng.choice(["ro", "rw"])), mat(s, kb, k, n, s.rng.choice([None, "block"]), acc=s.rng.choice(["ro", "rw"]))
        if s.dotable(a, b):
            d = s.dot(a, b)
            s.all(d); s.meta(d); s.all(a); s.all(b); s.snap()
        if s.dotable(a, a):
            d = s.dot(a, a)
            if d: s.all(d)
    for (m, k, n) in [(17, 9, 8), (5, 33, 9), (1, 66, 1), (40, 1, 3)]:
        s = cx.new("f64", tag="large")
        a, b = mat(s, "RM", m, k), mat(s, "CM", k, n)
        d = s.dot(a, b); s.all(d); s.snap()
    for ka, kb, sz in [("RM", "CV", "D1"), ("CM", "CV", "D1")]:
        s = cx.new("f64", tag="dv")
        a, b = mat(s, ka, 19, 7), mat(s, kb, 7, 1, "vec", sz="D1")
        s.all(s.dot(a, b))
        a, b = mat(s, "RV", 1, 19, "vec", sz="1D"), mat(s, ka, 19, 6)
        s.all(s.dot(a, b)); s.snap()
    W = dict(mk=3, block=2, blockm=1, matmul=4, dot=6, set=1, drop=1.5, all=1, snap=.5, eval=.5, each=.5, split=.5)
    cx.walks(40, W, 35, dict(mx=4, kinds=FOURK + ["RV", "CV"], over=0, maxobj=12, val=lambda s: s.val(3), init=lambda s: s.val(3)), types=["f64", "f64", "c64", "f32"], start=3)


def C13(cx):
    for t in TYPES:
        for via, k in [("dim", k) for k in BASEK] + [("mat", "RM"), ("matrm", "RM"), ("matcm", "CM"), ("rvdim", "RV"), ("cvdim", "CV")]:
            s = cx.new(t, tag="dim")
            for r, c in list(itertools.product(range(5), repeat=2)) + [(7, 3), (3, 7), (16, 5), (1, 33), (33, 1), (12, 12)]:
                if not cx.thorough and s.rng.random() < .35 and not (r == c or 1 in (r, c)): continue
                h = s.zeros(via, k, r, c)
                if not h: continue
                s.meta(h); s.all(h, wr=True)
                if r * c < 30: s.convh(h); s.each(h)
                elif s.rng.random() < .5: s.each(h)
                if s.rng.random() < .4:     # a second one is not affected and zero again
                    g = s.zeros(via, k, r, c)
                    s.all(g); s.all(h)
                    s.drop(g)
                s.drop(h)
        s = cx.new(t, tag="len")
        for n in [0, 1, 2, 3, 4, 7, 20, 33]:
            for via, k in [("rvlen", "RV"), ("vecrv", "RV"), ("cvlen", "CV"), ("vec", "CV"), ("veccv", "CV")]:
                h = s.zeros(via, k, 1 if k == "RV" else n, n if k == "RV" else 1)
                s.meta(h); s.all(h, wr=True); s.convh(h); s.each(h); s.all(h)
        s.snap()
        s = cx.new(t, tag="fix")
        hs = []
        for h in fixed_all(s):
            s.meta(h); s.all(h, wr=True); s.convh(h); probe_all(s, h, huge=False)
            s.each(h)
            hs.append(h)
        for h in fixed_all(s): s.all(h)
        for h in hs: s.all(h)
        s.snap()
        s = cx.new(t, tag="cont")
        for n in (1, 4, 6, 9):
            for k in ("RM", "CM", "UT", "ASRM", "RV", "CV"):
                L = Lay(k, 1 if k in ("RV", "UT") else min(n, 2), 1 if k in ("CV", "UT") else min(n, 2), *((2, 1) if k == "ASRM" else (0, 0)))
                h = s.new(n, L, "DD", "arr")
                if h: s.all(h); s.meta(h)
                h = s.new(n, L, "DD", "vec")
                if h: s.all(h); s.meta(h)
        s = cx.new(t, tag="rand")
        for via, k in [("rmat", "RM"), ("rmatrm", "RM"), ("rmatcm", "CM"), ("rvec", "CV"), ("rveccv", "CV"), ("rvecrv", "RV")]:
            for r, c in [(0, 0), (1, 1), (2, 3), (3, 2), (5, 1), (1, 5), (9, 11)]:
                if k == "RV": r = 1
                if k == "CV": c = 1
                s.emit("rmac", k=k, r=r, c=c, via=via)
        s = cx.new(t, tag="fd")
        for k in BASEK:
            for r, c in itertools.product(range(5), repeat=2): s.layout("fromdim", Lay(k, r, c))
        for n in range(6):
            s.layout("fromlen", Lay("RV", 1, n)); s.layout("fromlen", Lay("CV", n, 1))
    W = dict(mk=6, drop=1, set=3, all=2, meta=2, eval=1, snap=1, each=1, block=1)
    cx.walks(24, W, 30, dict(mx=6, how=["zeros", "zeros", "vec", "arr"], kinds=BASEK, init=False, maxobj=12))


def C14(cx):
    # containers of every length around what the layout needs
    lays = [L for L in any_layouts(3)]
    for s, L in group(cx, cx.pick(lays, 220), 10, tag="fit"):
        need = max(L.extent(), L.n())
        for ln in sorted({0, max(0, L.n() - 1), L.n(), max(0, L.extent() - 1), L.extent(), L.extent() + 1, max(0, need - 2), need + 2}):
            how = s.rng.choice(["slice", "usr", "vec", "arr"])
            acc = s.rng.choice(["ro", "rw"])
            sz = s.rng.choice(sizes_of(L.k))
            if how == "arr" and (ln not in (1, 4, 6, 9) or sz != "DD" or L.k in ("ASRV", "ASCV")): how = "vec"
            if how in ("slice", "usr"):
                b = s.arena(ln + 4)
                h = s.over(b, 2, ln, L, sz, acc, how)
            else: h = s.new(ln, L, sz, how)
            if h:
                if ln == need:
                    s.all(h, wr=s.settable(h))
                    if s.settable(h): touch(s, h, 1)
                    s.snap()
                done(s, h)
    # raw slices of every range
    for s, (L, sz, how) in group(cx, cx.pick(zoo(cx, 3), 60), 4, tag="slice"):
        h = dense(s, L, how, sz)
        if not h: continue
        n = s.objs[h].len
        R = [(f, t) for f in range(n + 3) for t in range(n + 3)]
        R = s.rng.sample(R, min(len(R), 40)) + [(0, n), (0, n + 1), (n, n), (n, n + 1), (n - 1, n) if n else (0, 0), (0, 0), (-1, 0), (0, -1), (-1, -1), (-2, -1), (-3, -1), (1, -1), (-4, -3), (0, -3)]
        for f, t in R:
            if s.writable(h) and s.rng.random() < .5: s.slicew(h, f, t)
            else: s.slice(h, f, t)
        if s.blockable(h) and L.r and L.c:
            x = s.block(h, (L.r // 2, L.c // 2), (L.r - L.r // 2, L.c - L.c // 2), mut=s.writable(h))
            n = s.objs[x].len
            for f, t in [(f, t) for f in range(n + 3) for t in range(n + 3)][:60] + [(0, -1), (-1, -1)]:
                if s.writable(x) and s.rng.random() < .5: s.slicew(x, f, t)
                else: s.slice(x, f, t)
        s.snap()
        done(s, h)
    # blocks never leave the container, whatever is asked for
    for s, (k, (R, C)) in group(cx, itertools.product(FOURK, [(3, 3), (1, 4), (4, 1), (0, 3), (2, 5)]), 2, tag="blk"):
        L = s.rng.choice(strided_lays(k, R, C, few=True))
        h = dense(s, L, "slice", acc="rw")
        for _ in range(30):
            (a, b) = window(s, h, .5)
            x = s.block(h, a, b, mut=s.rng.random() < .5)
            if x:
                s.all(x, wr=s.settable(x)); s.meta(x)
                if s.settable(x): s.each(x) if not s.objs[x].overlap else None
                probe_all(s, x, huge=False) if s.rng.random() < .3 else None
                done(s, x)
        if k == "RM":
            for _ in range(8):
                q = s.split(h, (s.rng.choice([s.rng.randint(0, R + 2)] + HUGE[:2]), s.rng.choice([s.rng.randint(0, C + 2)] + HUGE[:2])))
                if q:
                    for x in q: s.all(x, wr=True)
                    for x in q: done(s, x)
        s.snap()
    for f in ("fit", "fit", "all"):
        for _ in range(8 if cx.thorough else 2): huge_session(cx, 50, f)
    s = cx.new("f64", tag="blen")
    for n in range(5):
        for ln in range(7): s.emit("blen", len=ln, n=n)
    W = dict(READ, over=3, newbad=2, slice=4, slicew=4, probe=3, split=1, snap=1, each=1, eval=1)
    cx.walks(60, W, 40, dict(mx=5, over=.2))


def C15(cx):
    for s, (L, sz, how) in group(cx, cx.pick(zoo(cx, 3, few=True), 260), 8, tag="zoo"):
        h = dense(s, L, how, sz, acc="rw")
        if not h or s.objs[h].overlap: continue
        s.each(h); s.all(h)
        if L.n(): s.each(h, stop=s.rng.randint(1, L.n())); s.snap()       # the function panics
        if s.draws < 2000: s.fill(h); s.all(h)
        if s.rng.random() < .5: s.each(h)
        if s.rng.random() < .5 and s.draws < 2000: s.fill(h); s.all(h)
        if s.blockable(h) and L.r and L.c:
            x = s.block(h, *window(s, h, 0), mut=True)
            if x:
                s.each(x, stop=s.rng.choice([0, s.rng.randint(0, s.objs[x].lay.n())])); s.all(x)
                if s.draws < 2000: s.fill(x)
                if s.readable(x): s.all(x)
        s.snap()
        done(s, h)
    for t in TYPES:
        s = cx.new(t, tag="fix")
        for h in fixed_all(s): s.each(h); s.each(h, stop=s.rng.randint(1, s.objs[h].lay.n())); s.fill(h); s.all(h)
        for L in [Lay("RM", 9, 13), Lay("CM", 13, 9), Lay("UT", 12, 12), Lay("ASRM", 7, 8, 30, 3), Lay("ASCM", 8, 7, 2, 20), Lay("RV", 1, 40), Lay("CV", 40, 1)]:
            s = cx.new(t, tag="large")
            h = dense(s, L, "slice", acc="rw")
            s.each(h); s.fill(h); s.all(h); s.each(h, stop=s.rng.randint(1, L.n())); s.snap(); s.fill(h); s.snap()
        s = cx.new(t, tag="two")       # several matrices share one generator
        hs = [dense(s, rlay(s.rng, ALLK, 5, 0), None, acc="rw") for _ in range(6)]
        for _ in range(12):
            h = s.rng.choice(hs)
            if s.draws < 2200: s.fill(h)
            if s.rng.random() < .5: s.rscal()
            s.all(s.rng.choice(hs))
        s.snap()
    W = dict(mk=3, drop=1, each=6, fill=5, rscal=1, blockm=4, split=2, set=2, all=2, snap=1, eval=1, get1=1, refm=.3)
    cx.walks(60, W, 30, dict(mx=5, over=0, kinds=ALLK + ["RM"]))
    cx.walks(16, W, 30, special(over=0, kinds=ALLK + ["RM"]), nz=True, tag="spec")


def C16(cx):
    for s, (L, sz, how) in group(cx, cx.pick(zoo(cx, 3, few=True), 130), 5, tag="zoo"):
        h = dense(s, L, how, sz)
        if not h: continue
        x = s.ref(h)
        s.all(x); s.meta(x); s.convh(x); probe_all(s, x, huge=s.rng.random() < .3)
        touch(s, x, 1)
        y = s.ref(x)
        s.all(y); s.meta(y); s.convh(y)
        s.all(h)
        if s.operandable(y, "r") and s.addable(y, "r", x, "r"):
            e = s.add(y, "r", x, "r"); s.all(e)
            g = s.ref(e)
            s.all(g); s.meta(g); s.convh(g)
            if s.evaluable(g): s.all(s.eval(g))
            k = s.smul(s.mk(2), x, "r"); g = s.ref(k); s.all(g); s.meta(g)
        if s.evaluable(x): s.all(s.eval(x))
        for q in [q for q in list(s.objs) if h in s.objs.get(q, Obj("", None, "", "")).src]: done(s, q)
        if s.settable(h):
            m = s.refm(h)
            s.all(m, wr=True); s.meta(m); s.convh(m); touch(s, m)
            probe_all(s, m, huge=s.rng.random() < .3)
            z = s.ref(m); s.all(z); s.meta(z); done(s, z)
            n = s.refm(m)
            s.all(n, wr=True); s.meta(n); s.convh(n); touch(s, n); s.all(n)
            done(s, m)
            s.all(h)
            if s.blockable(h) and L.r and L.c:
                b = s.block(h, *window(s, h, 0), mut=True)
                m = s.refm(b)
                s.all(m, wr=True); s.meta(m); touch(s, m, 1)
        s.snap()
        done(s, h)
    for t in TYPES:
        s = cx.new(t, tag="fix")
        for h in fixed_all(s):
            s.each(h); x = s.ref(h); s.all(x); s.meta(x); s.convh(x); y = s.ref(x); s.all(y); s.meta(y); done(s, x)
            m = s.refm(h); s.all(m, wr=True); touch(s, m); s.meta(m); done(s, h)
        s = cx.new(t, tag="large")
        for L in [Lay("RM", 9, 7), Lay("ASCM", 5, 9, 3, 20), Lay("UT", 9, 9)]:
            h = dense(s, L, "slice", acc="rw")
            x = s.ref(s.ref(h)); s.all(x); s.meta(x)
            for q in [q for q in list(s.objs) if h in s.objs.get(q, Obj("", None, "", "")).src]: done(s, q)
            m = s.refm(s.refm(h)); touch(s, m); s.all(m, wr=True); s.snap()
    W = dict(mk=2, ref=6, refm=5, drop=3, block=2, blockm=2, split=.5, add=2, smul=2, eval=1, get=2, uget=1, get1=2, uget1=1, set=3, uset=2, set1=3, uset1=2, all=2, meta=2, convh=1, probe=2, snap=1)
    cx.walks(70, W, 45, dict(mx=4, maxobj=14))
    cx.walks(20, W, 40, special(maxobj=14), nz=True, tag="spec")


def C17(cx):
    """The same logical program in different layouts, containers and types."""
    combos = [("RM", "vec"), ("CM", "vec"), ("RM", "slice"), ("CM", "slice"), ("ASRM", "slice"), ("ASCM", "slice"),
              ("ASRM", "ptr"), ("ASCM", "vec"), ("RM", "usr"), ("CM", "usr"), ("ASRM", "usr"), ("RM", "blk"), ("CM", "blk"), ("ASRM", "blk"), ("ASCM", "blk")]
    combos.append(("mix", "mix"))
    dims = [(1, 3, 2), (2, 1, 3), (3, 2, 1), (4, 4, 4), (1, 4, 1), (1, 1, 5), (5, 1, 1), (9, 17, 5), (2, 3, 4), (8, 8, 8), (1, 9, 8), (16, 3, 2), (3, 33, 2), (2, 5, 31), (7, 6, 13), (1, 1, 1),
            (1, 33, 3), (33, 2, 1), (5, 16, 7), (12, 1, 12)]
    for p in range(90 if cx.thorough else len(dims)):
        if p < len(dims): d = dims[p]
        else: d = tuple(cx.rng.choice([1, 1, 2, 3, 4, 5, 6, 9, 15, 17]) for _ in range(3))
        for i, (k, how) in enumerate(combos):
            if not cx.thorough and d[0] * d[1] * d[2] > 300 and i % 2 != p % 2: continue
            for t in (TYPES if cx.thorough else [TYPES[(i + p + i // 4) % 4]]):
                s = cx.new(t, tag="var%d-" % p)
                logical(s, random.Random("%s/%s/%d" % (cx.prop, cx.seed, p)), k, how, d)
    W = dict(READ, mk=3, add=2, smul=2, eval=2, matmul=2, dot=1, each=2, fill=.5, split=2, slicew=1, convh=.5, meta=.5, snap=2, refm=2)
    cx.walks(90, W, 50, dict(mx=5, maxobj=16), start=2)


def logical(s, r, k, how, dims):
    """r decides the logical program, k/how its representation"""
    def mk(R, C, like=None):
        kk, hw = k, how
        if k == "mix": kk, hw = s.rng.choice(["RM", "CM", "ASRM", "ASCM"] if not like else [q for q in FOURK if INDEX[q] == INDEX[s.objs[like].lay.k]]), s.rng.choice(["vec", "slice", "usr", "blk", "ptr"])
        vals = [s.mk(r.randint(-9, 9)) for _ in range(R * C)]
        if hw == "blk":
            base = INDEX[kk] if s.rng.random() < .7 else STRIDED[kk]
            L = s.rng.choice([l for l in strided_lays(base, R + 2, C + 2, few=True) if l.injective()])
            h = s.block(dense(s, L, "slice", "DD", "rw"), (1, 1), (R, C), mut=True)
        else:
            L = s.rng.choice([l for l in strided_lays(kk, R, C, few=True) if l.injective()])
            h = dense(s, L, hw, "DD", "rw", init=False)
        if R * C > 60 and s.rng.random() < .8:      # in storage order of the logical form, not of the layout
            P = [(i, j) for i in range(R) for j in range(C)]
            P.sort(key=lambda p: p if INDEX[s.objs[h].lay.k] == "RM" else (p[1], p[0]))
            s.each(h, [vals[i * C + j] for i, j in P])
        else:
            for i in range(R):
                for j in range(C): s.set(h, i, j, vals[i * C + j])
        return h
    m, kk, n = dims
    a, b, c = mk(m, kk), mk(kk, n), mk(m, n)
    d = mk(m, n, c)
    s.all(a)
    s.matmul(s.mk(r.randint(-2, 2)), a, b, s.mk(r.randint(-2, 2)), c)
    s.all(c)
    x = s.add(c, "r", d, "r")
    y = s.smul(s.mk(r.randint(-3, 3)), x, "r", r.choice("lr"))
    z = s.add(y, "r", c, "r")
    s.all(z)
    e = s.eval(z)
    s.all(e)
    for q in (x,): done(s, q)
    (p0, p1) = r.randrange(m), r.randrange(n)
    w = s.block(c, (p0, p1), (r.randint(1, m - p0), r.randint(1, n - p1)), mut=True)
    s.set(w, 0, 0, s.mk(r.randint(-9, 9)))
    s.all(w)
    done(s, w)
    s.all(c)
    v = s.block(c, (p0, p1), (r.randint(1, m - p0), r.randint(1, n - p1)))
    u = s.smul(s.mk(2), v, "r")
    g = s.eval(u)
    s.all(g)
    done(s, v)
    s.matmul(s.mk(1), a, b, s.mk(1), e)
    s.all(e); s.all(d)
    mr = s.refm(d)
    s.set(mr, m - 1, n - 1, s.mk(r.randint(-9, 9)))
    done(s, mr)
    s.all(d)
    s.snap()


def walkf(cx, count, n, **w):
    """random walks with floating-point values"""
    W = dict(dict(READ, mk=3, add=2, smul=2, eval=2, each=1, snap=1, drop=1, ref=.5, refm=.5, set=1, set1=1, block=1, blockm=1), **w)
    cx.walks(count, W, n, dict(mx=4, maxobj=12, over=0), start=2, tag="fl", cls=F)


def C18(cx):
    # products: layouts, views, dimensions, coefficients
    dims = [(1, 1, 1), (2, 3, 4), (3, 2, 1), (1, 4, 3), (4, 1, 2), (2, 8, 2), (3, 17, 1), (1, 33, 2), (9, 2, 5), (2, 0, 3), (5, 5, 5)]
    for i in range(900 if cx.thorough else 72):
        t = TYPES[i % 4]
        s = cx.new(t, tag="mm", cls=F)
        m, k, n = dims[i // 4 % len(dims)] if s.rng.random() < .7 else [s.rng.randint(1, 6) for _ in range(3)]
        if s.cx and m * k * n > 40: m, n = min(m, 3), 1
        ks = [s.rng.choice(FOURK) for _ in range(3)]
        a = mat(s, ks[0], m, k, s.rng.choice([None, None, "block"]))
        b = mat(s, ks[1], k, n, s.rng.choice([None, None, "block"]))
        c = mat(s, ks[2], m, n, s.rng.choice([None, None, "block"]))
        for al, be in s.rng.sample([(s.mk(1), s.mk(0)), (s.val(3), s.val(3)), (s.mk(-1), s.mk(1)), (s.mk(1), s.val(3)), (s.val(3), s.mk(0)), (s.mk(0), s.val(3))], 2):
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
        if s.dotable(a, b):
            d = s.dot(a, b)
            s.all(d)
        s.snap()
    # cancellation: rows whose products almost annihilate each other
    for i in range(120 if cx.thorough else 16):
        t = TYPES[i % 4]
        s = cx.new(t, tag="cancel", cls=F)
        n = s.rng.choice([2, 3, 6])
        half = [s.val(3) for _ in range(n)]
        neg = lambda v: [-v[0], -v[1]] if s.cx else -v
        row = half + [neg(v) for v in half]
        col = [s.val(3) for _ in range(n)]
        col = col + list(col)
        bump = lambda v: [v[0] + 1, v[1]] if s.cx else v + 1
        j = s.rng.randrange(2 * n)
        if F.mag(col[j]) < 2**(s.p - 1): col[j] = bump(col[j])
        a = dense(s, Lay(s.rng.choice(["RM", "CM"]), 1, 2 * n), "vec", "DD", init=lambda q: row)
        b = dense(s, Lay(s.rng.choice(["RM", "CM"]), 2 * n, 1), "vec", "DD", init=lambda q: col)
        c = mat(s, "RM", 1, 1)
        if s.matmulable(s.mk(1), a, b, s.mk(0), c): s.matmul(s.mk(1), a, b, s.mk(0), c)
        if s.dotable(a, b): s.all(s.dot(a, b))
        s.snap()
    # vectors
    for t in TYPES:
        for i in range(10 if cx.thorough else 3):
            s = cx.new(t, tag="vec", cls=F)
            m, k = s.rng.randint(1, 5), s.rng.randint(1, 9)
            a, b, c = mat(s, s.rng.choice(FOURK), m, k), mat(s, s.rng.choice(["CV", "ASCV"]), k, 1, s.rng.choice(["slice", "vec"]), sz="D1"), mat(s, s.rng.choice(["CV", "ASCV"]), m, 1, s.rng.choice(["slice", "vec"]), sz="D1")
            al, be = s.val(3), s.val(3)
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
            if s.dotable(a, b): s.all(s.dot(a, b))
            a, b, c = mat(s, s.rng.choice(["RV", "ASRV"]), 1, m, s.rng.choice(["slice", "vec"]), sz="1D"), mat(s, s.rng.choice(FOURK), m, k), mat(s, s.rng.choice(["RV", "ASRV"]), 1, k, s.rng.choice(["slice", "vec"]), sz="1D")
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
            if s.dotable(a, b): s.all(s.dot(a, b))
            s.snap()
    for t in TYPES:
        for m, k, n in [(17, 4, 9), (5, 65, 3), (8, 9, 8)] + ([(33, 7, 12), (6, 129, 5), (20, 20, 20)] if cx.thorough else []):
            s = cx.new(t, tag="large", cls=F)
            if s.cx: m, n = min(m, 9), 3
            a, b, c = mat(s, s.rng.choice(FOURK), m, k), mat(s, s.rng.choice(FOURK), k, n), mat(s, s.rng.choice(FOURK), m, n)
            al, be = s.val(3), s.val(3)
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
    # coefficients and operands of very different magnitude, all of which matter
    for i in range(160 if cx.thorough else 16):
        t = TYPES[i % 4]
        s = cx.new(t, tag="scale", cls=F)
        s.unit = s.rng.choice([100, -100, 40, 0] if s.p == 53 else [10, 0])
        for e in s.rng.sample([-200, -130, -60, 60, 130] if s.p == 53 else [-52, -48, -44, 8], 2):
            m, k, n = [s.rng.randint(1, 3) for _ in range(3)]
            f = lambda x, y: mat(s, s.rng.choice(FOURK), x, y, s.rng.choice([None, None, "block"]))
            a, b = f(m, k), f(k, n)
            c = dense(s, Lay(s.rng.choice(["RM", "CM"]), m, n), "vec", "DD", "rw", init=lambda q: [s.val() for _ in range(q)])
            al, be = s.val(3), s.val(3)
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, e, far=True)
    # large products of parts of different magnitude; long inner products
    big = [("f64", 32, 32, 32, 9), ("f64", 64, 64, 64, 61), ("f32", 48, 48, 48, 37), ("f64", 40, 36, 33, 19), ("c64", 32, 32, 32, 61), ("f64", 2, 1500, 2, 1), ("f32", 1, 2100, 1, 1)]
    if cx.thorough: big = big * 3 + [("f64", 128, 128, 128, 997), ("f64", 96, 100, 97, 501), ("c32", 34, 34, 34, 61), ("f32", 64, 64, 64, 67), ("f64", 3, 9000, 1, 1), ("f64", 1, 20000, 1, 1), ("c64", 1, 3000, 2, 1)]
    for t, m, k, n, lot in big:
        s = cx.new(t, tag="parts", cls=F)
        s.huge, s.lot = True, lot
        steps = [0, 0, 20, 45] if s.p == 53 else [0, 0, 12, 20]
        def f(x, y):
            x2, y2 = s.rng.choice([(x // 2, y // 2), (max(1, x // 3), max(1, y // 4)), (16, 16)])
            up = {}
            kd = s.rng.choice(["RM", "CM"])
            def val(i, j):
                e = up.setdefault((i // max(1, x2), j // max(1, y2)), s.rng.choice(steps))
                v = s.val(3)
                return [z << e for z in v] if s.cx else v << e
            order = [(i, j) for i in range(x) for j in range(y)] if kd == "RM" else [(i, j) for j in range(y) for i in range(x)]
            return dense(s, Lay(kd, x, y), s.rng.choice(["slice", "vec"]), "DD", "rw", init=lambda q: [val(*(order[z] if z < len(order) else (0, 0))) for z in range(q)])
        a, b, c = f(m, k), f(k, n), f(m, n)
        al, be = s.rng.choice([(s.mk(1), s.mk(0)), (s.val(3), s.mk(0)), (s.val(3), s.val(3))])
        if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
        if s.dotable(a, b) and (m * n < 10 or cx.thorough): s.dot(a, b)
    walkf(cx, 24, 24, matmul=8, dot=4)


def C19(cx):
    import struct
    r = cx.rng
    for t in TYPES:
        wide = t[1:] == "64"
        bits = lambda v: struct.unpack("<Q", struct.pack("<d", v))[0] if wide else struct.unpack("<I", struct.pack("<f", v))[0]
        mb, eb = (52, 11) if wide else (23, 8)
        sign = 1 << (mb + eb)
        inf = ((1 << eb) - 1) << mb
        special = [0, 1, (1 << mb) - 1, 1 << mb, bits(1.0), inf - 1, inf]
        special = special + [x | sign for x in special] + [inf | 1 << (mb - 1)]
        pairs = [(a, b) for a in special for b in special]
        if t[0] == "c": pairs = [(bits(1.0), bits(-2.5)), (bits(-1.0), bits(0.0)), (0, bits(1.0))]
        else:
            bias = (1 << (eb - 1)) - 1
            man = lambda: r.choice([0, (1 << mb) - 1, r.getrandbits(mb), r.getrandbits(mb), r.getrandbits(mb)])
            num = lambda e: (e + bias) << mb | man() | sign * r.getrandbits(1)
            clamp = lambda e: max(1 - bias, min(bias, e))
            for q in range(4000 if cx.thorough else 160):
                kind = q % 8
                e = r.choice([0, 0, 1, -3, 20, r.randint(1 - bias, bias), -bias + 1, bias])
                if kind < 3: y, x = num(clamp(e)), num(clamp(e + r.randint(-3, 3)))
                elif kind == 3: y, x = num(clamp(e)), num(clamp(e + r.choice([-1, 1]) * r.randint(4, 60)))
                elif kind == 4: y, x = num(clamp(e)), num(clamp(e + r.choice([-1, 1]) * r.choice([24, 25, 53, 54, 64, 119, 120, 121, 122, 200, 1000])))
                elif kind == 5: y, x = r.getrandbits(mb) | sign * r.getrandbits(1), (r.getrandbits(mb) if r.random() < .7 else num(clamp(1 - bias + r.randint(0, 60)))) | sign * r.getrandbits(1)
                elif kind == 6:    # close to the diagonals
                    y = num(clamp(e))
                    x = (y & ~sign) + r.choice([0, 0, 1, 2, 5])
                    if x >= inf: x = inf - 1
                    x |= sign * r.getrandbits(1)
                else:
                    y, x = num(clamp(e)), r.choice([0, sign, inf, inf | sign])
                    if r.random() < .5: y, x = x, y
                pairs.append((y, x))
            # quotients of every magnitude
            step = 1 if cx.thorough else 9 if wide else 2
            for g in range(r.randrange(step), 2 * bias + mb, step):
                lo = r.randint(1 - bias, max(1 - bias, bias - g))
                y, x = num(lo) & ~sign, num(min(bias, lo + g)) & ~sign
                if lo + g > bias: y, x = max(1, (1 << (mb - (lo + g - bias))) if lo + g - bias <= mb else 1), num(bias) & ~sign
                if r.random() < .25: y, x = x, y
                pairs.append((y | sign * r.getrandbits(1), x | sign * (r.random() < .25)))
        for s, (y, x) in group(cx, pairs, 12, t, tag="ang"): s.atan2(y, x)


SUITES = dict(C18=C18, C19=C19, C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C10, C11=C11,
              C12=C12, C13=C13, C14=C14, C15=C15, C16=C16, C17=C17)


def sessions(prop, tier, seed):
    cx = Ctx(prop, tier, seed)
    SUITES[prop](cx)
    if prop in SWEEPS: SWEEPS[prop](cx)
    if prop in BULK:
        k = len(cx.out)
        BULK[prop](cx)
        for s in cx.out[k:]: s.huge = True
    if prop == "C08": again(cx, "all")
    if prop == "C09": again(cx, "smul")
    if prop == "C10": again(cx, "add")
    if prop == "C11": again(cx, "matmul")
    if prop == "C12": again(cx, "dot", types=["f64"])
    if prop == "C18": again(cx, "matmul", 3, F)
    if prop == "C17": again(cx, "matmul"); again(cx, "add")
    if prop in ("C02", "C04", "C06", "C14", "C15"): wide(cx, False)
    if prop in ("C08", "C09", "C10", "C16", "C17"): wide(cx)
    if prop in ("C11", "C12", "C17"): wideprod(cx)
    if prop == "C12": wideprod(cx, True)
    if prop == "C08": walkf(cx, 24, 30, matmul=0, add=5, smul=5)
    if prop in ("C10", "C17"): walkf(cx, 16, 30)
    if prop in ("C11", "C12"): walkf(cx, 12, 24, matmul=6, dot=3)
    return cx.out
