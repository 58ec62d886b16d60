"""Admissible programs for the driver (harness/): which calls a Rust user could
make next.  This is *not* the oracle: outcomes and values are decided by the
TLA+ specification when the recorded trace is validated.  What is tracked here
is only what is needed to produce programs that compile-time rules would allow
(ownership, borrowing, available types) and values that stay exact."""
import random

KINDS = ["RM", "CM", "RV", "CV", "UT", "ASRM", "ASCM", "ASRV", "ASCV"]
ROWK = {"RM", "ASRM", "RV", "ASRV"}
INDEX = {"RM": "RM", "ASRM": "RM", "CM": "CM", "ASCM": "CM", "RV": "RV", "ASRV": "RV",
         "CV": "CV", "ASCV": "CV", "UT": "UT"}
STRIDED = {"RM": "ASRM", "ASRM": "ASRM", "CM": "ASCM", "ASCM": "ASCM"}
NAN, PINF, NINF, NZ = 2000000001, 2000000002, 2000000003, 2000000004
FIXED = {("RM", 2, 2): "22", ("RM", 1, 2): "12", ("RM", 3, 3): "33", ("RM", 1, 3): "13", ("RM", 2, 3): "23",
         ("RM", 3, 2): "32", ("CM", 2, 2): "22", ("CM", 1, 2): "12", ("CM", 3, 3): "33", ("CM", 1, 3): "13",
         ("CM", 2, 3): "23", ("CM", 3, 2): "32", ("CV", 2, 1): "21", ("CV", 3, 1): "31", ("RV", 1, 2): "12", ("RV", 1, 3): "13"}
# huge indices as the driver codes them
HUGE = [-1, -2, -3, -4, -5, -6, -7, -8]
HUGEV = {-1: 2**64 - 1, -2: 2**64 - 2, -3: 2**63, -4: 2**63 - 1, -5: 2**32, -6: 2**32 + 1, -7: 2**64 - 3, -8: 2**62}


def big(i):
    return HUGEV[i] if i < 0 else i


class Lay:
    __slots__ = "k r c s0 s1".split()

    def __init__(self, k, r, c, s0=0, s1=0):
        self.k, self.r, self.c, self.s0, self.s1 = k, r, c, s0, s1

    def n(self):
        return self.r * (self.r + 1) // 2 if self.k == "UT" else self.r * self.c

    def stride(self):
        k = self.k
        if k == "RM": return (self.c, 1)
        if k == "CM": return (1, self.r)
        if k in ("RV", "CV", "UT"): return (1, 1)
        if k == "ASRV": return (1, self.s1)
        if k == "ASCV": return (self.s0, 1)
        return (self.s0, self.s1)

    def raw(self, i, j):
        s = self.stride()
        return i * s[0] + j * s[1]

    def extent(self):
        if self.n() == 0: return 0
        if self.k == "UT": return self.n()
        return self.raw(self.r - 1, self.c - 1) + 1

    def fits(self, n):
        return self.n() <= n and self.extent() <= n

    def stored(self, i, j):
        return 0 <= i < self.r and 0 <= j < self.c and (self.k != "UT" or j >= i)

    def index(self):
        return Lay(INDEX[self.k], self.r, self.c)

    def positions(self):
        return [(i, j) for i in range(self.r) for j in range(self.c) if self.stored(i, j)]

    def injective(self):
        if self.k == "UT": return True
        p = [self.raw(i, j) for (i, j) in self.positions()]
        return len(set(p)) == len(p)

    def f(self):
        return dict(k=self.k, r=self.r, c=self.c, s0=self.s0, s1=self.s1)


def valid(k, r, c):
    return {"RV": r == 1, "ASRV": r == 1, "CV": c == 1, "ASCV": c == 1, "UT": r == c}.get(k, True)


class Obj:
    def __init__(self, t, lay, sz, acc, **kw):
        self.t, self.lay, self.sz, self.acc = t, lay, sz, acc
        self.buf, self.off, self.len = kw.get("buf", 0), kw.get("off", 0), kw.get("len", 0)
        self.src = set(kw.get("src", ()))
        self.kids = kw.get("kids", [])
        self.s = kw.get("s")
        self.moved = False
        self.usr = kw.get("usr", False)
        self.unit = kw.get("unit", 0)
        self.overlap = kw.get("overlap", False)   # elements share cells (odd strides)


class S:
    """A session under construction."""

    def __init__(self, sid, t="f64", nz=False, rng=None):
        self.id, self.t, self.nz = sid, t, nz
        self.cx = t[0] == "c"
        self.rng = rng or random.Random(sid)
        self.ops, self.objs, self.bufs = [], {}, {}
        self.unit = 0           # matrix elements are integers times 2^unit (of the object, initially of the session)
        self.nh = self.nb = 0
        self.draws = 0
        self.known = 3000       # draws of the random generator that the driver looks up
        # how large exact values may get
        self.limit = 2**23 if t in ("f32", "c32") else 2**30

    def json(self):
        return dict(id=self.id, t=self.t, nz=self.nz, e=self.unit, ops=self.ops, nd=self.known, lg=not self.huge, lot=self.lot)

    UNITS = {"f64": [0, 0, 0, -1, -3, -35, -300, 40, 300], "f32": [0, 0, 0, -1, -3, -28, 28]}

    def maxunit(self):
        return 450 if self.t[1:] == "64" else 30

    def uok(self, u):
        return abs(u) <= self.maxunit()

    def rescale(self):
        """a factor between powers of two"""
        return self.rng.choice([-60, -120, 60, -1, -2, 1] if self.t[1:] == "64" else [-24, 24, -1, -2, 1])

    @staticmethod
    def someunit(t, rng):
        return rng.choice(S.UNITS[{"c": "f"}.get(t[0], t[0]) + t[1:]])

    # -- values
    def val(self, m=50):
        r = self.rng
        if self.cx: return [r.randint(-m, m), r.randint(-m, m)]
        return r.randint(-m, m)

    def special(self, p=0.3, m=20):
        def one():
            if self.rng.random() < p: return self.rng.choice([NAN, PINF, NINF] + ([NZ] if self.nz else []) + [0])
            return self.rng.randint(-m, m)
        return [one(), one()] if self.cx else one()

    def mk(self, x, y=0):
        return [x, y] if self.cx else x

    def distinct(self, n, base=1):
        """n different values"""
        if self.cx: return [[base + i, -(base + 2 * i)] for i in range(n)]
        return [base + i for i in range(n)]

    @staticmethod
    def mag(v):
        xs = v if isinstance(v, list) else [v]
        return max(2 if x >= NAN else abs(x) for x in xs)

    @staticmethod
    def isspec(v):
        return any(x >= NAN for x in (v if isinstance(v, list) else [v]))

    # -- bookkeeping
    def H(self):
        self.nh += 1
        return self.nh

    def B(self):
        self.nb += 1
        return self.nb

    def emit(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        self.ops.append(d)

    def newbuf(self, n, bound=0, spec=False):
        b = self.B()
        self.bufs[b] = dict(len=n, bound=bound, spec=spec, tok=False, unit=self.unit)
        return b

    def live(self, h):
        return h in self.objs and not self.objs[h].moved

    def borrowers(self, h):
        return [x for x in self.objs.values() if h in x.src]

    def readable(self, h):
        return self.live(h) and not any(x.acc == "rw" for x in self.borrowers(h))

    def writable(self, h):
        return self.live(h) and not self.borrowers(h) and self.objs[h].acc in ("own", "rw")

    def settable(self, h):
        return self.writable(h) and self.objs[h].t in ("d", "refm")

    def movable(self, h):
        return self.live(h) and not self.borrowers(h)

    def dense(self, h):
        return self.objs[h].t == "d"

    def target(self, h):
        while self.objs[h].t != "d": h = self.objs[h].kids[0]
        return h

    def leaves(self, h):
        o = self.objs[h]
        return {h} if o.t == "d" else set().union(*[self.leaves(k) for k in o.kids])

    def tok(self, h):
        return any(self.bufs[self.objs[x].buf]["tok"] for x in self.leaves(h))

    def spec(self, h):
        o = self.objs[h]
        if o.t == "d": return self.bufs[o.buf]["spec"]
        return any(self.spec(k) for k in o.kids) or (o.t == "sm" and self.isspec(o.s))

    def bound(self, h):
        o = self.objs[h]
        if o.t == "d": return self.bufs[o.buf]["bound"]
        if o.t == "add": return sum(self.bound(k) for k in o.kids)
        if o.t == "sm": return max(1, self.mag(o.s)) * self.bound(o.kids[0]) * (2 if self.cx else 1)
        return self.bound(o.kids[0])

    def wrote(self, buf, v):
        b = self.bufs[buf]
        b["bound"] = max(b["bound"], self.mag(v))
        b["spec"] = b["spec"] or self.isspec(v)

    # -- construction
    def arena(self, n=None, init=None):
        init = self.distinct(n) if init is None else init
        b = self.newbuf(len(init), max([self.mag(v) for v in init] + [0]), any(map(self.isspec, init)))
        self.emit("arena", b=b, init=init)
        return b

    def over(self, b, off, ln, lay, sz="DD", acc="rw", via="slice"):
        h = self.H()
        ok = lay.fits(ln)
        if ok:
            self.objs[h] = Obj("d", lay, sz, acc, buf=b, off=off, len=ln, unit=self.bufs[b]["unit"], usr=via == "usr", overlap=not lay.injective())
        self.emit("over", h=h, b=b, off=off, len=ln, **lay.f(), sz=sz, acc=acc, via=via, out="?")
        return h if ok else None

    def free_range(self, b, off, ln, acc):
        return all(not (o.t == "d" and o.buf == b and off < o.off + o.len and o.off < off + ln and not (acc == "ro" and o.acc == "ro"))
                   for o in self.objs.values())

    def new(self, ln, lay, sz="DD", via="vec"):
        h, b = self.H(), self.newbuf(ln)
        ok = lay.fits(ln)
        if ok: self.objs[h] = Obj("d", lay, sz, "own", buf=b, off=0, len=ln, unit=self.unit, overlap=not lay.injective())
        else: del self.bufs[b]
        self.emit("new", h=h, b=b, len=ln, **lay.f(), sz=sz, via=via)
        return h if ok else None

    def zeros(self, via, k, r, c):
        lay = Lay(k, r, c)
        sz = FIXED[(k, r, c)] if via == "fixed" else "1D" if via in ("rvlen", "rvdim", "vecrv") else \
            "D1" if via in ("cvlen", "cvdim", "vec", "veccv") else "DD"
        h, b = self.H(), self.newbuf(lay.n())
        ok = valid(k, r, c)
        if ok: self.objs[h] = Obj("d", lay, sz, "own", buf=b, off=0, len=lay.n(), unit=self.unit)
        else: del self.bufs[b]
        self.emit("zeros", h=h, b=b, k=k, r=r, c=c, sz=sz, via=via)
        return h if ok else None

    def drop(self, h):
        def rm(x):
            o = self.objs.pop(x)
            for k in o.kids:
                if k in self.objs and self.objs[k].moved: rm(k)
            if o.t == "d" and o.acc == "own": del self.bufs[o.buf]
        rm(h)
        self.emit("drop", h=h)

    # -- access
    def get(self, h, r, c, chk=True):
        self.emit("get", h=h, r=r, c=c, chk=chk)

    def get1(self, h, i, chk=True):
        self.emit("get1", h=h, i=i, chk=chk)

    def set(self, h, r, c, v, chk=True):
        b = self.objs[self.target(h)].buf
        if self.objs[h].lay.stored(big(r), big(c)): self.wrote(b, v)
        self.emit("set", h=h, r=r, c=c, v=v, chk=chk, mb=b)

    def set1(self, h, i, v, chk=True):
        b = self.objs[self.target(h)].buf
        if big(i) < self.objs[h].lay.n(): self.wrote(b, v)
        self.emit("set1", h=h, i=i, v=v, chk=chk, mb=b)

    def all(self, h, wr=False):
        o = self.objs[h]
        d = dict(h=h, r=o.lay.r, c=o.lay.c)
        if o.t == "d": d["len"] = o.len
        if wr: d["wr"] = True
        self.emit("all", **d)

    def meta(self, h):
        self.emit("meta", h=h)

    def convh(self, h):
        self.emit("convh", h=h)

    def layout(self, via, lay):
        self.emit("layout", via=via, **lay.f())

    def probe(self, h, ps, mem=True):
        mb = 0
        if mem:
            t = self.target(h)
            mb = self.objs[t].buf
        self.emit("probe", h=h, ps=[dict(w=w, a=a, b=b) for (w, a, b) in ps], mb=mb)

    def slice(self, h, f, t):
        self.emit("slice", h=h, f=f, t=t)

    def slicew(self, h, f, t, vals=None):
        o = self.objs[h]
        ok = 0 <= big(f) < big(t) <= o.len
        vals = vals if vals is not None else ([self.val() for _ in range(t - f)] if ok else [])
        if ok:
            for v in vals: self.wrote(o.buf, v)
        self.emit("slicew", h=h, f=f, t=t, vals=vals, mb=o.buf)

    def each(self, h, news=None, stop=0):
        """stop: the function panics at the end of this call"""
        o = self.objs[h]
        news = news if news is not None else [self.val() for _ in range(o.lay.n())]
        for v in news: self.wrote(o.buf, v)
        self.emit("each", h=h, news=news, mb=o.buf, **(dict(stop=stop) if stop else {}))

    fl = False          # rounding mode?
    huge = False        # without the layout-free specification
    lot = 1             # compare every lot-th element of a rounded product

    def fill(self, h):
        o = self.objs[h]
        n = o.lay.n() * (2 if self.cx else 1)
        if self.draws + n > self.known - 100 or self.fl: return self.each(h)      # the driver knows this many draws
        self.draws += n
        self.bufs[o.buf]["tok"] = True
        self.emit("fill", h=h, mb=o.buf)

    def rscal(self):
        assert self.draws < self.known - 100 and not self.fl
        self.draws += 2 if self.cx else 1
        self.emit("rscal", own=self.rng.random() < .5)

    # -- views
    def blockable(self, h):
        o = self.objs[h]
        # blocks of matrices whose elements overlap in memory (e.g. stride 0) are not specified
        return o.t == "d" and o.sz == "DD" and o.lay.k in STRIDED and not o.overlap

    def blockobj(self, h, tl, bd, acc):
        o = self.objs[h]
        s = o.lay.stride()
        lay = Lay(STRIDED[o.lay.k], bd[0], bd[1], s[0], s[1])
        off = o.off + (0 if 0 in bd else o.lay.raw(*tl))
        return Obj("d", lay, "DD", acc, buf=o.buf, off=off, len=lay.extent(), src=[h], unit=o.unit, overlap=o.overlap)

    def block(self, h, tl, bd, mut=False):
        h2 = self.H()
        o = self.objs[h]
        B = [big(x) for x in list(tl) + list(bd)]
        ok = B[0] + B[2] <= o.lay.r and B[1] + B[3] <= o.lay.c
        if ok: self.objs[h2] = self.blockobj(h, tl, bd, "rw" if mut else "ro")
        self.emit("block", h=h, h2=h2, tl=list(tl), bd=list(bd), mut=mut)
        return h2 if ok else None

    def splittable(self, h):
        o = self.objs[h]
        return o.t == "d" and o.sz == "DD" and o.lay.k == "RM" and self.writable(h)

    def split(self, h, at):
        o = self.objs[h]
        hs = [self.H() for _ in range(4)]
        r, c = big(at[0]), big(at[1])
        ok = r <= o.lay.r and c <= o.lay.c
        if ok:
            R, C = o.lay.r, o.lay.c
            for q, (tl, bd) in zip(hs, [((0, 0), (r, c)), ((0, c), (r, C - c)), ((r, 0), (R - r, c)), ((r, c), (R - r, C - c))]):
                self.objs[q] = self.blockobj(h, tl, bd, "rw")
        self.emit("split", h=h, hs=hs, at=list(at))
        return hs if ok else None

    # -- lazy objects
    ZOO = {"f64", "c64"}

    def operandable(self, h, m):
        o = self.objs[h]
        ok = self.movable(h) if m == "o" else self.readable(h)
        if not ok or self.tok(h): return False
        k, z = o.lay.k, o.sz
        if z == "DD": return k in ("RM", "CM", "ASRM", "ASCM", "UT") or self.t in self.ZOO
        if z in ("1D", "D1"): return True
        return z in ("22", "23") and k in ("RM", "CM") and self.t in self.ZOO

    def addable(self, a, am, b, bm):
        if not (self.operandable(a, am) and self.operandable(b, bm)): return False
        if a == b and "o" in (am, bm): return False
        x, y = self.objs[a], self.objs[b]
        if x.sz != y.sz or INDEX[x.lay.k] != INDEX[y.lay.k]: return False
        if x.sz in ("22", "23") and x.lay.k != y.lay.k: return False
        if x.unit != y.unit: return False
        return self.bound(a) + self.bound(b) < self.limit

    def lazy(self, t, kids, modes, lay, sz, acc, s=None):
        h = self.H()
        for k, m in zip(kids, modes):
            if m == "o": self.objs[k].moved = True
        self.objs[h] = Obj(t, lay, sz, acc, src=kids, kids=list(kids), s=s, unit=self.objs[kids[0]].unit)
        return h

    def add(self, a, am, b, bm):
        x, y = self.objs[a], self.objs[b]
        if (x.lay.r, x.lay.c) != (y.lay.r, y.lay.c):
            h = self.H()
            self.emit("add", h=h, a=a, am=am, b=b, bm=bm)
            n = len(self.ops)
            for k, m in ((a, am), (b, bm)):
                if m == "o": self.drop(k)
            del self.ops[n:]
            return None
        h = self.lazy("add", [a, b], [am, bm], x.lay.index(), x.sz, "ro")
        self.emit("add", h=h, a=a, am=am, b=b, bm=bm)
        return h

    def smulable(self, a, am, s):
        return self.operandable(a, am) and max(1, self.mag(s)) * self.bound(a) * (2 if self.cx else 1) < self.limit

    def smul(self, s, a, am, side="l", e=0):
        """the scalar s * 2^e"""
        o = self.objs[a]
        if e is None: e = self.rescale()
        if not self.uok(o.unit + e): e = 0
        h = self.lazy("sm", [a], [am], o.lay, o.sz, "ro", s)
        self.objs[h].unit = o.unit + e
        self.emit("smul", h=h, s=s, e=e, a=a, am=am, side=side)
        return h

    def ref(self, a):
        o = self.objs[a]
        h = self.lazy("ref", [a], ["r"], o.lay, o.sz, "ro")
        self.emit("ref", h=h, a=a)
        return h

    def refm(self, a):
        o = self.objs[a]
        h = self.lazy("refm", [a], ["r"], o.lay, o.sz, "rw")
        self.emit("refm", h=h, a=a)
        return h

    def evaluable(self, a):
        return self.readable(a) and self.objs[a].sz == "DD"

    def eval(self, a):
        o = self.objs[a]
        lay = o.lay.index()
        h, b = self.H(), self.newbuf(lay.n(), self.bound(a), self.spec(a))
        self.bufs[b]["tok"] = self.tok(a)
        rdon = o.t in ("add", "sm")
        self.objs[h] = Obj("d", lay, "DD", "own", buf=b, off=0, len=lay.n(), unit=o.unit)
        self.bufs[b]["unit"] = o.unit
        self.emit("eval", a=a, h=h, b=b, rdon=rdon)
        return h

    # -- products
    PROD = {("DD", "DD"): "DD", ("DD", "D1"): "D1", ("1D", "DD"): "1D"}

    def mulready(self, h):
        o = self.objs[h]
        return o.t == "d" and o.lay.k != "UT" and not self.tok(h) and not self.spec(h)

    def prodbound(self, a, b):
        return self.objs[a].lay.c * self.bound(a) * self.bound(b) * (2 if self.cx else 1)

    def matmulable(self, alpha, a, b, beta, c):
        A, B, C = self.objs[a], self.objs[b], self.objs[c]
        if not (self.readable(a) and self.readable(b) and self.writable(c) and c not in (a, b)): return False
        if not (self.mulready(a) and self.mulready(b) and self.mulready(c)) or C.overlap: return False
        if self.PROD.get((A.sz, B.sz)) != C.sz: return False
        f = 2 if self.cx else 1
        return f * (self.mag(alpha) * self.prodbound(a, b) + self.mag(beta) * self.bound(c)) < self.limit and self.prodbound(a, b) < self.limit

    def matmul(self, alpha, a, b, beta, c, e=0, far=False):
        """the coefficient beta * 2^e (and alpha scaled so that the sum has one unit)"""
        A, B, C = self.objs[a], self.objs[b], self.objs[c]
        if e is None: e = self.rescale()
        if not ((far or self.uok(C.unit + e)) and C.acc == "own" and not C.src and C.len == C.lay.n() == C.lay.extent() and not C.overlap): e = 0
        ok = A.lay.c == B.lay.r and C.lay.r == A.lay.r and C.lay.c == B.lay.c
        if ok:
            f = 2 if self.cx else 1
            x = self.bufs[C.buf]
            x["bound"] = max(x["bound"], f * (self.mag(alpha) * self.prodbound(a, b) + self.mag(beta) * self.bound(c)))
            C.unit += e
            x["unit"] = C.unit
        self.emit("matmul", alpha=alpha, e=e, a=a, b=b, beta=beta, c=c, mb=C.buf)
        return ok

    def dotable(self, a, b):
        A, B = self.objs[a], self.objs[b]
        return self.t == "f64" and self.uok(self.objs[a].unit + self.objs[b].unit) and self.readable(a) and self.readable(b) and self.mulready(a) and self.mulready(b) \
            and (A.sz, B.sz) in self.PROD and self.prodbound(a, b) < self.limit

    def dot(self, a, b):
        A, B = self.objs[a], self.objs[b]
        h, nb = self.H(), self.B()
        ok = A.lay.c == B.lay.r
        sz = self.PROD[(A.sz, B.sz)]
        if ok:
            lay = Lay({"DD": "RM", "D1": "CV", "1D": "RV"}[sz], A.lay.r, B.lay.c)
            self.bufs[nb] = dict(len=lay.n(), bound=self.prodbound(a, b), spec=False, tok=False, unit=A.unit + B.unit)
            self.objs[h] = Obj("d", lay, sz, "own", buf=nb, off=0, len=lay.n(), unit=A.unit + B.unit)
        self.emit("dot", a=a, b=b, h=h, nb=nb)
        return h if ok else None

    def atan2(self, y, x):
        """of two bit patterns"""
        self.emit("atan2", y=str(y), x=str(x))

    def snap(self):
        self.emit("snap", ids=sorted(self.bufs))


def flimbs(x):
    """[sign, base-2^12 limbs of the magnitude], least significant first"""
    n, m = [], abs(x)
    while m:
        n.append(m % 4096)
        m //= 4096
    return [(x > 0) - (x < 0), n]


class F(S):
    """A session in rounding mode: floating-point values with full mantissas,
    integers of any size times 2^unit."""
    fl = True
    VALUES = ("init", "vals", "news")
    SCALARS = ("v", "s", "alpha", "beta")

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.p = 53 if self.t[1:] == "64" else 24
        self.limit = 2**250 if self.p == 53 else 2**92
        self.shifts = [0, 0, 1, 3, 17, 40] if self.p == 53 else [0, 0, 1, 3, 7]

    def json(self):
        return dict(super().json(), p=self.p)

    UNITS = {"f64": [0, -1, -35, 40, -100, 52, -53], "f32": [0, -1, -20, 10]}

    @staticmethod
    def someunit(t, rng):
        return rng.choice(F.UNITS[{"c": "f"}.get(t[0], t[0]) + t[1:]])

    def rescale(self):
        return self.rng.choice([-1, -2, 1]) if self.p == 53 else 0

    def real(self, m=50):
        r = self.rng
        if r.random() < .08: return r.choice([0, 1, -1, 2])
        x = r.getrandbits(self.p - 1) | 1 << (self.p - 1) | (r.random() < .7)
        if r.random() < .15: x >>= r.randrange(self.p)          # few digits
        if r.random() < .1: x = 2**self.p - 1 - (r.random() < .5)
        if m > 4: x <<= r.choice(self.shifts)
        return -x if r.random() < .5 else x

    def val(self, m=50):
        return [self.real(m), self.real(m)] if self.cx else self.real(m)

    def distinct(self, n, base=1):
        return [self.val() for _ in range(n)]

    @staticmethod
    def mag(v):
        return max(abs(x) for x in (v if isinstance(v, list) else [v]))

    @staticmethod
    def isspec(v):
        return False

    def code(self, v):
        return [flimbs(v[0]), flimbs(v[1])] if isinstance(v, list) else flimbs(v)

    def emit(self, op, **kw):
        for f in self.VALUES:
            if f in kw: kw[f] = [self.code(v) for v in kw[f]]
        for f in self.SCALARS:
            if f in kw: kw[f] = self.code(kw[f])
        super().emit(op, **kw)
