"""The same calls at every size: thresholds, tiles and tails."""
from .gen import *

SMALL = list(range(0, 36))
MORE = [37, 40, 41, 45, 47, 48, 49, 53, 60, 63, 64, 65, 66, 72, 80, 96, 97, 100, 120, 127, 128, 129, 130, 144, 160, 192, 200, 255, 256, 257, 258]
FAR = [300, 511, 512, 513, 1000, 1024, 1025]            # in the quick tier once each
DEEP = [300, 383, 384, 385, 500, 511, 512, 513, 700, 768, 1000, 1023, 1024, 1025]


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0] or [0]


def shape(r, k, n):
    """a shape whose size, width or height is n"""
    if k in ("RV", "ASRV"): return 1, n
    if k in ("CV", "ASCV"): return n, 1
    if k == "UT":
        if n <= 26 or n <= 66 and r.random() < .2: return n, n
        return r.choice([(22, 22), (23, 23), (27, 27)]) if n < 300 else (33, 33)
    w = r.random()
    if w < .35: d = r.choice(divisors(n)); return d, (n // d if d else 0)       # n elements
    o = r.choice([1, 2, 2, 3, 4, 5]) if n <= 130 else r.choice([1, 1, 2])
    return (o, n) if r.random() < .5 else (n, o)


def strides(r, k, a, b):
    if k == "ASRV": return 0, r.choice([1, 1, 2, 3, 7])
    if k == "ASCV": return r.choice([1, 1, 2, 3, 7]), 0
    if k in ("ASRM", "ASCM"):
        u = r.choice([1, 1, 1, 2, 3]) if a * b < 150 else 1
        g = r.choice([0, 0, 1, 2, 5])
        if (k == "ASRM") == (r.random() < .8): return u * max(b, 1) + g, u
        return u, u * max(a, 1) + g
    return 0, 0


def lay(r, k, n):
    a, b = shape(r, k, n)
    return Lay(k, a, b, *strides(r, k, a, b))


def sizes(cx, top=10**9):
    return [n for n in SMALL + MORE + (DEEP if cx.thorough else FAR) if n <= top]


def lays(cx, kinds=KINDS, per=3, top=10**9):
    """`per` layouts of every size, kinds in turn"""
    per = per * 4 if cx.thorough else per
    q = []
    for n in sizes(cx, top):
        for _ in range(per if cx.thorough or n < 300 else 1):
            if not q:
                q = list(kinds)
                cx.rng.shuffle(q)
            yield lay(cx.rng, q.pop(), n)


def objects(cx, kinds=KINDS, per=3, hows=("slice", "vec", "usr", "zeros", "slice", "arr", "ptr"), cells=700, acc=None, dd=False, top=10**9):
    """(session, handle) of one dense matrix of every size"""
    s, room, n = None, 0, 0
    ts = list(TYPES)
    for L in lays(cx, kinds, per, top):
        need = L.n() * 2 + 8
        if s is None or need > room:
            s, room = cx.new(ts[n % 4], tag="size"), cells
            n += 1
        room -= need
        h = dense(s, L, cx.rng.choice(hows), "DD" if dd else None, acc)
        if h: yield s, h


def drop(s, h):
    for x in [x for x in s.objs if h in s.objs[x].src]: drop(s, x)
    if s.movable(h): s.drop(h)


def few(s, h, k=3, wr=True):
    """a few accesses, ends included, by every way"""
    L, r = s.objs[h].lay, s.rng
    n = L.n()
    if not n: return
    P = L.positions() if L.r * L.c < 400 else [(0, 0), (L.r - 1, L.c - 1), (0, L.c - 1)] + [(i, max(i, r.randrange(L.c)) if L.k == "UT" else r.randrange(L.c)) for i in (r.randrange(L.r) for _ in range(4))]
    ps = [P[-1]] + r.sample(P, min(len(P), k))
    ii = [n - 1] + r.sample(range(n), min(n, k))
    for p in ps: s.get(h, *p, chk=r.random() < .5)
    for i in ii: s.get1(h, i, chk=r.random() < .5)
    if wr and s.settable(h):
        for p in ps[:2]: s.set(h, *p, s.val(), chk=r.random() < .5)
        for i in ii[:2]: s.set1(h, i, s.val(), chk=r.random() < .5)


def C01(cx):
    for L in lays(cx, per=5, top=520):
        if not cx.out or cx.out[-1].t != "f64" or len(cx.out[-1].ops) > 12: cx.new("f64", tag="sizelay")
        cx.out[-1].layout("new", L)
    for s, h in objects(cx, per=2, top=520):
        s.convh(h); s.all(h)
        drop(s, h)


def C02(cx):
    C01(cx)
    for s, h in objects(cx, per=2, acc="rw"):
        s.meta(h); few(s, h)
        drop(s, h)


def C03(cx):
    for s, h in objects(cx, per=3):
        L, n = s.objs[h].lay, s.objs[h].lay.n()
        ps = [(L.r, 0), (0, L.c), (L.r - 1, L.c), (L.r, L.c - 1), (L.r, L.c), (L.r + 1, 0), (0, L.c + 1), (L.r - 1, L.c - 1), (0, 0), (L.r // 2, L.c), (L.r, L.c // 2), (L.r // 2, L.c // 2), (L.c, L.r), (0, n), (n, 0)]
        if L.k == "UT": ps += [(L.r - 1, max(0, L.r - 2)), (1, 0), (L.r // 2, 0)]
        ps += [(s.rng.randrange(L.r + 2), s.rng.randrange(L.c + 3)) for _ in range(6)]
        ps = [(max(0, a), max(0, b)) for a, b in ps]
        ii = [0, n // 2, max(0, n - 1), n, n + 1, n + 2, s.objs[h].len, max(0, s.objs[h].len - 1), L.r * L.c, L.r + L.c, n + L.c, n + L.r] + s.rng.sample(HUGE, 2)
        w = s.settable(h)
        q = []
        for a, b in ps: q += [("get", a, b)] + ([("set", a, b)] if w else [])
        for i in ii: q += [("get1", i, 0)] + ([("set1", i, 0)] if w else [])
        s.probe(h, q)
        if s.readable(h) and s.rng.random() < .3: s.probe(s.ref(h), [x for x in q if x[0][0] == "g"])
        drop(s, h)


def C04(cx):
    for s, h in objects(cx, per=3, acc="rw"):
        few(s, h)
        s.all(h, wr=s.objs[h].lay.n() < 120)
        n = s.objs[h].len
        if n:
            f = s.rng.randrange(n)
            t = s.rng.randint(f + 1, n)
            s.slicew(h, f, t); s.slice(h, f, t)
            s.slice(h, 0, n)
        few(s, h)
        s.all(h)
        drop(s, h)


def cuts(r, R, C):
    return r.randint(0, R), r.randint(0, C)


def C05(cx):
    for n in sizes(cx):
        s = cx.new(cx.rng.choice(TYPES), tag="size")
        r = s.rng
        for k in (r.sample(["RM", "CM", "ASRM", "ASCM"], 4 if cx.thorough else 2 if n < 300 else 1)):
            # a parent with a window of size n, and windows of a parent of size n
            o = r.choice([1, 2, 3])
            a, b = (o, n) if r.random() < .5 else (n, o)
            R, C = a + r.randint(0, 3), b + r.randint(0, 3)
            h = dense(s, Lay(k, R, C, *strides(r, k, R, C)), r.choice(["slice", "vec", "usr"]), acc="rw")
            for _ in range(2):
                at = (r.randint(0, R - a), r.randint(0, C - b))
                x = s.block(h, at, (a, b), mut=r.random() < .5)
                s.meta(x); s.all(x)
                if r.random() < .3: s.convh(x)
                drop(s, x)
            for w in ((0, 0, R, C), (0, 0, R, max(0, C - 1)), (0, 0, max(0, R - 1), C), (R, 0, 0, C), (0, C, R, 0), (0, 0, R + 1, C), (0, 1, R, C), (1, 0, R, C)):
                x = s.block(h, w[:2], w[2:], mut=r.random() < .5)
                if x:
                    few(s, x)
                    drop(s, x)
            drop(s, h)


def C06(cx):
    for n in sizes(cx, 520):
        s = cx.new(cx.rng.choice(TYPES), tag="size")
        r = s.rng
        for k in (r.sample(["RM", "CM", "ASRM", "ASCM"], 4 if cx.thorough else 2 if n < 300 else 1)):
            o = r.choice([1, 2, 3])
            a, b = (o, n) if r.random() < .5 else (n, o)
            R, C = a + r.randint(0, 2), b + r.randint(0, 2)
            h = dense(s, Lay(k, R, C, *strides(r, k, R, C)), r.choice(["slice", "vec", "usr"]), acc="rw")
            x = s.block(h, (r.randint(0, R - a), r.randint(0, C - b)), (a, b), mut=True)
            few(s, x)
            y = s.block(x, (0, 0), (a, b), mut=True) if r.random() < .5 else x
            s.each(y)
            if s.objs[y].len > 1: f = r.randrange(s.objs[y].len); s.slicew(y, f, s.objs[y].len)
            if s.draws < 900: s.fill(y)
            drop(s, x)
            s.all(h)
            drop(s, h)


def C07(cx):
    for n in sizes(cx, 520):
        s = cx.new(cx.rng.choice(TYPES), tag="size")
        r = s.rng
        o = r.choice([1, 2, 3, 4])
        R, C = (o, n) if r.random() < .5 else (n, o)
        h = dense(s, Lay("RM", R, C), r.choice(["slice", "vec", "usr"]), acc="rw")
        for at in [cuts(r, R, C), (R, r.randint(0, C)), (0, C), (max(0, R - 1), max(0, C - 1)), (R // 2, C // 2), (R + 1, C), (R, C + 1)]:
            q = s.split(h, at)
            for x in q or []:
                s.meta(x)
                if s.objs[x].lay.n(): s.each(x) if r.random() < .4 else few(s, x, 1)
            if q: s.all(r.choice(q))
            for x in q or []: drop(s, x)
        s.all(h)
        drop(s, h)


def exprs(cx, per, top):
    for s, h in objects(cx, ["RM", "CM", "ASRM", "ASCM", "UT", "RV", "CV", "ASRV", "ASCV"], per, cells=500, top=top):
        L, r = s.objs[h].lay, s.rng
        if not s.operandable(h, "r"): drop(s, h); continue
        k = r.choice([q for q in KINDS if INDEX[q] == INDEX[L.k]])
        g = dense(s, Lay(k, L.r, L.c, *strides(r, k, L.r, L.c)), r.choice(["slice", "vec", "usr"]), s.objs[h].sz)
        x = s.add(h, r.choice("or"), g, r.choice("or")) if g and s.addable(h, "o", g, "o") else None
        if not x: drop(s, h); continue
        c = s.val(3)
        y = s.smul(c, x, r.choice("or"), r.choice("lr"), r.choice([0, 0, None])) if s.smulable(x, "o", c) else x
        yield s, x, y
        for z in list(s.objs):
            if z in s.objs and s.live(z) and s.movable(z): drop(s, z)


def C08(cx):
    for s, x, y in exprs(cx, 2, 520):
        s.meta(y); s.all(y)
        if s.readable(x): few(s, x, 2)


def C09(cx):
    for s, x, y in exprs(cx, 2, 1100):
        few(s, y, 3)
        if s.evaluable(y): s.eval(y)
        s.snap()


def C10(cx):
    for s, h in objects(cx, per=3, dd=True, top=1100):
        e = s.eval(h)
        s.meta(e); s.all(e); few(s, e)
        if s.settable(h): few(s, h, 1)
        s.all(e)
        if s.objs[h].lay.k not in ("UT",) and s.blockable(h):
            L = s.objs[h].lay
            w = (s.rng.randint(0, L.r), s.rng.randint(0, L.c))
            b = s.block(h, w, (L.r - w[0], L.c - w[1]))
            f = s.eval(b); s.all(f); drop(s, f)
        drop(s, h); drop(s, e)
    for s, x, y in exprs(cx, 1, 200):
        if s.evaluable(y): e = s.eval(y); s.all(e)


def iv(s, m):
    return lambda n: [s.val(m) for _ in range(n)]


def operand(s, k, r, c, m, acc="rw", how=None):
    rr = s.rng
    how = how or rr.choice(["slice", "vec", "usr", "block"])
    if how == "block" and k in STRIDED:
        base = rr.choice(["RM", "CM", "ASRM", "ASCM"])
        if STRIDED[base] == STRIDED[k]:
            a, b, e, f = [rr.randint(0, 2) for _ in range(4)]
            R, C = r + a + e, c + b + f
            p = dense(s, Lay(base, R, C, *strides(rr, base, R, C)), rr.choice(["vec", "slice", "usr"]), "DD", "rw", init=iv(s, m))
            return s.block(p, (a, b), (r, c), mut=True)
    return dense(s, Lay(k, r, c, *strides(rr, k, r, c)), how if how != "block" else "slice", "DD", acc, init=iv(s, m))


def products(cx, tops=40, per=1):
    """(m,k,n) with each dimension in turn of every size"""
    F = ["RM", "CM", "ASRM", "ASCM"]
    r = cx.rng
    out = []
    for n in [n for n in sizes(cx) if n <= tops] + ([64, 65, 128, 129, 256, 257, 512, 513, 1024, 1025] if not cx.thorough else [n for n in sizes(cx) if n > tops]):
        for ax in range(3):
            d = [r.choice([1, 2, 3, 4, 5, 8]) if n < 60 else r.choice([1, 2, 3]) for _ in range(3)]
            d[ax] = n
            for _ in range(per): out.append((tuple(d), tuple(r.choice(F) for _ in range(3))))
    # larger in all three dimensions: several blocks of the kernel
    for d in [(33, 34, 35), (65, 9, 66)] + ([(64, 65, 9), (9, 66, 65), (17, 257, 18), (64, 65, 66), (40, 300, 45)] if cx.thorough else []):
        out.append((d, tuple(r.choice(F) for _ in range(3))))
    # the degenerate ones in every combination of kinds
    for ks in itertools.product(F, repeat=3):
        for d in [(1, 3, 2), (2, 3, 1), (1, 1, 4), (2, 1, 3)] if cx.thorough else [r.choice([(1, 3, 2), (1, 4, 3)]), r.choice([(2, 3, 1), (3, 1, 2), (1, 2, 1)])]:
            out.append((d, ks))
    return out


import itertools  # noqa: E402


def C11(cx, dot=False):
    s, room = None, 0
    for i, (d, ks) in enumerate(products(cx)):
        m, k, n = d
        need = m * k + k * n + m * n
        if s is None or need > room:
            t = TYPES[len(cx.out) % 4] if not dot else "f64"
            s, room = cx.new(t, tag="size"), 400
        room -= need
        a, b, c = operand(s, ks[0], m, k, 7), operand(s, ks[1], k, n, 7), operand(s, ks[2], m, n, 7)
        if dot:
            if s.dotable(a, b):
                e = s.dot(a, b); s.meta(e); s.all(e)
                drop(s, e)
        else:
            al, be = s.rng.choice([s.mk(1), s.mk(-2), s.val(3)]), s.rng.choice([s.mk(0), s.mk(1), s.val(3)])
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c, s.rng.choice([0, 0, None]))
        for h in list(s.objs):
            if h in s.objs and s.live(h) and s.movable(h): drop(s, h)


def C12(cx):
    C11(cx, dot=True)
    # one dimension too many or too few, at every size
    s = None
    for i, n in enumerate([n for n in sizes(cx) if n <= 130]):
        if i % 3 == 0: s = cx.new(TYPES[(i // 3) % 4], tag="sizemis")
        r = s.rng
        for _ in range(3):
            d = [r.choice([1, 2, 3])] * 3
            d = [r.choice([1, 2, 3]) for _ in range(3)]
            d[r.randrange(3)] = n
            m, k, q = d
            x = [m, k, k, q, m, q]
            x[r.randrange(6)] += r.choice([1, 1, -1, 2])
            x = [max(0, v) for v in x]
            F = ["RM", "CM", "ASRM", "ASCM"]
            a, b, c = operand(s, r.choice(F), x[0], x[1], 5), operand(s, r.choice(F), x[2], x[3], 5), operand(s, r.choice(F), x[4], x[5], 5)
            al, be = s.val(2), s.val(2)
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
            if s.dotable(a, b):
                e = s.dot(a, b)
                if e: s.all(e)
            for h in list(s.objs):
                if h in s.objs and s.live(h) and s.movable(h): drop(s, h)


def C13(cx):
    vias = [("dim", k) for k in ("RM", "CM", "RV", "CV", "UT")] + [("mat", "RM"), ("matrm", "RM"), ("matcm", "CM"), ("rvdim", "RV"), ("cvdim", "CV"), ("rvlen", "RV"), ("vecrv", "RV"), ("cvlen", "CV"), ("vec", "CV"), ("veccv", "CV")]
    q, i = [], 0
    s, room = None, 0
    for n in sizes(cx):
        for _ in range(15 if cx.thorough else 6 if n < 300 else 2):
            if not q:
                q = list(vias)
                cx.rng.shuffle(q)
            via, k = q.pop()
            r, c = shape(cx.rng, k, n)
            if s is None or r * c > room: s, room = cx.new(TYPES[i % 4], tag="size"), 700; i += 1
            room -= r * c
            h = s.zeros(via, k, r, c)
            s.meta(h); s.all(h)
            if cx.rng.random() < .4: s.each(h)
            s.drop(h)
    s = cx.new("f64", tag="sizernd")
    for n in sizes(cx, 520):
        via, k = cx.rng.choice([("rmat", "RM"), ("rmatrm", "RM"), ("rmatcm", "CM"), ("rvec", "CV"), ("rveccv", "CV"), ("rvecrv", "RV")])
        r, c = shape(cx.rng, k, n)
        if len(s.ops) > 4: s = cx.new(TYPES[n % 4], tag="sizernd")
        s.emit("rmac", k=k, r=r, c=c, via=via)


def C14(cx):
    s = None
    for i, L in enumerate(lays(cx, per=4)):
        need = max(L.extent(), L.n())
        if s is None or len(s.ops) > 25: s = cx.new(TYPES[i % 4], tag="size")
        r = s.rng
        for ln in {need, max(0, need - 1), r.choice([need + 1, max(0, L.n() - 1), max(0, L.extent() - 1), need // 2])}:
            sz = r.choice(sizes_of(L.k))
            if r.random() < .6:
                b = s.arena(ln + 2)
                h = s.over(b, 1, ln, L, sz, r.choice(["ro", "rw"]), r.choice(["slice", "usr"]))
            else: h = s.new(ln, L, sz, "vec")
            if h:
                few(s, h, 1)
                n = s.objs[h].len
                for f, t in [(0, n), (0, n + 1), (n, n), (r.randint(0, n), r.randint(0, n + 1)), (max(0, n - 1), n)]:
                    s.slice(h, f, t)
                drop(s, h)


def C15(cx):
    for s, h in objects(cx, per=4, acc="rw"):
        if s.objs[h].overlap or not s.writable(h): drop(s, h); continue
        s.each(h)
        if s.draws < 1500 and s.rng.random() < .6: s.fill(h)
        s.all(h)
        if s.blockable(h) and s.rng.random() < .4:
            L = s.objs[h].lay
            w = (s.rng.randint(0, L.r), s.rng.randint(0, L.c))
            b = s.block(h, w, (L.r - w[0], L.c - w[1]), mut=True)
            s.each(b)
            if s.draws < 1500: s.fill(b)
        drop(s, h)
    # windows of every size
    for n in sizes(cx, 520):
        s = cx.new(cx.rng.choice(TYPES), tag="sizewin")
        r = s.rng
        k = r.choice(["RM", "CM", "ASRM", "ASCM"])
        a, b = shape(r, k, n)
        R, C = a + r.randint(0, 2), b + r.randint(0, 2)
        h = dense(s, Lay(k, R, C, *strides(r, k, R, C)), r.choice(["slice", "vec"]), acc="rw")
        x = s.block(h, (r.randint(0, R - a), r.randint(0, C - b)), (a, b), mut=True)
        s.each(x); s.fill(x); s.all(x)


def C16(cx):
    for s, h in objects(cx, per=3):
        x = s.ref(h)
        s.meta(x); few(s, x)
        if s.objs[h].lay.n() < 150: s.convh(x); s.all(x)
        if s.evaluable(x) and s.rng.random() < .3: e = s.eval(x); s.all(e); drop(s, e)
        drop(s, x)
        if s.settable(h):
            m = s.refm(h)
            s.meta(m); few(s, m); s.all(m, wr=s.objs[h].lay.n() < 100)
            drop(s, m)
            s.all(h)
        drop(s, h)


SWEEPS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C10, C11=C11,
              C12=C12, C13=C13, C14=C14, C15=C15, C16=C16)
