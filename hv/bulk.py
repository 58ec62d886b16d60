"""The same calls on matrices of thousands and tens of thousands of elements:
beyond any tile, 16-bit counter or buffer of fixed length."""
import re
from .gen import *
from .sweeps import strides, divisors, few, drop

MIDDLE = [1537, 2048, 2049, 3000, 4095, 4096, 4097, 4500, 5000]
LARGE = [65535, 65536, 65537, 66000, 66049, 70000]


def shape(r, k, n):
    if k in ("RV", "ASRV"): return 1, n
    if k in ("CV", "ASCV"): return n, 1
    if k == "UT":
        d = int((2 * n) ** .5) + r.randint(0, 2)
        return d, d
    w = r.random()
    if w < .2: return 1, n
    if w < .4: return n, 1
    d = r.choice(divisors(n)[1:] or [1]) if w < .6 else int(n ** .5) if w < .8 else r.choice([2, 3, 5, 16, 30])
    return (d, -(-n // d)) if r.random() < .5 else (-(-n // d), d)


def picks(cx, kinds):
    """(kind, size): each kind at a middle size, some at a large one"""
    r = cx.rng
    q = list(kinds)
    r.shuffle(q)
    mid = q if cx.thorough else q[:3]
    for i, k in enumerate(mid): yield k, r.choice(MIDDLE), TYPES[i % 4]
    r.shuffle(q)
    for i, k in enumerate(q[:6] if cx.thorough else q[:1]):
        yield k, r.choice(LARGE), r.choice(["f64", "f32"]) if i % 3 < 2 else "c64"


def values(s, n, far=True):
    if far and not s.cx:
        a, b = s.rng.choice([7919, 104729, 31337]), s.rng.randrange(1000)
        m = 1000003 if n > 100000 else 100003
        return [(i * a + b) % m + 1 for i in range(n)]
    return [s.val() for _ in range(n)]


def objects(cx, kinds=KINDS, hows=("slice", "vec", "usr"), acc="rw"):
    for k, n, t in picks(cx, kinds):
        s = cx.new(t, tag="bulk")
        a, b = shape(s.rng, k, n)
        L = Lay(k, a, b, *strides(s.rng, k, a, b))
        yield s, dense(s, L, s.rng.choice(hows), "DD", acc, init=lambda q: values(s, q))


def C02(cx):
    for s, h in objects(cx):
        s.meta(h)
        n = s.objs[h].len
        s.each(h, values(s, s.objs[h].lay.n()))
        s.slice(h, 0, n); s.all(h)


def C03(cx):
    for s, h in objects(cx):
        L, n = s.objs[h].lay, s.objs[h].lay.n()
        ps = [(L.r, 0), (0, L.c), (L.r - 1, L.c), (L.r, L.c - 1), (L.r - 1, L.c - 1), (0, 0), (L.r // 2, L.c), (L.r // 2, L.c // 2), (0, n), (n, 0), (0, 65536), (65536, 0)]
        if L.k == "UT": ps += [(L.r - 1, L.r - 2), (1, 0), (L.r // 2, 0)]
        ii = [0, n // 2, n - 1, n, n + 1, s.objs[h].len, L.r * L.c, 65535, 65536, n + 65536]
        q = []
        for a, b in ps: q += [("get", a, b), ("set", a, b)]
        for i in ii: q += [("get1", i, 0), ("set1", i, 0)]
        s.probe(h, q)


def C04(cx):
    for s, h in objects(cx):
        few(s, h, 2)
        s.each(h, values(s, s.objs[h].lay.n()))
        n = s.objs[h].len
        f = s.rng.randrange(n)
        s.slicew(h, f, min(n, f + 40)); s.slice(h, n - 1, n)
        few(s, h, 1)
        s.all(h)


SQ = ["RM", "CM", "ASRM", "ASCM"]


def within(r, n): return r.choice([0, 1, n // 3, max(0, n - 70000)]) if n else 0


def C05(cx):
    for s, h in objects(cx, SQ):
        L, r = s.objs[h].lay, s.rng
        for _ in range(2):
            at = (min(L.r, r.choice([0, 1, L.r // 3])), min(L.c, r.choice([0, 1, L.c // 3])))
            x = s.block(h, at, (L.r - at[0], L.c - at[1] - r.choice([0, 0, min(1, L.c - at[1])])), mut=r.random() < .5)
            s.meta(x); s.all(x)
            drop(s, x)
        for w in ((0, 0, L.r + 1, L.c), (0, 1, L.r, L.c), (1, 0, L.r, L.c), (L.r, 0, 0, L.c)):
            x = s.block(h, w[:2], w[2:])
            if x: drop(s, x)


def C06(cx):
    for s, h in objects(cx, SQ):
        L, r = s.objs[h].lay, s.rng
        at = (min(L.r, r.choice([0, 1, L.r // 3])), min(L.c, r.choice([0, 1, L.c // 3])))
        x = s.block(h, at, (L.r - at[0], L.c - at[1]), mut=True)
        few(s, x, 1)
        y = s.block(x, (0, 0), (s.objs[x].lay.r, s.objs[x].lay.c), mut=True)
        s.each(y, values(s, s.objs[y].lay.n()))
        drop(s, x)
        s.all(h)


def C07(cx):
    for s, h in objects(cx, ["RM", "RM", "RM"]):
        L, r = s.objs[h].lay, s.rng
        at = (r.choice([0, 1, L.r // 2, L.r]), r.choice([0, 1, L.c // 3, L.c]))
        q = s.split(h, at)
        for x in q:
            s.meta(x)
            s.each(x, values(s, s.objs[x].lay.n()))
        for x in q: drop(s, x)
        s.all(h)


def pairs(cx):
    for s, h in objects(cx):
        L, r = s.objs[h].lay, s.rng
        if not s.operandable(h, "r"): continue
        k = r.choice([q for q in KINDS if INDEX[q] == INDEX[L.k]])
        g = dense(s, Lay(k, L.r, L.c, *strides(r, k, L.r, L.c)), r.choice(["slice", "vec", "usr"]), s.objs[h].sz, "rw", init=lambda q: values(s, q))
        if not s.addable(h, "r", g, "r"): continue
        x = s.add(h, "r", g, "r")
        c = s.val(3)
        yield s, h, g, x, s.smul(c, x, "o", r.choice("lr")) if s.smulable(x, "o", c) else x


def C08(cx):
    for s, h, g, x, y in pairs(cx): s.meta(y); s.all(y)


def C09(cx):
    for s, h, g, x, y in pairs(cx):
        few(s, y, 1)
        if s.evaluable(y): s.eval(y)
        s.snap()


def C10(cx):
    for s, h, g, x, y in pairs(cx):
        if s.evaluable(y): e = s.eval(y); s.meta(e); s.all(e)
        f = s.eval(h); drop(s, y); few(s, h, 1); s.all(f)


def dims(cx):
    r = cx.rng
    mid = [(r.choice(MIDDLE), r.choice([1, 2, 3]), r.choice([1, 2])), (r.choice([1, 2, 3]), r.choice(MIDDLE), r.choice([1, 2])), (r.choice([1, 2]), r.choice([1, 2, 3]), r.choice(MIDDLE))]
    n = r.choice(LARGE)
    far = [(n, 1, 1), (1, n, 1), (1, 1, n)]
    return mid + (far if cx.thorough else r.sample(far, 1)) + ([(64, 2, 65), (65, 66, 3), (2, 65, 64)] if cx.thorough else [])


def C11(cx, dot=False):
    for i, (m, k, n) in enumerate(dims(cx)):
        t = ["f64", "f32", "c64", "f64"][i % 4] if not dot else "f64"
        s = cx.new(t, tag="bulk")
        q = lambda z: [s.val(5 if max(m, k, n) < 9000 else 3) for _ in range(z)]
        def f(a, b):
            kd = s.rng.choice(SQ)
            return dense(s, Lay(kd, a, b, *strides(s.rng, kd, a, b)), s.rng.choice(["slice", "vec"]), "DD", "rw", init=q)
        a, b = f(m, k), f(k, n)
        if dot:
            if s.dotable(a, b): e = s.dot(a, b); s.meta(e); s.all(e)
        else:
            c = f(m, n)
            al, be = s.rng.choice([s.mk(1), s.mk(-2), s.val(3)]), s.rng.choice([s.mk(2), s.mk(-1), s.mk(3)])
            if s.matmulable(al, a, b, be, c): s.matmul(al, a, b, be, c)
        s.snap()


def C12(cx): C11(cx, True)


def C13(cx):
    r = cx.rng
    ways = [("mat", "RM"), ("mat", "CM"), ("dim", "RM"), ("dim", "CM"), ("dim", "UT"), ("rvlen", "RV"), ("cvlen", "CV")]
    from .gen import ZVIA
    for i, n in enumerate(r.sample(MIDDLE, 2) + r.sample(LARGE, 3 if cx.thorough else 1)):
        s = cx.new(["f64", "f32", "c64", "c32"][i % 4] if n < 9000 else "f64", tag="bulk")
        for _ in range(2):
            k = r.choice(sorted(ZVIA))
            a, b = shape(r, k, n)
            h = s.zeros(r.choice(ZVIA[k]), k, a, b)
            if not h: continue
            s.meta(h)
            if s.objs[h].lay.n(): s.each(h, values(s, s.objs[h].lay.n()))
            drop(s, h)
            h = s.zeros(r.choice(ZVIA[k]), k, a, b)      # in recycled memory
            s.all(h)
            drop(s, h)


def C14(cx):
    for s, h in objects(cx):
        n = s.objs[h].len
        for f, t in [(0, n), (n - 1, n), (n // 2, n), (0, n + 1), (n, n + 1), (n // 2, n // 2 + 70000), (n - 1, n - 1), (n, n), (n, n - 1)]:
            s.slice(h, f, t)
            if t > n: s.slicew(h, f, t)
        few(s, h, 1)


def C15(cx):
    for s, h in objects(cx):
        n = s.objs[h].lay.n()
        s.each(h, values(s, n)); s.all(h)
        s.each(h, values(s, n), stop=n - n // 7)
        if s.t == "f64": s.known = n + 1000
        s.fill(h); s.snap()


def C16(cx):
    for s, h in objects(cx):
        w = s.refm(h)
        few(s, w, 1); s.all(w)
        drop(s, w)
        if s.readable(h): w = s.ref(h); s.meta(w); s.all(w); drop(s, w)
        s.snap()


BULK = {k: v for k, v in globals().items() if re.fullmatch(r"C\d\d", k)}
