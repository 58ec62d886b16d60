"""Are the properties checked on the specification vacuous?  Mistakes are made
in the specification, one at a time; TLC must refute each mutated one.
  python3 tools/spec_mutants.py
Prints what refuted each; exits 1 if one is not refuted."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from hv import design, run


def mc(m): return ("MC", design.mc_cfg(m, 2, 0, 0))
def cfg(name): return (name, open(os.path.join(ROOT, "spec", name + ".cfg")).read())


LAY, BIG, BOR, TYP, FLO = cfg("MCLayouts"), cfg("MCBigNat"), cfg("MCBorrow"), cfg("MCTyping"), cfg("MCFloats")
# file, old, new, where it has to be noticed
MUTANTS = [
    ("Layouts", "row * L.c + col", "row * L.r + col", LAY),
    ("Layouts", "col * L.r + row", "row * L.c + col", LAY),
    ("Layouts", "Tri(L.r - 1 - row) + (col - row)", "Tri(L.r - 1 - row) + col", LAY),
    ("Layouts", "<<i % L.r, i \\div L.r>>", "<<i \\div L.c, i % L.c>>", LAY),
    ("Layouts", "row == L.r - 1 - p\n", "row == p\n", LAY),
    ("Layouts", '[] L.k = "CM" -> <<1, L.r>>', '[] L.k = "CM" -> <<1, L.c>>', LAY),
    ("Layouts", "ELSE Raw1(L, NElem(L) - 1) + 1", "ELSE Raw1(L, NElem(L) - 1)", LAY),
    ("Layouts", "Fits(L, n) == NElem(L) <= n /\\ Extent(L) <= n", "Fits(L, n) == NElem(L) <= n", mc("mem")),
    ("Householder", "Put(Cell(h, p[1], p[2]), v)", "Put(Cell(h, p[2], p[1]), v)", mc("access")),
    ("Householder", "IF out = \"ok\" THEN Put(Cell(h, row, col), v) ELSE bufs' = bufs", "IF InDim(LayOf(h), row, col) THEN Put(<<objs[Target(h)].buf, 1>>, v) ELSE bufs' = bufs", mc("access")),
    ("Householder", "/\\ tl[1] + dim[1] <= LayOf(h).r /\\ tl[2] + dim[2] <= LayOf(h).c", "/\\ tl[1] + dim[1] <= LayOf(h).r", mc("view")),
    ("Householder", "ELSE Raw(o.lay, tl[1], tl[2])),", "ELSE Raw(o.lay, tl[2], tl[1])),", mc("view")),
    ("Householder", "dim[1], dim[2], Stride(o.lay)[1], Stride(o.lay)[2])", "dim[1], dim[2], dim[2], Stride(o.lay)[2])", mc("view")),
    ("Householder", "BlockPre(h, h2, mut) == /\\ IF mut THEN Writable(h) ELSE Readable(h)", "BlockPre(h, h2, mut) == /\\ Readable(h)", mc("view")),
    ("Householder", "THEN With(objs, h2, BlockObj(h, tl, dim, IF mut THEN \"rw\" ELSE \"ro\"))", "THEN With(objs, h2, [BlockObj(h, tl, dim, IF mut THEN \"rw\" ELSE \"ro\") EXCEPT !.src = {}])", mc("view")),
    ("Householder", "[] j = 2 -> << <<0, at[2]>>, <<at[1], C - at[2]>> >>", "[] j = 2 -> << <<0, at[2]>>, <<at[1] + 1, C - at[2]>> >>", mc("split")),
    ("Householder", "[] j = 4 -> << at, <<R - at[1], C - at[2]>> >>", "[] j = 4 -> << at, <<R - at[1], at[2]>> >>", mc("split")),
    ("Householder", "[] j = 3 -> << <<at[1], 0>>,", "[] j = 3 -> << <<at[2], 0>>,", mc("split")),
    ("Householder", "AddOut(a, b) == IF DimOf(a) = DimOf(b) THEN", "AddOut(a, b) == IF NElem(LayOf(a)) = NElem(LayOf(b)) THEN", mc("lazy")),
    ("Householder", "/\\ IndexKind(LayOf(a).k) = IndexKind(LayOf(b).k) /\\ objs[a].sz", "/\\ objs[a].sz", mc("lazy")),
    ("Householder", "IndexLayout(LayOf(a)), objs[a].sz, \"ro\", {a, b}))", "Lay(\"RM\", LayOf(a).r, LayOf(a).c), objs[a].sz, \"ro\", {a, b}))", mc("lazy")),
    ("Householder", "/\\ bufs' = With(bufs, b, Flat(a))      \\* contiguous, in logical order", "/\\ bufs' = With(bufs, b, [i \\in 1 .. Len(Flat(a)) |-> Flat(a)[Len(Flat(a)) + 1 - i]])", mc("eval")),
    ("Householder", "VAdd(ses, VMul(ses, alpha, ProdElem(a, b, p[1], p[2])), VMul(ses, beta, Val(c, p[1], p[2])))", "VAdd(ses, VMul(ses, alpha, ProdElem(a, b, p[1], p[2])), VMul(ses, alpha, Val(c, p[1], p[2])))", mc("prod")),
    ("Householder", "THEN \"ok\" ELSE \"panic\"\n\\* what is stored, in logical order", "THEN \"ok\" ELSE \"ok\"\n\\* what is stored, in logical order", mc("prod")),
    ("Householder", "/\\ c \\notin {a, b}\n", "\n", mc("prod")),
    ("Householder", "seen = Flat(h)\n  /\\ bufs' = [bufs EXCEPT ![objs[h].buf] = Stored1(h, news)]", "seen = Flat(h)\n  /\\ bufs' = [bufs EXCEPT ![objs[h].buf] = [@ EXCEPT ![1] = news[1]]]", mc("each")),
    ("Householder", "IF i <= k THEN news[i] ELSE old[i]])]", "IF i < k THEN news[i] ELSE old[i]])]", mc("each")),
    ("Householder", "IF 0 <= first /\\ first < last /\\ last <= objs[h].len THEN", "IF 0 <= first /\\ first < last /\\ last <= objs[h].len + 1 /\\ objs[h].off + last <= Len(bufs[objs[h].buf]) THEN", mc("each")),
    ("Householder", "LET q == c - objs[h].off - 1 IN", "LET q == c - 1 IN", mc("each")),
    ("Householder", "/\\ RemoveObjs(Closure(h))", "/\\ RemoveObjs({h})", mc("lazy")),
    ("Householder", "Movable(h)  == Live(h) /\\ Borrowers(h) = {}", "Movable(h)  == Readable(h)", mc("all")),
    ("Householder", "Readable(h) == Live(h) /\\ MutBorrowers(h) = {}", "Readable(h) == Live(h)", mc("all")),
    ("Householder", "Writable(h) == Live(h) /\\ Borrowers(h) = {} /\\", "Writable(h) == Live(h) /\\ MutBorrowers(h) = {} /\\", mc("all")),
    ("BigNat", "a[i] - Digit(b, i) - c", "a[i] - Digit(b, i)", BIG),
    ("BigNat", "Carry(a, i + 1, (a[i] + c) \\div Base)", "Carry(a, i + 1, a[i] \\div Base)", BIG),
    ("BigNat", "Shift(BMul(SubSeq(a, 101, Len(a)), b), 100))", "Shift(BMul(SubSeq(a, 101, Len(a)), b), 99))", BIG),
    ("BigLayouts", "IN BTwice(i) = BAdd(BMul(q, BAdd(q, BOne))", "IN BTwice(i) = BAdd(BMul(q, q)", LAY),
    ("BigLayouts", "BAdd(BMul(p[2], B.r), p[1])", "BAdd(BMul(p[2], B.c), p[1])", LAY),
    ("BigLayouts", "BLess(BRaw(B, <<BPred(B.r), BPred(B.c)>>), n)", "BLeq(BRaw(B, <<BPred(B.r), BPred(B.c)>>), n)", LAY),
    ("Floats", "(~BLowZero(m, d - 1) \\/ BBit(m, d) = 1)", "TRUE", FLO),
    ("Floats", "(~BLowZero(m, d - 1) \\/ BBit(m, d) = 1)", "~BLowZero(m, d - 1)", FLO),
    ("Floats", "BLess(a[2], b[2]) THEN <<b[1]", "BLess(a[2], b[2]) THEN <<a[1]", FLO),
    ("Floats", "BLeq(BShl(d[2], p)", "BLeq(BShl(d[2], p - 1)", FLO),
    ("Arctan", "IF n % 4 < 2 THEN 1 ELSE -1", "IF n % 4 < 3 THEN 1 ELSE -1", FLO),
    ("Arctan", "Double(Double(Double(", "Double(Double((", FLO),
    ("Arctan", "IF x.neg THEN west ELSE Zero(th)\n       [] ~Zero(y)", "west\n       [] ~Zero(y)", FLO),
    ("Arctan", "/\\ th.neg = y.neg\n", "\n", FLO),
    ("Arctan", "along[1] = 1", "along[1] # 0", FLO),
    ("Borrow", "Writable(h) == Live(h) /\\ Borrowers(h) = {} /\\ objs[h].acc", "Writable(h) == Live(h) /\\ objs[h].acc", BOR),
    ("Borrow", "Readable(h) == Live(h) /\\ \\A x \\in Borrowers(h) : objs[x].acc # \"rw\"", "Readable(h) == Live(h)", BOR),
    ("Borrow", "Movable(h)  == Live(h) /\\ Borrowers(h) = {}", "Movable(h)  == Live(h)", BOR),
    ("Borrow", "View(k, acc) == Put(objs, n, Obj(k, acc, {p}, {}, cs))", "View(k, acc) == Put(objs, n, Obj(k, acc, {}, {}, cs))", BOR),
    ("Borrow", "{y \\in cs : y[2] = x - n + 1}", "cs", BOR),
    ("Borrow", "Obj(\"lazy\", \"ro\", ReadArgs(c), MovedArgs(c),", "Obj(\"lazy\", \"ro\", {}, MovedArgs(c),", BOR),
    ("Borrow", "/\\ ~SomeClash(c)\n\nUnsound", "\n\nUnsound", BOR),
    ("Typing", "Index(x[1].k) = Index(x[2].k) /\\ x[1].r", "x[1].r", TYP),
    ("Typing", "[] c.op = \"smul\" -> c.t = x[1].t", "[] c.op = \"smul\" -> TRUE", TYP),
    ("Typing", "/\\ SameT(x) /\\ \\A i \\in 1 .. 3 : Strided(x[i].k)", "/\\ SameT(x)", TYP),
    ("Typing", "Op(Index(x[1].k), x[1].r, x[1].c, x[1].t)\n    [] c.op \\in {\"smul\"", "x[1]\n    [] c.op \\in {\"smul\"", TYP),
]


def one(i):
    f, old, new, (module, conf) = MUTANTS[i]
    d = tempfile.mkdtemp(prefix="specmut")
    try:
        run.copy_spec(d)
        p = os.path.join(d, f + ".tla")
        s = open(p).read()
        if s.count(old) != 1: return "%s: %d places to change: %s" % (f, s.count(old), old), False
        open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "X.cfg"), "w").write(conf)
        rc, out = run.java(["-workers", "2", "-noGenerateSpecTE", "-metadir", os.path.join(d, "md"), "-config", "X.cfg", module + ".tla"], d, 900)
        m = re.search(r"(Invariant|[Pp]roperty|Action property) (\w+) is violated", out)
        what = m.group(2) if m else "evaluation error" if "Error:" in out and "No error has been found" not in out else "NOT REFUTED"
        detail = "" if m or what == "NOT REFUTED" else " " + " ".join(out[out.index("Error:"):].split())[:160]
        return "%-12s %-18s %s  =>  %s%s" % (f, what, old.strip()[:60].replace("\n", " "), new.strip()[:60].replace("\n", " "), detail), what != "NOT REFUTED"
    finally: shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, range(len(MUTANTS))))
for r, ok in res: print(r)
print("%d of %d mutated specifications refuted" % (sum(ok for r, ok in res), len(res)))
sys.exit(0 if all(ok for r, ok in res) else 1)
