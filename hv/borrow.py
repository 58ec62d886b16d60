"""What the compiler accepts: programs enumerated from spec/Borrow.tla (C20) and
calls enumerated from spec/Typing.tla (C21) are given to the Rust compiler, and
its verdicts to TLC (spec/BTrace.tla, spec/TTrace.tla)."""
import bisect
import glob
import hashlib
import json
import os
import random
import shutil
import subprocess

from . import design, run

# class: (layout, size, scalar).  Size D2 stands for fixed 2x2, V for vectors of run-time length, V2 for fixed length
CLASSES = {
    "rm":   ("RM", "DD", "f64"), "cm":   ("CM", "DD", "f64"), "asrm": ("ASRM", "DD", "f64"), "ascm": ("ASCM", "DD", "f64"),
    "ut":   ("UT", "DD", "f64"), "rv":   ("RV", "V", "f64"), "cv":   ("CV", "V", "f64"),
    "f22":  ("RM", "D2", "f64"), "f22c": ("CM", "D2", "c32"), "fv":   ("RV", "V2", "f32"),
    "rmc":  ("RM", "DD", "c64"), "cmf":  ("CM", "DD", "f32"), "rmf":  ("RM", "DD", "f32"), "cvc":  ("CV", "V", "c64"),
    "asrv": ("ASRV", "V", "f64"), "ascv": ("ASCV", "V", "f64"),
}
NAME = {"RM": "RowMajor", "CM": "ColumnMajor", "ASRM": "ArbitraryStrideRowMajor", "ASCM": "ArbitraryStrideColumnMajor",
        "UT": "UpperTriangular", "RV": "RowVector", "CV": "ColumnVector", "ASRV": "ArbitraryStrideRowVector", "ASCV": "ArbitraryStrideColumnVector"}
BASE = {"RM": "RM", "CM": "CM", "ASRM": "RM", "ASCM": "CM", "UT": "UT", "RV": "RV", "CV": "CV", "ASRV": "RV", "ASCV": "CV"}
STRIDED = {"RM": "ASRM", "CM": "ASCM", "ASRM": "ASRM", "ASCM": "ASCM"}

HEAD = """#![allow(unused, clippy::all)]
extern crate householder;
use householder::addition::*;
use householder::base_matrix::*;
use householder::data_container::*;
use householder::layouts::*;
use householder::matrix::*;
use householder::matrix_multiply::*;
use householder::matrix_ref::*;
use householder::traits::*;
use householder::types::*;
fn keep<T>(_: T) {}
fn touch<T: ?Sized>(_: &T) {}
fn same<T>(_: &T, _: &T) {}
fn main() {}
"""


class Skip(Exception):
    """the call does not exist for these types"""


class Writer:
    def __init__(self, cls, pick, touching):
        self.L, self.sz, self.t = CLASSES[cls]
        self.pick, self.touching = pick, touching
        self.ty = {}                      # handle -> (category, layout)
        self.lines = []

    def lit(self, x="2.0"):
        return {"f64": x, "f32": x, "c64": "c64::new(%s, 0.0)" % x, "c32": "c32::new(%s, 0.0)" % x}[self.t]

    def sizes(self):
        return {"DD": "Dynamic, Dynamic", "D2": "Fixed2, Fixed2"}.get(self.sz) or {
            "VR": "Fixed1, Dynamic", "VC": "Dynamic, Fixed1", "V2R": "Fixed1, Fixed2", "V2C": "Fixed2, Fixed1"}[self.sz + self.L[-2]]

    def layout(self):
        return {"RM": "RowMajor::new((2, 2))", "CM": "ColumnMajor::new((2, 2))", "UT": "UpperTriangular::new(2)",
                "ASRM": "ArbitraryStrideRowMajor::new((2, 2), (2, 1))", "ASCM": "ArbitraryStrideColumnMajor::new((2, 2), (1, 2))",
                "RV": "RowVector::new(2)", "CV": "ColumnVector::new(2)", "ASRV": "ArbitraryStrideRowVector::new(2, 2)",
                "ASCV": "ArbitraryStrideColumnVector::new(2, 2)"}[self.L]

    def cells(self):
        return {"UT": 3, "RV": 2, "CV": 2}.get(self.L, 4) if self.L not in ("ASRV", "ASCV") else 3

    def own(self):
        t, L = self.t, self.L
        if self.L in ("RM", "CM") and self.sz == "DD": return "MatrixD::<%s, %s>::zeros_from_dim(2, 2)" % (t, NAME[L])
        if self.L == "UT": return "UpperTriangularMatrix::<%s>::zeros_from_dim(2, 2)" % t
        if self.sz == "D2": return "Matrix22::<%s, %s>::zeros_from_dim()" % (t, NAME[L])
        if self.L == "RV" and self.sz == "V": return "RowVectorD::<%s>::zeros_from_length(2)" % t
        if self.L == "CV" and self.sz == "V": return "ColumnVectorD::<%s>::zeros_from_length(2)" % t
        if self.sz == "V2": return "GenericBaseMatrixMut::<%s, RowVector, ArrayContainer<%s, 2>, Fixed1, Fixed2>::zeros_from_length()" % (t, t)
        return "GenericBaseMatrixMut::<%s, %s, VectorContainer<%s>, %s>::from_data(VectorContainer::new(%d), %s)" % (
            t, NAME[L], t, self.sizes(), self.cells(), self.layout())

    def let(self, n, expr, cat, lay=None):
        self.ty[n] = (cat, lay)
        self.lines.append("let mut h%d = %s;" % (n, expr))

    def dense(self, h):
        c, L = self.ty[h]
        if c != "dense": raise Skip()
        return L

    def call(self, c):
        op, n, h, m = c["op"], c["n"], c["h"], c["m"]
        a = "h%d" % h[0] if h else ""
        cat, L = self.ty[h[0]] if h else (None, None)
        p = self.pick
        if op == "own": self.let(n, self.own(), "dense", self.L)
        elif op == "buf": self.let(n, "vec![%s; 4]" % self.lit("0.0"), "buf")
        elif op == "win":
            cont, arg = ("SliceContainer", "&%s[0..%d]") if m == "ro" else ("SliceContainerMut", "&mut %s[0..%d]")
            self.let(n, "GenericBaseMatrix::<%s, %s, %s<%s>, %s>::from_data(%s::new(%s), %s)" % (
                self.t, NAME[self.L], cont, self.t, self.sizes(), cont, arg % (a, self.cells()), self.layout()), "dense", self.L)
        elif op == "block":
            L = self.dense(h[0])
            if L not in STRIDED or self.sz != "DD": raise Skip()
            self.let(n, "%s.%s((0, 0), (%s))" % (a, "block" if m == "ro" else "block_mut", p(["2, 2", "1, 2"])), "dense", STRIDED[L])
        elif op == "split":
            if self.dense(h[0]) != "RM" or self.sz != "DD": raise Skip()
            for k in range(4): self.ty[n + k] = ("dense", "ASRM")
            self.lines.append("let (mut h%d, mut h%d, mut h%d, mut h%d) = %s.split_in_four_mut((1, 1));" % (n, n + 1, n + 2, n + 3, a))
        elif op == "el": self.let(n, "%s.%s" % (a, p(["get_mut(0, 0)", "get1d_mut(0)", "get_mut(0, 0)"])), "el")
        elif op == "sl":
            self.dense(h[0])
            self.let(n, "%s.get_slice(0, 1)" % a, "sl")
        elif op == "slm":
            self.dense(h[0])
            self.let(n, "%s.get_slice_mut(0, 1)" % a, "sl")
        elif op == "lay": self.let(n, "%s.layout()" % a, "lay")
        elif op == "ref": self.let(n, p(["Matrix::from_ref(&%s)", "Matrix::new(MatrixRef::new(&%s))", "RefMat::new(MatrixRef::new(&%s))"]) % a, "ref", L)
        elif op == "refm": self.let(n, "Matrix::new(MatrixRefMut::new(&mut %s))" % a, "ref", L)
        elif op == "eval":
            if self.sz != "DD": raise Skip()
            self.let(n, "%s.eval()" % a, "dense", BASE[L])
        elif op == "smul":
            if m == "r": a = "&" + a
            self.let(n, p(["%s * %s" % (self.lit(), a), "%s * %s" % (a, self.lit())]), "lazy", L)
        elif op == "add":
            b = "h%d" % h[1]
            if m in ("ro", "rr"): a = "&" + a
            if m in ("or", "rr"): b = "&" + b
            if BASE[L] != BASE[self.ty[h[1]][1]]: raise Skip()
            self.let(n, "%s + %s" % (a, b), "lazy", BASE[L])
        elif op == "read":
            forms = {"buf": ["h[0]"], "el": ["*h"], "sl": ["h[0]"], "lay": ["h.number_of_elements()"],
                     "dense": ["h.get(0, 0)", "h.get1d(0)", "h.get_slice(0, 1)[0]", "h.get(0, 0)", "h.dim()"]}.get(cat, ["h.get(0, 0)", "h.get1d(0)"])
            line = "keep(%s);" % p(forms).replace("h", a, 1)
            self.lines.append("std::thread::scope(|s| { s.spawn(|| { %s }); %s });" % (line, line) if m == "t" else line)
        elif op == "write":
            forms = {"buf": ["h[0] = V"], "el": ["*h = V"], "sl": ["h[0] = V"],
                     "dense": ["*h.get_mut(0, 0) = V", "*h.get1d_mut(0) = V", "h.get_slice_mut(0, 1)[0] = V", "h.for_each(|x| *x = V)"]
                     }.get(cat, ["*h.get_mut(0, 0) = V", "*h.get1d_mut(0) = V"])
            line = p(forms).replace("h", a, 1).replace("V", self.lit()) + ";"
            self.lines.append("std::thread::scope(|s| { s.spawn(|| { %s }); });" % line if m == "t" else line)
        elif op == "each":
            self.dense(h[0])
            self.lines.append("%s.for_each(|x| *x = h%d.get(0, 0));" % (a, h[1]))
        elif op == "matmul":
            for x in h: self.dense(x)
            if self.sz != "DD" or self.L not in STRIDED: raise Skip()
            self.lines.append("<%s>::matmul(%s, &h%d, &h%d, %s, &mut h%d);" % (self.t, self.lit(), h[0], h[1], self.lit(), h[2]))
        elif op == "drop" and m == "t": self.lines.append("std::thread::scope(|s| { s.spawn(move || { keep(%s); }); });" % a)
        elif op == "drop": self.drop(h[0])
        elif op == "copy":                # bound to the same type: (&x).clone() of the reference does not count
            self.lines.append("let mut %s_copy = %s.clone();" % (a, a))
            self.lines.append("same(&%s_copy, &%s);" % (a, a))
            self.lines.append("keep(%s_copy);" % a)
        else: raise run.CheckError("unknown call " + op)

    def drop(self, h):
        self.lines.append("%s(%sh%d);" % (("touch", "&", h) if h in self.touching else ("keep", "", h)))


BORROWING = {"win", "block", "split", "el", "sl", "slm", "lay", "ref", "refm"}


def program(cls, hist, c, yes, salt):
    """Rust statements: the calls of hist, the call c, and the end of all objects still alive"""
    k = [int(hashlib.md5(json.dumps([cls, hist, c, salt]).encode()).hexdigest()[:8], 16)]

    def pick(xs):
        k[0] = (k[0] * 1103515245 + 12345) & 0x7fffffff
        return xs[(k[0] >> 12) % len(xs)]
    news = lambda d: list(range(d["n"], d["n"] + (4 if d["op"] == "split" else 1))) if d["n"] else []
    # objects that borrow may also end by not being used any more
    touching = set()
    if pick([0, 1]):
        touching = {n for d in hist + [c] if d["op"] in BORROWING for n in news(d)} - set(c["h"])
    w = Writer(cls, pick, touching)
    live = []
    for i, d in enumerate(hist + [c]):
        w.call(d)
        moved = {"drop": d["h"], "smul": d["h"] if d["m"] == "o" else []}.get(d["op"], [])
        if d["op"] == "add": moved = [x for x, f in zip(d["h"], d["m"]) if f == "o"]
        live = [x for x in live if x not in moved] + news(d)
    for x in reversed(live): w.drop(x)
    return w.lines


def programs(prop, tier, seed, work, d):
    """[(class, calls, last call, expected to be accepted)]"""
    thorough = tier == "thorough"
    cfg = open(os.path.join(run.ROOT, "spec", "MCBorrow.cfg")).read()
    depth = 4 if thorough else 3
    rc, out = design.tlc(work, "borrow", "MCBorrow", cfg.replace("Depth = 3", "Depth = %d" % depth).replace("Emit = 0", "Emit = 1"), workers=1)
    design.explored(d, "borrow depth %d" % depth, out)
    hs = design.histories(out)
    if not hs: raise run.CheckError("no histories")
    n = 3000 if thorough else 400
    rc, out = design.tlc(work, "borrows", "MCBorrow", cfg.replace("Depth = 3", "Depth = 7").replace("Emit = 0", "Emit = 2").replace("VIEW View\n", "").replace("SharedReads Sound Free", "SharedReads"),
                         ["-simulate", "num=%d" % n, "-depth", "9", "-seed", str(seed)], workers=1)
    if "Error" in out: raise run.CheckError("simulation of MCBorrow failed:\n" + "\n".join(l for l in out.split("\n") if not l.startswith('"HIST'))[-3000:])
    rng = random.Random("%s/%s/borrow" % (seed, prop))
    res = []

    def add(cls, hist, at):
        try: lines = program(cls, hist, at["c"], at["x"] == "yes", len(res))
        except Skip: return False
        res.append((cls, hist, at["c"], at["x"] == "yes", lines))
        return True
    names = sorted(CLASSES)
    for h, o in sorted(set(hs)):
        hist, ats = json.loads(h), json.loads(o)
        if len(hist) > 3 and (len(res) > 150000 or rng.random() > .02): continue      # depth 4 (thorough): a sample
        for at in ats:
            if len(hist) <= 2: cl = names
            else: cl = rng.sample(names, 5 if thorough else 3)
            for c in cl: add(c, hist, at)
    deepest = sorted(set(design.histories(out)))
    for h, o in rng.sample(deepest, min(len(deepest), n)):
        hist, ats = json.loads(h), json.loads(o)
        for x in ("yes", "no"):
            some = [a for a in ats if a["x"] == x]
            for at in rng.sample(some, min(3, len(some))):
                for c in rng.sample(names, 4):
                    if add(c, hist, at): break
    d.models.append({"model": "borrow simulated to depth 7", "behaviours": len(deepest)})
    return res


def compile_all(progs, work):
    """progs: [(accepted by the specification?, parameters, statements)].
    {program number: (error code, message)} of the rejected ones"""
    dir = os.path.join(work, "borrow")
    os.makedirs(os.path.join(dir, "src", "bin"))
    shutil.copy(os.path.join(run.ROOT, "harness", "Cargo.lock"), dir)
    open(os.path.join(dir, "Cargo.toml"), "w").write('[package]\nname = "hdrive"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n'
                                                    '[dependencies]\nhouseholder = { path = "/repo" }\nrand = "0.8"\nrand_distr = "0.4"\nserde_json = "1"\n\n'
                                                    "[profile.dev]\ndebug = 0\nincremental = false\n")
    groups = {}
    parts = run.CORES * (1 + len(progs) // 40000)
    for i, (yes, params, lines) in enumerate(progs):
        # (a file with type errors may not get as far as the borrow checker)
        groups.setdefault(("y" if yes else "n") + str(i % parts), []).append(i)
    where = {}
    for g, ids in groups.items():
        with open(os.path.join(dir, "src", "bin", g + ".rs"), "w") as f:
            f.write(HEAD)
            n = HEAD.count("\n")
            for i in ids:
                f.write("fn p%d(%s) {\n%s}\n" % (i, progs[i][1], "".join("    %s\n" % l for l in progs[i][2])))
                n += 2 + len(progs[i][2])
                where.setdefault(g, []).append((n, i))
    e = run.env()
    e["CARGO_TARGET_DIR"] = os.path.join(run.TARGET, "t-borrow")
    stamp, now = os.path.join(e["CARGO_TARGET_DIR"], "repo.sha256"), run.repo_hash()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        if os.path.exists(stamp): os.remove(stamp)
        for f in glob.glob(os.path.join(e["CARGO_TARGET_DIR"], "debug", ".fingerprint", "householder-*")): shutil.rmtree(f)
    r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=dir, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    bad, seen = {}, set()
    for l in r.stdout.split("\n"):
        if not l.startswith("{"): continue
        o = json.loads(l)
        if o.get("reason") == "compiler-artifact": seen.add(o["target"]["name"])
        if o.get("reason") != "compiler-message" or o["message"]["level"] not in ("error", "error: internal compiler error"): continue
        g = o["target"]["name"]
        spans = [s for s in o["message"]["spans"] if s["is_primary"]]
        if not spans:
            if "aborting due to" in o["message"]["message"] or "could not compile" in o["message"]["message"]:
                seen.add(g)
                continue
            raise run.CheckError("compiler: " + o["message"]["rendered"][:2000])
        if g not in where: raise run.CheckError("build of the library failed:\n" + o["message"]["rendered"][:3000])
        ends = where[g]
        for s in spans:
            if not s["file_name"].endswith(g + ".rs"): raise run.CheckError("error outside of the programs: " + o["message"]["rendered"][:2000])
            i = ends[bisect.bisect_left(ends, (s["line_start"], -1))][1]
            code = (o["message"].get("code") or {}).get("code", "")
            bad.setdefault(i, (code, o["message"]["rendered"]))
            seen.add(g)
    missing = set(groups) - seen
    if missing: raise run.CheckError("no verdict on %s:\n%s" % (sorted(missing), r.stderr[-3000:]))
    open(stamp, "w").write(now)
    return bad


def full(o, pre=""):
    """the type of an owned matrix"""
    return "GenericBaseMatrixMut<%s, %s, VectorContainer<%s>, %s, %s>" % (o["t"], NAME[o["k"]], o["t"], SIZE[o["r"]], SIZE[o["c"]])


SIZE = {0: "Dynamic", 1: "Fixed1", 2: "Fixed2", 3: "Fixed3"}
LITS = {"f64": "2.0f64", "f32": "2.0f32", "c64": "c64::new(2.0, 0.0)", "c32": "c32::new(2.0, 0.0)"}


def operand_programs(tier, work, d):
    cfg = open(os.path.join(run.ROOT, "spec", "MCTyping.cfg")).read().replace("Emit = 0", "Emit = 1")
    if tier == "thorough": cfg = cfg.replace("Wide = FALSE", "Wide = TRUE")
    rc, out = design.tlc(work, "typing", "MCTyping", cfg, workers=1)
    design.explored(d, "typing", out)
    progs, trs = [], []
    for h, o in sorted(set(design.histories(out))):
        c, res = json.loads(h), json.loads(o)
        for form in {"add": range(4), "smul": range(4)}.get(c["op"], [0]):
            if form and not (tier == "thorough" or res or all(x["r"] == x["c"] == 0 for x in c["x"])): continue
            n = len(c["x"])
            a = ["&" if (form >> i) & 1 else "" for i in range(2)]
            need = "let r: Matrix<%s, _, %s, %s, %s> = " % (res[0]["t"], NAME[res[0]["k"]], SIZE[res[0]["r"]], SIZE[res[0]["c"]]) if res else "let r = "
            op = c["op"]
            if op in ("make", "length"):
                x = c["x"][0]
                k, sz = x["k"], (x["r"], x["c"])
                args = {"RV": (1, 2), "CV": (2, 1)}.get(k, (2, 2))
                if op == "length": line = "let r: usize = a.length();"
                elif c["t"] in ("mat", "vector"):
                    line = "let r: %s = householder::%s![%s, %s%s];" % (full(x), c["t"], x["t"], "2" if c["t"] == "vector" else "(2, 2)", ", " + NAME[k])
                elif c["t"] in ("fixed", "fixedvec"):
                    line = "let r = GenericBaseMatrixMut::<%s, %s, ArrayContainer<%s, %d>, %s, %s>::%s();" % (
                        x["t"], NAME[k], x["t"], sz[0] * sz[1] or 4, SIZE[sz[0]], SIZE[sz[1]], "zeros_from_dim" if c["t"] == "fixed" else "zeros_from_length")
                elif c["t"] in ("view", "viewmut"):
                    line = "let r = unsafe { SliceMatrix%s::<%s, %s, %s, %s>::from_pointer(std::ptr::null%s(), (0, 0)%s) };" % (
                        "Mut" if c["t"] == "viewmut" else "", x["t"], NAME[k], SIZE[sz[0]], SIZE[sz[1]], "_mut" if c["t"] == "viewmut" else "", ", (1, 1)" if k[:2] == "AS" else "")
                else: line = "let r = %s::%s;" % ("GenericBaseMatrixMut::<" + full(x).split("<", 1)[1], {"dims": "zeros_from_dim(%d, %d)" % args, "len": "zeros_from_length(2)"}[c["t"]])
            elif op == "add": line = need + "%sa + %sb;" % (a[0], a[1])
            elif op == "smul": line = need + ("%s * %sa;" % (LITS[c["t"]], a[0]) if form < 2 else "%sa * %s;" % (a[0], LITS[c["t"]]))
            elif op == "eval": line = need + "a.eval();"
            elif op == "ref": line = need + "Matrix::from_ref(&a);"
            elif op == "block": line = need + "a.block_mut((0, 0), (1, 1));"
            elif op == "split": line = need + "a.split_in_four_mut((1, 1)).3;"
            elif op == "dot": line = need + "a.dot(&b);"
            elif op == "matmul": line = "%s::matmul(%s, &a, &b, %s, &mut c);" % (c["x"][0]["t"], LITS[c["x"][0]["t"]], LITS[c["x"][0]["t"]])
            lines = [line]
            if op == "block": lines = [need + "a.block((0, 0), (1, 1));"] + lines
            progs.append((bool(res), "" if op == "make" else ", ".join("mut %s: %s" % (v, full(x)) for v, x in zip("abc", c["x"])), lines))
            trs.append([dict(c, res=res, form=form)])
    return progs, trs


def borrow_programs(prop, tier, seed, work, d):
    progs, trs = [], []
    for cls, hist, c, yes, lines in programs(prop, tier, seed, work, d):
        progs.append((yes, "", lines))
        # the calls before the last one are accepted (they are programs of their own)
        trs.append(hist + [c])
    return progs, trs


def check(prop, tier, seed, work, d):
    """(programs, lines of traces, number of rejected programs)"""
    progs, trs = borrow_programs(prop, tier, seed, work, d) if prop == "C20" else operand_programs(tier, work, d)
    bad = compile_all(progs, work)
    lines = []
    for i, t in enumerate(trs):
        lines.append([json.dumps({"op": "reset", "id": "%s-%d" % (prop, i)})]
                     + [json.dumps(dict(x, ok=j < len(t) - 1 or i not in bad)) for j, x in enumerate(t)])
    return progs, lines, bad
