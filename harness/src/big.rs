//! Layouts too large to be backed by memory: index conversions, placement,
//! acceptance by a container of a given (claimed) size, checked access, and
//! placement of blocks.  The container records the cells asked for and holds
//! no memory.  Numbers are decimal strings in programs and sequences of
//! base-2^12 limbs, least significant first, in traces.

use super::*;
use householder::base_matrix::BaseMatrix;
use householder::data_container::*;
use householder::layouts::*;
use householder::matrix::Matrix;
use householder::traits::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static ASKED: Cell<Option<usize>> = Cell::new(None); }

struct Ghost(usize, f64);
impl DataContainer for Ghost {
    type Item = f64;
    unsafe fn get_unchecked(&self, index: usize) -> f64 { ASKED.with(|a| a.set(Some(index))); 0.0 }
    fn get_pointer(&self) -> *const f64 { std::ptr::NonNull::<f64>::dangling().as_ptr() }
    fn number_of_elements(&self) -> usize { self.0 }
}
impl DataContainerMut for Ghost {
    unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut f64 { ASKED.with(|a| a.set(Some(index))); &mut self.1 }
    fn get_pointer_mut(&mut self) -> *mut f64 { std::ptr::NonNull::<f64>::dangling().as_ptr() }
}

fn dec(v: &Value) -> usize {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or_else(|| bad("big number"))
}
fn limbs(mut n: usize) -> Value {
    let mut l = vec![];
    while n > 0 { l.push(n % 4096); n /= 4096; }
    json!(l)
}
fn limb2(p: (usize, usize)) -> Value { json!([limbs(p.0), limbs(p.1)]) }
fn tried<X>(f: impl FnOnce() -> X) -> (&'static str, Option<X>) {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(x) => ("ok", Some(x)), Err(_) => ("panic", None) }
}

fn facts<L: LayoutType>(o: &Value, ev: &mut Ev, mk: &dyn Fn() -> L) {
    let n = dec(&o["n"]);
    let (out, m) = tried(|| Matrix::<f64, BaseMatrix<f64, Ghost, L, Dynamic, Dynamic>, L, Dynamic, Dynamic>::from_data(Ghost(n, 0.0), mk()));
    ev.insert("out".into(), json!(out));
    let empty: Vec<Value> = vec![];
    let list = |f: &str| o[f].as_array().unwrap_or_else(|| bad(f)).clone();
    let ut = o["k"] == "UT";
    let mut m = match m {
        Some(m) => m,
        None => {
            for f in ["dim", "cnt", "stride", "conv1", "conv2", "acc1", "acc2"] { ev.insert(f.into(), json!(empty)); }
            return;
        }
    };
    ev.insert("dim".into(), limb2(m.layout().dim()));
    ev.insert("cnt".into(), limbs(m.layout().number_of_elements()));
    ev.insert("stride".into(), if ut { json!([]) } else { limb2(m.layout().stride()) });
    // conversions of existing elements
    ev.insert("conv1".into(), Value::Array(list("conv1").iter().map(|i| {
        let i = dec(i);
        let x = tried(|| (m.layout().convert_1d_2d(i), m.layout().convert_1d_raw(i),
                          m.layout().index_layout().convert_1d_2d(i), m.layout().index_layout().convert_1d_raw(i))).1;
        match x {
            Some((p, r, q, s)) => json!({"i": limbs(i), "ok": "ok", "pos": limb2(p), "raw": limbs(r), "ipos": limb2(q), "iraw": limbs(s)}),
            None => json!({"i": limbs(i), "ok": "panic", "pos": [], "raw": [], "ipos": [], "iraw": []}),
        }
    }).collect()));
    ev.insert("conv2".into(), Value::Array(list("conv2").iter().map(|p| {
        let (r, c) = (dec(&p[0]), dec(&p[1]));
        let x = tried(|| (m.layout().convert_2d_1d(r, c), m.layout().convert_2d_raw(r, c),
                          m.layout().index_layout().convert_2d_1d(r, c), m.layout().index_layout().convert_2d_raw(r, c))).1;
        match x {
            Some((i, w, j, v)) => json!({"pos": limb2((r, c)), "ok": "ok", "i": limbs(i), "raw": limbs(w), "ii": limbs(j), "iraw": limbs(v)}),
            None => json!({"pos": limb2((r, c)), "ok": "panic", "i": [], "raw": [], "ii": [], "iraw": []}),
        }
    }).collect()));
    // checked accesses, read and write; cell: the one asked for
    let mut asked = |f: &mut dyn FnMut(&mut Matrix<f64, BaseMatrix<f64, Ghost, L, Dynamic, Dynamic>, L, Dynamic, Dynamic>)| {
        ASKED.with(|a| a.set(None));
        let o = tried(|| f(&mut m)).0;
        (o, ASKED.with(|a| a.get()).map(limbs).unwrap_or(json!([-1])))
    };
    let mut acc1 = vec![];
    for i in list("acc1") {
        let i = dec(&i);
        let g = asked(&mut |m| { RandomAccess::get1d(m, i); });
        let s = asked(&mut |m| { RandomAccessMut::get1d_mut(m, i); });
        acc1.push(json!({"i": limbs(i), "g": g.0, "gc": g.1, "s": s.0, "sc": s.1}));
    }
    let mut acc2 = vec![];
    for p in list("acc2") {
        let (r, c) = (dec(&p[0]), dec(&p[1]));
        let g = asked(&mut |m| { RandomAccess::get(m, r, c); });
        let s = asked(&mut |m| { RandomAccessMut::get_mut(m, r, c); });
        acc2.push(json!({"pos": limb2((r, c)), "g": g.0, "gc": g.1, "s": s.0, "sc": s.1}));
    }
    ev.insert("acc1".into(), Value::Array(acc1));
    ev.insert("acc2".into(), Value::Array(acc2));
}

pub fn run(s: &Value, out: &mut Out) {
    out.line(&json!({"op": "reset", "cx": false, "nz": false, "p": 0, "lg": true, "lot": 1, "id": s["id"], "t": s["t"]}));
    for o in s["ops"].as_array().unwrap_or_else(|| bad("ops")) {
        let mut ev: Ev = Ev::new();
        let (r, c, s0, s1) = (dec(&o["r"]), dec(&o["c"]), dec(&o["s0"]), dec(&o["s1"]));
        for (f, v) in [("r", r), ("c", c), ("s0", s0), ("s1", s1), ("n", dec(&o["n"]))] { ev.insert(f.into(), limbs(v)); }
        ev.insert("op".into(), json!("big"));
        ev.insert("k".into(), o["k"].clone());
        match st(o, "k") {
            "RM" => facts(o, &mut ev, &|| RowMajor::new((r, c))),
            "CM" => facts(o, &mut ev, &|| ColumnMajor::new((r, c))),
            "RV" => facts(o, &mut ev, &|| RowVector::new(c)),
            "CV" => facts(o, &mut ev, &|| ColumnVector::new(r)),
            "UT" => facts(o, &mut ev, &|| UpperTriangular::new(r)),
            "ASRM" => facts(o, &mut ev, &|| ArbitraryStrideRowMajor::new((r, c), (s0, s1))),
            "ASCM" => facts(o, &mut ev, &|| ArbitraryStrideColumnMajor::new((r, c), (s0, s1))),
            "ASRV" => facts(o, &mut ev, &|| ArbitraryStrideRowVector::new(c, s1)),
            "ASCV" => facts(o, &mut ev, &|| ArbitraryStrideColumnVector::new(r, s0)),
            _ => bad("layout"),
        }
        out.line(&Value::Object(ev));
    }
}
