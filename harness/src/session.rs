// The interpreter of programs for one scalar type.  Included once per type
// into a module that defines T (scalar), R (real part) and the selector
// macros if_cx!, if_dot!, if_zoo!.

use super::*;
use householder::data_container::*;
use householder::layouts::*;
use householder::matrix::*;
use householder::matrix_ref::*;
use householder::base_matrix::BaseMatrix;
use householder::tools::RandScalar;
use householder::traits::*;
#[allow(unused_imports)]
use householder::types::Scalar;
use rand::prelude::*;
use rand_distr::StandardNormal;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

type M<I, L, RS, CS> = Matrix<T, I, L, RS, CS>;
type BM<C, L, RS, CS> = BaseMatrix<T, C, L, RS, CS>;
type DMat<C, L, RS, CS> = Matrix<T, BaseMatrix<T, C, L, RS, CS>, L, RS, CS>;

// ---------------------------------------------------------------------
// Scalars

thread_local! {
    // values of the object at hand are integers times 2^UNIT
    static UNIT: RefCell<i32> = RefCell::new(0);
    static SIGNED: RefCell<bool> = RefCell::new(false);
    // rounding mode: values are floating-point numbers of any size, written
    // as [sign, base-2^12 limbs of the integer], least significant first
    static FLOAT: RefCell<bool> = RefCell::new(false);
    static TOKENS: RefCell<HashMap<u64, i64>> = RefCell::new(HashMap::new());
    static TOUCH: RefCell<Vec<usize>> = RefCell::new(Vec::new());
    static READS: RefCell<Vec<(u32, (usize, usize), Read)>> = RefCell::new(Vec::new());
    static LAYS: RefCell<HashMap<u32, (usize, usize, usize)>> = RefCell::new(HashMap::new());
}

#[derive(Clone, Copy)]
enum Read {
    One(usize),
    Two(usize, usize),
    Bad,
}

fn enc_r(x: R) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    if x == R::INFINITY {
        return PINF;
    }
    if x == R::NEG_INFINITY {
        return NINF;
    }
    if x == 0.0 {
        return if x.is_sign_negative() && SIGNED.with(|s| *s.borrow()) { NZ } else { 0 };
    }
    if let Some(t) = TOKENS.with(|t| t.borrow().get(&(x as f64).to_bits()).copied()) {
        return t;
    }
    let x = x * (2.0 as R).powi(-unit());
    if x.is_nan() || x.abs() >= 1.9e9 {
        return BIG;
    }
    if x.fract() != 0.0 {
        return FRAC;
    }
    x as i64
}
fn dec_r(n: i64, unit: i32) -> R {
    match n {
        NAN => R::NAN,
        PINF => R::INFINITY,
        NINF => R::NEG_INFINITY,
        NZ => -0.0,
        _ => n as R * (2.0 as R).powi(unit),
    }
}
/// x = (-1)^neg * m * 2^e
fn parts(x: R) -> (bool, u64, i32) {
    let b = x.to_bits() as u64;
    let (mb, eb) = if std::mem::size_of::<R>() == 8 { (52, 11) } else { (23, 8) };
    let (f, e) = (b & ((1 << mb) - 1), ((b >> mb) & ((1 << eb) - 1)) as i32);
    let bias = (1 << (eb - 1)) - 1 + mb as i32;
    if e == 0 { (x.is_sign_negative(), f, 1 - bias) } else { (x.is_sign_negative(), f | 1 << mb, e - bias) }
}
/// limbs of m * 2^e
fn limbs(m: u64, e: usize) -> Value {
    let mut l = vec![0u32; e / 12];
    let mut m = (m as u128) << (e % 12);
    while m > 0 { l.push((m % 4096) as u32); m /= 4096; }
    json!(l)
}
fn enc_fl(x: R) -> Value {
    if !x.is_finite() { return json!([2, [0]]); }
    if x == 0.0 { return json!([0, []]); }
    let (neg, mut m, mut e) = parts(x);
    let z = m.trailing_zeros();
    m >>= z;
    e += z as i32 - unit();
    if e < 0 { return json!([2, [1]]); }    // not a multiple of 2^unit
    json!([if neg { -1 } else { 1 }, limbs(m, e as usize)])
}
fn dec_fl(v: &Value, unit: i32) -> R {
    let mut x: R = 0.0;
    for d in v[1].as_array().unwrap_or_else(|| bad("float")).iter().rev() { x = x * 4096.0 + d.as_u64().unwrap_or_else(|| bad("limb")) as R; }
    x * v[0].as_i64().unwrap_or_else(|| bad("sign")) as R * (2.0 as R).powi(unit)
}
fn float() -> bool { FLOAT.with(|f| *f.borrow()) }
fn enc_v(x: R) -> Value { if float() { enc_fl(x) } else { json!(enc_r(x)) } }
fn dec_v(v: &Value, unit: i32) -> R {
    if float() { return dec_fl(v, unit); }
    dec_r(v.as_i64().unwrap_or_else(|| bad("value")), unit)
}
fn enc(x: T) -> Value {
    if_cx!({ json!([enc_v(x.re()), enc_v(x.im())]) } { enc_v(x.re()) })
}
fn unit() -> i32 {
    UNIT.with(|u| *u.borrow())
}
fn set_unit(e: i32) {
    UNIT.with(|u| *u.borrow_mut() = e)
}
fn dec(v: &Value) -> T {
    dec_at(v, unit())
}
fn dec_at(v: &Value, unit: i32) -> T {
    if_cx!({
        T::new(dec_v(&v[0], unit), dec_v(&v[1], unit))
    } { (dec_v(v, unit) as f64) as _ })
}
fn zero() -> T {
    if_cx!({ T::new(0.0, 0.0) } { 0.0 })
}
fn encs(x: &[T]) -> Value {
    Value::Array(x.iter().map(|v| enc(*v)).collect())
}
fn decs(v: &Value) -> Vec<T> {
    v.as_array().unwrap_or_else(|| bad("values")).iter().map(dec).collect()
}

fn enc_bits(x: R) -> Value {
    let (neg, mut m, mut e) = parts(x);
    let cls = if x.is_nan() { "nan" } else if x.is_infinite() { "i" } else if x == 0.0 { "z" } else { "n" };
    if cls != "n" && cls != "z" { m = 0; e = 0; }
    json!({"cls": cls, "neg": neg, "m": limbs(m, 0), "e": e})
}
fn angle(y: R, x: R) -> R {
    let scalar = |v: R| -> T { if_cx!({ T::new(v, 0.0) } { v }) };
    householder::types::HScalar::atan2(scalar(y), scalar(x)).re()
}

// ---------------------------------------------------------------------
// Layouts

pub trait LayDyn {
    fn dim_(&self) -> (usize, usize);
    fn n_(&self) -> usize;
    fn stride_(&self) -> (usize, usize);
    fn c12(&self, i: usize) -> (usize, usize);
    fn c21(&self, r: usize, c: usize) -> usize;
    fn raw1(&self, i: usize) -> usize;
    fn raw2(&self, r: usize, c: usize) -> usize;
    fn idim(&self) -> (usize, usize);
    fn inum(&self) -> usize;
    fn ic12(&self, i: usize) -> (usize, usize);
    fn ic21(&self, r: usize, c: usize) -> usize;
    fn iraw1(&self, i: usize) -> usize;
    fn iraw2(&self, r: usize, c: usize) -> usize;
}
impl<L: LayoutType> LayDyn for L {
    fn dim_(&self) -> (usize, usize) { self.dim() }
    fn n_(&self) -> usize { self.number_of_elements() }
    fn stride_(&self) -> (usize, usize) { self.stride() }
    fn c12(&self, i: usize) -> (usize, usize) { self.convert_1d_2d(i) }
    fn c21(&self, r: usize, c: usize) -> usize { self.convert_2d_1d(r, c) }
    fn raw1(&self, i: usize) -> usize { self.convert_1d_raw(i) }
    fn raw2(&self, r: usize, c: usize) -> usize { self.convert_2d_raw(r, c) }
    fn idim(&self) -> (usize, usize) { self.index_layout().dim() }
    fn inum(&self) -> usize { self.index_layout().number_of_elements() }
    fn ic12(&self, i: usize) -> (usize, usize) { self.index_layout().convert_1d_2d(i) }
    fn ic21(&self, r: usize, c: usize) -> usize { self.index_layout().convert_2d_1d(r, c) }
    fn iraw1(&self, i: usize) -> usize { self.index_layout().convert_1d_raw(i) }
    fn iraw2(&self, r: usize, c: usize) -> usize { self.index_layout().convert_2d_raw(r, c) }
}

#[derive(Clone, Copy)]
pub struct Spec<'a> { k: &'a str, r: usize, c: usize, s0: usize, s1: usize }
fn spec(o: &Value) -> Spec<'_> {
    Spec { k: st(o, "k"), r: us(&o["r"]), c: us(&o["c"]), s0: us(&o["s0"]), s1: us(&o["s1"]) }
}
pub trait Mk: LayoutType<IndexLayout = <Self as Mk>::IL> + 'static {
    type IL: Mk + BaseLayoutType;
    fn mk(s: Spec) -> Self;
}
macro_rules! mk {
    ($L:ident, $B:ident, $s:ident, $($e:expr),*) => {
        impl Mk for $L {
            type IL = $B;
            fn mk($s: Spec) -> Self { Self::new($($e),*) }
        }
    };
}
mk!(RowMajor, RowMajor, s, (s.r, s.c));
mk!(ColumnMajor, ColumnMajor, s, (s.r, s.c));
mk!(RowVector, RowVector, s, s.c);
mk!(ColumnVector, ColumnVector, s, s.r);
mk!(UpperTriangular, UpperTriangular, s, s.r);
mk!(ArbitraryStrideRowMajor, RowMajor, s, (s.r, s.c), (s.s0, s.s1));
mk!(ArbitraryStrideColumnMajor, ColumnMajor, s, (s.r, s.c), (s.s0, s.s1));
mk!(ArbitraryStrideRowVector, RowVector, s, s.c, s.s1);
mk!(ArbitraryStrideColumnVector, ColumnVector, s, s.r, s.s0);

/// Size pairs: what a matrix can do depends on them.
pub trait SP: 'static {
    type RS: SizeIdentifier + 'static;
    type CS: SizeIdentifier + 'static;
    const NAME: &'static str;
    fn length<I: MatrixTrait<T, L, Self::RS, Self::CS>, L: Mk>(_m: &M<I, L, Self::RS, Self::CS>) -> Option<usize> { None }
    fn eval<I: MatrixTrait<T, L, Self::RS, Self::CS>, L: Mk>(_m: &M<I, L, Self::RS, Self::CS>) -> Box<dyn Obj> { bad("eval") }
}
pub struct DD; pub struct D1; pub struct OD; pub struct S12; pub struct S13; pub struct S21;
pub struct S31; pub struct S22; pub struct S33; pub struct S23; pub struct S32;
impl SP for DD {
    type RS = Dynamic; type CS = Dynamic;
    const NAME: &'static str = "DD";
    fn eval<I: MatrixTrait<T, L, Dynamic, Dynamic>, L: Mk>(m: &M<I, L, Dynamic, Dynamic>) -> Box<dyn Obj> {
        Box::new(DM::<VectorContainer<T>, L::IL, DD>(m.eval()))
    }
}
impl SP for D1 {
    type RS = Dynamic; type CS = Fixed1;
    const NAME: &'static str = "D1";
    fn length<I: MatrixTrait<T, L, Dynamic, Fixed1>, L: Mk>(m: &M<I, L, Dynamic, Fixed1>) -> Option<usize> { Some(m.length()) }
}
impl SP for OD {
    type RS = Fixed1; type CS = Dynamic;
    const NAME: &'static str = "1D";
    fn length<I: MatrixTrait<T, L, Fixed1, Dynamic>, L: Mk>(m: &M<I, L, Fixed1, Dynamic>) -> Option<usize> { Some(m.length()) }
}
macro_rules! sp { ($S:ident, $R:ident, $C:ident, $N:expr) => {
    impl SP for $S { type RS = $R; type CS = $C; const NAME: &'static str = $N; }
}; }
sp!(S12, Fixed1, Fixed2, "12");
sp!(S13, Fixed1, Fixed3, "13");
sp!(S21, Fixed2, Fixed1, "21");
sp!(S31, Fixed3, Fixed1, "31");
sp!(S22, Fixed2, Fixed2, "22");
sp!(S33, Fixed3, Fixed3, "33");
sp!(S23, Fixed2, Fixed3, "23");
sp!(S32, Fixed3, Fixed2, "32");

// ---------------------------------------------------------------------
// Objects

pub trait Obj {
    fn get(&self, r: usize, c: usize) -> T;
    fn get1(&self, i: usize) -> T;
    fn uget(&self, r: usize, c: usize) -> T;
    fn uget1(&self, i: usize) -> T;
    fn mdim(&self) -> (usize, usize);
    fn length(&self) -> Option<usize>;
    fn lay(&self) -> &dyn LayDyn;
    fn lay_tid(&self) -> TypeId;
    fn lay_ptr(&self) -> *const u8;
    fn sz(&self) -> &'static str;
    /// compile-time sizes according to the type of the matrix
    fn sid(&self) -> (usize, usize);
    fn eval(&self) -> Box<dyn Obj>;
    /// reads of elements have to be logged by whoever wraps this object
    fn logged(&self) -> bool;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn mkref(&'static self) -> Box<dyn Obj>;
    fn mt(&mut self) -> Option<&mut dyn MObj> { None }
    fn dn(&self) -> Option<&dyn DObj> { None }
    fn dm(&mut self) -> Option<&mut dyn DMObj> { None }
}
pub trait MObj {
    fn get_mut(&mut self, r: usize, c: usize) -> &mut T;
    fn get1_mut(&mut self, i: usize) -> &mut T;
    fn uget_mut(&mut self, r: usize, c: usize) -> &mut T;
    fn uget1_mut(&mut self, i: usize) -> &mut T;
    fn mkrefm(&'static mut self) -> Box<dyn Obj>;
}
pub trait DObj {
    fn slice(&self, f: usize, t: usize) -> &[T];
    fn ptr(&self) -> *const T;
    fn block(&'static self, tl: (usize, usize), dim: (usize, usize)) -> Box<dyn Obj>;
}
pub trait DMObj {
    fn slice_mut(&mut self, f: usize, t: usize) -> &mut [T];
    fn ptr_mut(&mut self) -> *mut T;
    fn each(&mut self, f: &mut dyn FnMut(&mut T));
    fn fill(&mut self, rng: &mut Wild);
    fn block_mut(&'static mut self, tl: (usize, usize), dim: (usize, usize)) -> Box<dyn Obj>;
    fn split(&'static mut self, at: (usize, usize)) -> [Box<dyn Obj>; 4];
}


/// dense, read-only container
pub struct D<C: DataContainer<Item = T> + 'static, L: Mk, S: SP>(DMat<C, L, S::RS, S::CS>);
/// dense, writable container
pub struct DM<C: DataContainerMut<Item = T> + 'static, L: Mk, S: SP>(DMat<C, L, S::RS, S::CS>);
/// anything else that can be read
pub struct G<I: MatrixTrait<T, L, S::RS, S::CS> + 'static, L: Mk, S: SP>(M<I, L, S::RS, S::CS>, bool);
/// anything else that can be written
pub struct GM<I: MatrixTraitMut<T, L, S::RS, S::CS> + 'static, L: Mk, S: SP>(M<I, L, S::RS, S::CS>, bool);

fn sizes<M: SizeType>(_: &M) -> (usize, usize) { (<M::R as SizeIdentifier>::N, <M::C as SizeIdentifier>::N) }

macro_rules! reads {
    () => {
        fn get(&self, r: usize, c: usize) -> T { RandomAccess::get(&self.0, r, c) }
        fn get1(&self, i: usize) -> T { RandomAccess::get1d(&self.0, i) }
        fn uget(&self, r: usize, c: usize) -> T { unsafe { self.0.get_unchecked(r, c) } }
        fn uget1(&self, i: usize) -> T { unsafe { self.0.get1d_unchecked(i) } }
        fn mdim(&self) -> (usize, usize) { self.0.dim() }
        fn length(&self) -> Option<usize> { S::length(&self.0) }
        fn lay(&self) -> &dyn LayDyn { self.0.layout() }
        fn lay_tid(&self) -> TypeId { TypeId::of::<L>() }
        fn lay_ptr(&self) -> *const u8 { self.0.layout() as *const L as *const u8 }
        fn sz(&self) -> &'static str { S::NAME }
        fn sid(&self) -> (usize, usize) { sizes(&self.0) }
        fn eval(&self) -> Box<dyn Obj> { S::eval(&self.0) }
        fn any(&self) -> &dyn Any { &self.0 }
        fn any_mut(&mut self) -> &mut dyn Any { &mut self.0 }
    };
}
macro_rules! writes {
    () => {
        fn get_mut(&mut self, r: usize, c: usize) -> &mut T { RandomAccessMut::get_mut(&mut self.0, r, c) }
        fn get1_mut(&mut self, i: usize) -> &mut T { RandomAccessMut::get1d_mut(&mut self.0, i) }
        fn uget_mut(&mut self, r: usize, c: usize) -> &mut T { unsafe { self.0.get_unchecked_mut(r, c) } }
        fn uget1_mut(&mut self, i: usize) -> &mut T { unsafe { self.0.get1d_unchecked_mut(i) } }
    };
}
type RefI<I, L, S> = MatrixRef<'static, T, I, L, <S as SP>::RS, <S as SP>::CS>;
type RefMI<I, L, S> = MatrixRefMut<'static, T, I, L, <S as SP>::RS, <S as SP>::CS>;

impl<C: DataContainer<Item = T> + 'static, L: Mk, S: SP> Obj for D<C, L, S> {
    reads!();
    fn logged(&self) -> bool { true }
    fn mkref(&'static self) -> Box<dyn Obj> {
        Box::new(G::<RefI<BM<C, L, S::RS, S::CS>, L, S>, L, S>(Matrix::from_ref(&self.0), true))
    }
    fn dn(&self) -> Option<&dyn DObj> { Some(self) }
}
impl<C: DataContainerMut<Item = T> + 'static, L: Mk, S: SP> Obj for DM<C, L, S> {
    reads!();
    fn logged(&self) -> bool { true }
    fn mkref(&'static self) -> Box<dyn Obj> {
        Box::new(G::<RefI<BM<C, L, S::RS, S::CS>, L, S>, L, S>(Matrix::from_ref(&self.0), true))
    }
    fn mt(&mut self) -> Option<&mut dyn MObj> { Some(self) }
    fn dn(&self) -> Option<&dyn DObj> { Some(self) }
    fn dm(&mut self) -> Option<&mut dyn DMObj> { Some(self) }
}
impl<C: DataContainerMut<Item = T> + 'static, L: Mk, S: SP> MObj for DM<C, L, S> {
    writes!();
    fn mkrefm(&'static mut self) -> Box<dyn Obj> {
        Box::new(GM::<RefMI<BM<C, L, S::RS, S::CS>, L, S>, L, S>(
            Matrix::new(MatrixRefMut::new(&mut self.0)), true))
    }
}

fn dense_block<C: DataContainer<Item = T> + 'static>(m: &'static dyn Any, tl: (usize, usize), dim: (usize, usize)) -> Box<dyn Obj> {
    macro_rules! t { ($L:ident, $S:ident) => {
        if let Some(x) = m.downcast_ref::<DMat<C, $L, Dynamic, Dynamic>>() {
            return Box::new(D::<SliceContainer<'static, T>, $S, DD>(x.block(tl, dim)));
        }
    }; }
    t!(RowMajor, ArbitraryStrideRowMajor);
    t!(ColumnMajor, ArbitraryStrideColumnMajor);
    t!(ArbitraryStrideRowMajor, ArbitraryStrideRowMajor);
    t!(ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor);
    bad("block")
}
impl<C: DataContainer<Item = T> + 'static, L: Mk, S: SP> DObj for D<C, L, S> {
    fn slice(&self, f: usize, t: usize) -> &[T] { self.0.get_slice(f, t) }
    fn ptr(&self) -> *const T { self.0.get_pointer() }
    fn block(&'static self, tl: (usize, usize), dim: (usize, usize)) -> Box<dyn Obj> { dense_block::<C>(&self.0, tl, dim) }
}
impl<C: DataContainerMut<Item = T> + 'static, L: Mk, S: SP> DObj for DM<C, L, S> {
    fn slice(&self, f: usize, t: usize) -> &[T] { self.0.get_slice(f, t) }
    fn ptr(&self) -> *const T { self.0.get_pointer() }
    fn block(&'static self, tl: (usize, usize), dim: (usize, usize)) -> Box<dyn Obj> { dense_block::<C>(&self.0, tl, dim) }
}
impl<C: DataContainerMut<Item = T> + 'static, L: Mk, S: SP> DMObj for DM<C, L, S> {
    fn slice_mut(&mut self, f: usize, t: usize) -> &mut [T] { self.0.get_slice_mut(f, t) }
    fn ptr_mut(&mut self) -> *mut T { self.0.get_pointer_mut() }
    fn each(&mut self, f: &mut dyn FnMut(&mut T)) { self.0.for_each(|x| f(x)) }
    fn fill(&mut self, rng: &mut Wild) { self.0.fill_from_rand_standard_normal(rng) }
    fn block_mut(&'static mut self, tl: (usize, usize), dim: (usize, usize)) -> Box<dyn Obj> {
        let m: &'static mut dyn Any = &mut self.0;
        macro_rules! t { ($L:ident, $B:ident) => {
            if m.is::<DMat<C, $L, Dynamic, Dynamic>>() {
                let x = m.downcast_mut::<DMat<C, $L, Dynamic, Dynamic>>().unwrap();
                return Box::new(DM::<SliceContainerMut<'static, T>, $B, DD>(x.block_mut(tl, dim)));
            }
        }; }
        t!(RowMajor, ArbitraryStrideRowMajor);
        t!(ColumnMajor, ArbitraryStrideColumnMajor);
        t!(ArbitraryStrideRowMajor, ArbitraryStrideRowMajor);
        t!(ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor);
        bad("block_mut")
    }
    fn split(&'static mut self, at: (usize, usize)) -> [Box<dyn Obj>; 4] {
        let m: &'static mut dyn Any = &mut self.0;
        if let Some(x) = m.downcast_mut::<DMat<C, RowMajor, Dynamic, Dynamic>>() {
            let (a, b, c, d) = x.split_in_four_mut(at);
            return [Box::new(DM::<_, _, DD>(a)), Box::new(DM::<_, _, DD>(b)), Box::new(DM::<_, _, DD>(c)), Box::new(DM::<_, _, DD>(d))];
        }
        bad("split")
    }
}

impl<I: MatrixTrait<T, L, S::RS, S::CS> + 'static, L: Mk, S: SP> Obj for G<I, L, S> {
    reads!();
    fn logged(&self) -> bool { self.1 }
    fn mkref(&'static self) -> Box<dyn Obj> { ref_of_dyn::<L, S>(self) }
}
impl<I: MatrixTraitMut<T, L, S::RS, S::CS> + 'static, L: Mk, S: SP> Obj for GM<I, L, S> {
    reads!();
    fn logged(&self) -> bool { self.1 }
    fn mkref(&'static self) -> Box<dyn Obj> { ref_of_dyn::<L, S>(self) }
    fn mt(&mut self) -> Option<&mut dyn MObj> { Some(self) }
}
impl<I: MatrixTraitMut<T, L, S::RS, S::CS> + 'static, L: Mk, S: SP> MObj for GM<I, L, S> {
    writes!();
    fn mkrefm(&'static mut self) -> Box<dyn Obj> { refm_of_dyn::<L, S>(self) }
}
fn ref_of_dyn<L: Mk, S: SP>(o: &'static dyn Obj) -> Box<dyn Obj> {
    let lg = o.logged();
    let b: &'static M<DynImpl<L, S>, L, S::RS, S::CS> =
        Box::leak(Box::new(Matrix::new(DynImpl::<L, S> { o, own: false, leaf: 0, p: std::marker::PhantomData })));
    Box::new(G::<RefI<DynImpl<L, S>, L, S>, L, S>(Matrix::from_ref(b), lg))
}
fn refm_of_dyn<L: Mk, S: SP>(o: &'static mut dyn Obj) -> Box<dyn Obj> {
    let lg = o.logged();
    let b: &'static mut M<DynMut<L, S>, L, S::RS, S::CS> =
        Box::leak(Box::new(Matrix::new(DynMut::<L, S>(o, std::marker::PhantomData))));
    Box::new(GM::<RefMI<DynMut<L, S>, L, S>, L, S>(Matrix::new(MatrixRefMut::new(b)), lg))
}

/// A matrix implementation that forwards to an object of this driver; reads
/// of elements of a leaf are logged.
pub struct DynImpl<L: Mk, S: SP> { o: *const dyn Obj, own: bool, leaf: u32, p: std::marker::PhantomData<(L, S)> }
impl<L: Mk, S: SP> Drop for DynImpl<L, S> {
    fn drop(&mut self) {
        if self.own { unsafe { drop(Box::from_raw(self.o as *mut dyn Obj)) } }
    }
}
impl<L: Mk, S: SP> Layout for DynImpl<L, S> {
    type Impl = L;
    fn layout(&self) -> &L {
        let o = unsafe { &*self.o };
        if o.lay_tid() != TypeId::of::<L>() || o.sz() != S::NAME { bad("operand layout") }
        unsafe { &*(o.lay_ptr() as *const L) }
    }
}
impl<L: Mk, S: SP> SizeType for DynImpl<L, S> { type R = S::RS; type C = S::CS; }
impl<L: Mk, S: SP> UnsafeRandomAccess for DynImpl<L, S> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        let o = &*self.o;
        if self.leaf == 0 { return o.uget(row, col); }
        let d = LAYS.with(|l| l.borrow()[&self.leaf]);
        if row >= d.0 || col >= d.1 {
            READS.with(|x| x.borrow_mut().push((self.leaf, (d.0, d.1), Read::Bad)));
            return zero();
        }
        let v = o.uget(row, col);
        READS.with(|x| x.borrow_mut().push((self.leaf, (d.0, d.1), Read::Two(row, col))));
        v
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        let o = &*self.o;
        if self.leaf == 0 { return o.uget1(i); }
        let d = LAYS.with(|l| l.borrow()[&self.leaf]);
        if i >= d.2 {
            READS.with(|x| x.borrow_mut().push((self.leaf, (d.0, d.1), Read::Bad)));
            return zero();
        }
        let v = o.uget1(i);
        READS.with(|x| x.borrow_mut().push((self.leaf, (d.0, d.1), Read::One(i))));
        v
    }
}
pub struct DynMut<L: Mk, S: SP>(*mut dyn Obj, std::marker::PhantomData<(L, S)>);
impl<L: Mk, S: SP> Layout for DynMut<L, S> {
    type Impl = L;
    fn layout(&self) -> &L { unsafe { &*((*self.0).lay_ptr() as *const L) } }
}
impl<L: Mk, S: SP> SizeType for DynMut<L, S> { type R = S::RS; type C = S::CS; }
impl<L: Mk, S: SP> UnsafeRandomAccess for DynMut<L, S> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T { (*self.0).uget(row, col) }
    unsafe fn get1d_unchecked(&self, i: usize) -> T { (*self.0).uget1(i) }
}
impl<L: Mk, S: SP> UnsafeRandomAccessMut for DynMut<L, S> {
    type Item = T;
    unsafe fn get_unchecked_mut(&mut self, row: usize, col: usize) -> &mut T {
        (*self.0).mt().unwrap_or_else(|| bad("mut")).uget_mut(row, col)
    }
    unsafe fn get1d_unchecked_mut(&mut self, i: usize) -> &mut T {
        (*self.0).mt().unwrap_or_else(|| bad("mut")).uget1_mut(i)
    }
}

/// A container of the user of the library: records the cells asked for.
pub struct Usr { p: *mut T, len: usize, sink: T }
impl DataContainer for Usr {
    type Item = T;
    unsafe fn get_unchecked(&self, index: usize) -> T {
        TOUCH.with(|t| t.borrow_mut().push(index));
        if index >= self.len { return zero(); }
        *self.p.add(index)
    }
    fn get_pointer(&self) -> *const T { self.p }
    fn number_of_elements(&self) -> usize { self.len }
}
impl DataContainerMut for Usr {
    unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut T {
        TOUCH.with(|t| t.borrow_mut().push(index));
        if index >= self.len { return &mut self.sink; }
        &mut *self.p.add(index)
    }
    fn get_pointer_mut(&mut self) -> *mut T { self.p }
}

/// For products of less common combinations: the same memory, dimension and
/// strides in one type.
struct Ers { p: *mut T, len: usize }
impl DataContainer for Ers {
    type Item = T;
    unsafe fn get_unchecked(&self, index: usize) -> T { *self.p.add(index) }
    fn get_pointer(&self) -> *const T { self.p }
    fn number_of_elements(&self) -> usize { self.len }
}
impl DataContainerMut for Ers {
    unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut T { &mut *self.p.add(index) }
    fn get_pointer_mut(&mut self) -> *mut T { self.p }
}
struct DynL(*const dyn LayDyn);
impl DynL { fn l(&self) -> &dyn LayDyn { unsafe { &*self.0 } } }
impl LayoutType for DynL {
    type IndexLayout = RowMajor;
    fn stride(&self) -> (usize, usize) { self.l().stride_() }
    fn dim(&self) -> (usize, usize) { self.l().dim_() }
    fn number_of_elements(&self) -> usize { self.l().n_() }
    fn convert_1d_2d(&self, i: usize) -> (usize, usize) { self.l().c12(i) }
    fn convert_2d_1d(&self, r: usize, c: usize) -> usize { self.l().c21(r, c) }
    fn convert_1d_raw(&self, i: usize) -> usize { self.l().raw1(i) }
    fn convert_2d_raw(&self, r: usize, c: usize) -> usize { self.l().raw2(r, c) }
    fn index_layout(&self) -> RowMajor { RowMajor::new(self.dim()) }
}
impl StridedLayoutType for DynL {}
fn erase<RS: SizeIdentifier, CS: SizeIdentifier>(o: &dyn Obj) -> DMat<Ers, DynL, RS, CS> {
    let p = o.dn().unwrap_or_else(|| bad("dense operand")).ptr() as *mut T;
    let l: *const dyn LayDyn = unsafe { std::mem::transmute::<&dyn LayDyn, &'static dyn LayDyn>(o.lay()) };
    Matrix::from_data(Ers { p, len: usize::MAX }, DynL(l))
}

type Vc = VectorContainer<T>;
type Scn = SliceContainer<'static, T>;
type Sm = SliceContainerMut<'static, T>;
type MdV<L> = DMat<Vc, L, Dynamic, Dynamic>;
type MdS<L> = DMat<Scn, L, Dynamic, Dynamic>;
type MdM<L> = DMat<Sm, L, Dynamic, Dynamic>;
type CvV = DMat<Vc, ColumnVector, Dynamic, Fixed1>;
type RvV = DMat<Vc, RowVector, Fixed1, Dynamic>;

macro_rules! pick {
    ($o:expr, $x:ident, [$($Ty:ty),*], $body:expr) => {{
        $( if let Some($x) = $o.any().downcast_ref::<$Ty>() { $body } )*
    }};
}
macro_rules! pickm {
    ($o:expr, $x:ident, [$($Ty:ty),*], $body:expr) => {{
        $( if let Some($x) = $o.any_mut().downcast_mut::<$Ty>() { $body } )*
    }};
}
fn matmul(alpha: T, a: &dyn Obj, b: &dyn Obj, beta: T, c: &mut dyn Obj) {
    use householder::MatMul;
    match (a.sz(), b.sz(), c.sz()) {
        ("DD", "DD", "DD") => {
            pick!(a, x, [MdV<RowMajor>, MdV<ColumnMajor>, MdS<ArbitraryStrideRowMajor>, MdS<ArbitraryStrideColumnMajor>],
                pick!(b, y, [MdV<RowMajor>, MdV<ColumnMajor>, MdS<ArbitraryStrideRowMajor>, MdS<ArbitraryStrideColumnMajor>],
                    pickm!(c, z, [MdV<RowMajor>, MdV<ColumnMajor>, MdM<ArbitraryStrideRowMajor>, MdM<ArbitraryStrideColumnMajor>],
                        return <T>::matmul(alpha, x, y, beta, z))));
            let (x, y) = (erase::<Dynamic, Dynamic>(a), erase::<Dynamic, Dynamic>(b));
            pickm!(c, z, [MdV<RowMajor>, MdV<ColumnMajor>, MdM<ArbitraryStrideRowMajor>, MdM<ArbitraryStrideColumnMajor>],
                return <T>::matmul(alpha, &x, &y, beta, z));
            <T>::matmul(alpha, &x, &y, beta, &mut erase::<Dynamic, Dynamic>(c))
        }
        ("DD", "D1", "D1") => {
            pick!(b, y, [CvV], pickm!(c, z, [CvV],
                pick!(a, x, [MdV<RowMajor>, MdV<ColumnMajor>, MdS<ArbitraryStrideRowMajor>, MdS<ArbitraryStrideColumnMajor>],
                    return <T>::matmul(alpha, x, y, beta, z))));
            <T>::matmul(alpha, &erase::<Dynamic, Dynamic>(a), &erase::<Dynamic, Fixed1>(b), beta, &mut erase::<Dynamic, Fixed1>(c))
        }
        ("1D", "DD", "1D") => {
            pick!(a, x, [RvV], pickm!(c, z, [RvV],
                pick!(b, y, [MdV<RowMajor>, MdV<ColumnMajor>, MdS<ArbitraryStrideRowMajor>, MdS<ArbitraryStrideColumnMajor>],
                    return <T>::matmul(alpha, x, y, beta, z))));
            <T>::matmul(alpha, &erase::<Fixed1, Dynamic>(a), &erase::<Dynamic, Dynamic>(b), beta, &mut erase::<Fixed1, Dynamic>(c))
        }
        _ => bad("matmul sizes"),
    }
}
#[allow(unused_variables)]
fn dot(a: &dyn Obj, b: &dyn Obj) -> Box<dyn Obj> {
    if_dot!({{
        use householder::Dot;
        match (a.sz(), b.sz()) {
            ("DD", "DD") => {
                pick!(a, x, [MdV<RowMajor>, MdV<ColumnMajor>, MdS<ArbitraryStrideRowMajor>, MdS<ArbitraryStrideColumnMajor>],
                    pick!(b, y, [MdV<RowMajor>, MdV<ColumnMajor>, MdS<ArbitraryStrideRowMajor>, MdS<ArbitraryStrideColumnMajor>],
                        return Box::new(DM::<Vc, RowMajor, DD>(x.dot(y)))));
                Box::new(DM::<Vc, RowMajor, DD>(erase::<Dynamic, Dynamic>(a).dot(&erase::<Dynamic, Dynamic>(b))))
            }
            ("DD", "D1") => {
                pick!(a, x, [MdV<RowMajor>, MdV<ColumnMajor>], pick!(b, y, [CvV],
                    return Box::new(DM::<Vc, ColumnVector, D1>(x.dot(y)))));
                Box::new(DM::<Vc, ColumnVector, D1>(erase::<Dynamic, Dynamic>(a).dot(&erase::<Dynamic, Fixed1>(b))))
            }
            ("1D", "DD") => {
                pick!(a, x, [RvV], pick!(b, y, [MdV<RowMajor>, MdV<ColumnMajor>],
                    return Box::new(DM::<Vc, RowVector, OD>(x.dot(y)))));
                Box::new(DM::<Vc, RowVector, OD>(erase::<Fixed1, Dynamic>(a).dot(&erase::<Dynamic, Dynamic>(b))))
            }
            _ => bad("dot sizes"),
        }
    }} { bad("dot type") })
}

// ---------------------------------------------------------------------
// Sums and scalar products of arbitrary objects, by the library's operators

struct Operand { o: *const dyn Obj, own: bool, leaf: u32 }
impl Operand {
    fn mat<L: Mk, S: SP>(&self) -> M<DynImpl<L, S>, L, S::RS, S::CS> {
        Matrix::new(DynImpl { o: self.o, own: self.own, leaf: self.leaf, p: std::marker::PhantomData })
    }
    fn tid(&self) -> TypeId { unsafe { (*self.o).lay_tid() } }
    fn sz(&self) -> &'static str { unsafe { (*self.o).sz() } }
}
fn leak<X>(x: X) -> &'static X { Box::leak(Box::new(x)) }

fn add_typed<L1: Mk, L2: Mk<IL = <L1 as Mk>::IL>, S: SP>(a: Operand, b: Operand) -> Box<dyn Obj> {
    match (a.own, b.own) {
        (true, true) => Box::new(G::<_, <L1 as Mk>::IL, S>(a.mat::<L1, S>() + b.mat::<L2, S>(), false)),
        (true, false) => Box::new(G::<_, <L1 as Mk>::IL, S>(a.mat::<L1, S>() + leak(b.mat::<L2, S>()), false)),
        (false, true) => Box::new(G::<_, <L1 as Mk>::IL, S>(leak(a.mat::<L1, S>()) + b.mat::<L2, S>(), false)),
        (false, false) => Box::new(G::<_, <L1 as Mk>::IL, S>(leak(a.mat::<L1, S>()) + leak(b.mat::<L2, S>()), false)),
    }
}
fn add(a: Operand, b: Operand) -> Box<dyn Obj> {
    macro_rules! t { ($S:ident: $($L1:ident $L2:ident),*) => {
        if a.sz() == <$S as SP>::NAME && b.sz() == <$S as SP>::NAME {
            $( if a.tid() == TypeId::of::<$L1>() && b.tid() == TypeId::of::<$L2>() {
                return add_typed::<$L1, $L2, $S>(a, b);
            } )*
        }
    }; }
    t!(DD: RowMajor RowMajor, ArbitraryStrideRowMajor RowMajor, RowMajor ArbitraryStrideRowMajor, ArbitraryStrideRowMajor ArbitraryStrideRowMajor,
        ColumnMajor ColumnMajor, ArbitraryStrideColumnMajor ColumnMajor, ColumnMajor ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor ArbitraryStrideColumnMajor,
        UpperTriangular UpperTriangular);
    t!(OD: RowVector RowVector, ArbitraryStrideRowVector RowVector, RowVector ArbitraryStrideRowVector, ArbitraryStrideRowVector ArbitraryStrideRowVector);
    t!(D1: ColumnVector ColumnVector, ArbitraryStrideColumnVector ColumnVector, ColumnVector ArbitraryStrideColumnVector, ArbitraryStrideColumnVector ArbitraryStrideColumnVector);
    if_zoo!({{
        t!(DD: RowVector RowVector, ArbitraryStrideRowVector RowVector, RowVector ArbitraryStrideRowVector, ArbitraryStrideRowVector ArbitraryStrideRowVector,
            ColumnVector ColumnVector, ArbitraryStrideColumnVector ColumnVector, ColumnVector ArbitraryStrideColumnVector, ArbitraryStrideColumnVector ArbitraryStrideColumnVector);
        t!(S22: RowMajor RowMajor, ColumnMajor ColumnMajor);
        t!(S23: RowMajor RowMajor, ColumnMajor ColumnMajor);
    }} {()});
    bad("operands of a sum")
}
fn smul_typed<L: Mk, S: SP>(s: T, a: Operand, left: bool) -> Box<dyn Obj> {
    match (left, a.own) {
        (true, true) => Box::new(G::<_, L, S>(s * a.mat::<L, S>(), false)),
        (true, false) => Box::new(G::<_, L, S>(s * leak(a.mat::<L, S>()), false)),
        (false, true) => Box::new(G::<_, L, S>(a.mat::<L, S>() * s, false)),
        (false, false) => Box::new(G::<_, L, S>(leak(a.mat::<L, S>()) * s, false)),
    }
}
fn smul(s: T, a: Operand, left: bool) -> Box<dyn Obj> {
    macro_rules! t { ($S:ident: $($L:ident),*) => {
        if a.sz() == <$S as SP>::NAME {
            $( if a.tid() == TypeId::of::<$L>() { return smul_typed::<$L, $S>(s, a, left); } )*
        }
    }; }
    t!(DD: RowMajor, ColumnMajor, ArbitraryStrideRowMajor, ArbitraryStrideColumnMajor, UpperTriangular);
    t!(OD: RowVector, ArbitraryStrideRowVector);
    t!(D1: ColumnVector, ArbitraryStrideColumnVector);
    if_zoo!({{
        t!(DD: RowVector, ColumnVector, ArbitraryStrideRowVector, ArbitraryStrideColumnVector);
        t!(S22: RowMajor, ColumnMajor);
        t!(S23: RowMajor, ColumnMajor);
    }} {()});
    bad("operand of a scalar product")
}

// ---------------------------------------------------------------------
// Construction

macro_rules! dense_kinds {
    ($W:ident, $C:ident, $data:ident, $s:ident, $sz:ident, $($k:literal $z:literal $L:ident $S:ident),*) => {
        match ($s.k, $sz) {
            $( ($k, $z) => Box::new($W::<$C, $L, $S>(Matrix::from_data($data, <$L as Mk>::mk($s)))), )*
            _ => bad("dense kind"),
        }
    };
}
fn dense_ro<C: DataContainer<Item = T> + 'static>(data: C, s: Spec, sz: &str) -> Box<dyn Obj> {
    dense_kinds!(D, C, data, s, sz, "RM" "DD" RowMajor DD, "CM" "DD" ColumnMajor DD, "UT" "DD" UpperTriangular DD,
       "ASRM" "DD" ArbitraryStrideRowMajor DD, "ASCM" "DD" ArbitraryStrideColumnMajor DD,
       "RV" "DD" RowVector DD, "CV" "DD" ColumnVector DD, "ASRV" "DD" ArbitraryStrideRowVector DD, "ASCV" "DD" ArbitraryStrideColumnVector DD,
       "RV" "1D" RowVector OD, "ASRV" "1D" ArbitraryStrideRowVector OD,
       "CV" "D1" ColumnVector D1, "ASCV" "D1" ArbitraryStrideColumnVector D1)
}
fn dense_rw<C: DataContainerMut<Item = T> + 'static>(data: C, s: Spec, sz: &str) -> Box<dyn Obj> {
    dense_kinds!(DM, C, data, s, sz, "RM" "DD" RowMajor DD, "CM" "DD" ColumnMajor DD, "UT" "DD" UpperTriangular DD,
       "ASRM" "DD" ArbitraryStrideRowMajor DD, "ASCM" "DD" ArbitraryStrideColumnMajor DD,
       "RV" "DD" RowVector DD, "CV" "DD" ColumnVector DD, "ASRV" "DD" ArbitraryStrideRowVector DD, "ASCV" "DD" ArbitraryStrideColumnVector DD,
       "RV" "1D" RowVector OD, "ASRV" "1D" ArbitraryStrideRowVector OD,
       "CV" "D1" ColumnVector D1, "ASCV" "D1" ArbitraryStrideColumnVector D1)
}
fn dense_arr<const N: usize>(default: bool, s: Spec, sz: &str) -> Box<dyn Obj> {
    let data = if default { ArrayContainer::<T, N>::default() } else { ArrayContainer::<T, N>::new() };
    macro_rules! t { ($($k:literal $L:ident),*) => {
        match (s.k, sz) {
            $( ($k, "DD") => Box::new(DM::<ArrayContainer<T, N>, $L, DD>(Matrix::from_data(data, <$L as Mk>::mk(s)))), )*
            _ => bad("dense kind"),
        }
    }; }
    t!("RM" RowMajor, "CM" ColumnMajor, "UT" UpperTriangular, "ASRM" ArbitraryStrideRowMajor, "ASCM" ArbitraryStrideColumnMajor,
       "RV" RowVector, "CV" ColumnVector)
}
fn zeros(via: &str, k: &str, r: usize, c: usize, evals: &mut u32) -> Box<dyn Obj> {
    use householder::*;
    let mut arg = |x: (usize, usize)| { *evals += 1; x };
    macro_rules! dims { ($($kk:literal $L:ident),*) => { $( if via == "dim" && k == $kk {
        let (r, c) = arg((r, c));
        return Box::new(DM::<Vc, $L, DD>(MdV::<$L>::zeros_from_dim(r, c)));
    } )* }; }
    dims!("RM" RowMajor, "CM" ColumnMajor, "RV" RowVector, "CV" ColumnVector, "UT" UpperTriangular);
    macro_rules! fixed { ($f:ident $($kk:literal $rr:literal $cc:literal $L:ident $S:ident $N:literal),*) => { $(
        if via == "fixed" && k == $kk && r == $rr && c == $cc {
            arg((r, c));
            return Box::new(DM::<ArrayContainer<T, $N>, $L, $S>(
                DMat::<ArrayContainer<T, $N>, $L, <$S as SP>::RS, <$S as SP>::CS>::$f()));
        } )* }; }
    fixed!(zeros_from_dim "RM" 2 2 RowMajor S22 4, "RM" 1 2 RowMajor S12 2, "RM" 3 3 RowMajor S33 9, "RM" 1 3 RowMajor S13 3,
        "RM" 2 3 RowMajor S23 6, "RM" 3 2 RowMajor S32 6, "CM" 2 2 ColumnMajor S22 4, "CM" 1 2 ColumnMajor S12 2,
        "CM" 3 3 ColumnMajor S33 9, "CM" 1 3 ColumnMajor S13 3, "CM" 2 3 ColumnMajor S23 6, "CM" 3 2 ColumnMajor S32 6);
    fixed!(zeros_from_length "CV" 2 1 ColumnVector S21 2, "CV" 3 1 ColumnVector S31 3, "RV" 1 2 RowVector S12 2, "RV" 1 3 RowVector S13 3);
    match via {
        "rvlen" => Box::new(DM::<Vc, RowVector, OD>(RvV::zeros_from_length(arg((r, c)).1))),
        "rvdim" => { let (r, c) = arg((r, c)); Box::new(DM::<Vc, RowVector, OD>(RvV::zeros_from_dim(r, c))) }
        "cvlen" => Box::new(DM::<Vc, ColumnVector, D1>(CvV::zeros_from_length(arg((r, c)).0))),
        "cvdim" => { let (r, c) = arg((r, c)); Box::new(DM::<Vc, ColumnVector, D1>(CvV::zeros_from_dim(r, c))) }
        "mat" => Box::new(DM::<Vc, RowMajor, DD>(mat![T, arg((r, c))])),
        "matrm" => Box::new(DM::<Vc, RowMajor, DD>(mat![T, arg((r, c)), RowMajor])),
        "matcm" => Box::new(DM::<Vc, ColumnMajor, DD>(mat![T, arg((r, c)), ColumnMajor])),
        "vec" => Box::new(DM::<Vc, ColumnVector, D1>(vector![T, arg((r, c)).0])),
        "veccv" => Box::new(DM::<Vc, ColumnVector, D1>(vector![T, arg((r, c)).0, ColumnVector])),
        "vecrv" => Box::new(DM::<Vc, RowVector, OD>(vector![T, arg((r, c)).1, RowVector])),
        "rmat" => Box::new(DM::<Vc, RowMajor, DD>(rand_mat![T, arg((r, c))])),
        "rmatrm" => Box::new(DM::<Vc, RowMajor, DD>(rand_mat![T, arg((r, c)), RowMajor])),
        "rmatcm" => Box::new(DM::<Vc, ColumnMajor, DD>(rand_mat![T, arg((r, c)), ColumnMajor])),
        "rvec" => Box::new(DM::<Vc, ColumnVector, D1>(rand_vector![T, arg((r, c)).0])),
        "rveccv" => Box::new(DM::<Vc, ColumnVector, D1>(rand_vector![T, arg((r, c)).0, ColumnVector])),
        "rvecrv" => Box::new(DM::<Vc, RowVector, OD>(rand_vector![T, arg((r, c)).1, RowVector])),
        _ => bad("constructor"),
    }
}

// ---------------------------------------------------------------------
// Observations

fn conv(l: &dyn LayDyn, ut: bool, ev: &mut Ev) {
    let (r, c) = l.dim_();
    let n = l.n_();
    ev.insert("dim".into(), nums((r, c)));
    ev.insert("n".into(), num(n));
    if r.saturating_mul(c) > 100_000 || n > 100_000 {
        for f in ["stride", "c12", "c21", "raw2", "raw1", "idim", "inum", "ic12", "ic21", "iraw1", "iraw2"] { ev.insert(f.into(), json!([])); }
        return;
    }
    let tab = |f: &dyn Fn(usize, usize) -> usize| -> Value {
        Value::Array((0..r).map(|i| Value::Array((0..c).map(|j| if ut && j < i { json!(-1) } else { num(f(i, j)) }).collect())).collect())
    };
    ev.insert("stride".into(), if ut { json!([]) } else { nums(l.stride_()) });
    ev.insert("c12".into(), Value::Array((0..n).map(|i| nums(l.c12(i))).collect()));
    ev.insert("c21".into(), tab(&|i, j| l.c21(i, j)));
    ev.insert("raw2".into(), tab(&|i, j| l.raw2(i, j)));
    ev.insert("raw1".into(), Value::Array((0..n).map(|i| num(l.raw1(i))).collect()));
    ev.insert("idim".into(), nums(l.idim()));
    ev.insert("inum".into(), num(l.inum()));
    ev.insert("ic12".into(), Value::Array((0..n).map(|i| nums(l.ic12(i))).collect()));
    ev.insert("ic21".into(), tab(&|i, j| l.ic21(i, j)));
    ev.insert("iraw1".into(), Value::Array((0..n).map(|i| num(l.iraw1(i))).collect()));
    ev.insert("iraw2".into(), tab(&|i, j| l.iraw2(i, j)));
}
fn reads_taken() -> Value {
    let v = READS.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let mut m: std::collections::BTreeMap<u32, ((usize, usize), u32, Vec<u32>, Vec<Vec<u32>>)> = Default::default();
    for (leaf, d, w) in v {
        let n = LAYS.with(|l| l.borrow()[&leaf]).2;
        let e = m.entry(leaf).or_insert((d, 0, vec![], vec![]));
        match w {
            Read::Bad => e.1 += 1,
            Read::One(i) => { if e.2.is_empty() { e.2 = vec![0; n]; } e.2[i] += 1 }
            Read::Two(i, j) => { if e.3.is_empty() { e.3 = vec![vec![0; d.1]; d.0]; } e.3[i][j] += 1 }
        }
    }
    Value::Array(m.iter().map(|(l, e)| json!({"leaf": l, "bad": e.1, "c1": e.2, "c2": e.3})).collect())
}
fn touched() -> Value {
    json!(TOUCH.with(|t| std::mem::take(&mut *t.borrow_mut())).into_iter().map(num).collect::<Vec<_>>())
}

// ---------------------------------------------------------------------
// Interpreter

struct Run { objs: HashMap<u32, *mut dyn Obj>, leaf: HashMap<u32, u32>, bufs: HashMap<u32, (*mut T, usize)>, draws: Vec<R>, known: usize, rng: Option<Wild>,
    base: i32, hu: HashMap<u32, i32>, bu: HashMap<u32, i32> }

fn hd(v: &Value) -> u32 { v.as_u64().unwrap_or_else(|| bad("handle")) as u32 }

impl Run {
    fn has(&self, v: &Value) -> bool { self.objs.contains_key(&hd(v)) }
    // lifetimes are managed by the programs (the specification's borrowing rules)
    fn o(&self, v: &Value) -> &'static mut dyn Obj { unsafe { &mut **self.objs.get(&hd(v)).unwrap_or_else(|| bad("no such object")) } }
    fn put(&mut self, v: &Value, o: Box<dyn Obj>, leaf: u32) {
        let h = hd(v);
        let d = o.lay().dim_();
        let n = o.lay().n_();
        LAYS.with(|l| l.borrow_mut().insert(h, (d.0, d.1, n)));
        let leaf = if o.logged() { if leaf == 0 { h } else { leaf } } else { 0 };
        self.leaf.insert(h, leaf);
        self.objs.insert(h, Box::into_raw(o));
        self.hu.insert(h, unit());
    }
    /// register the memory of a new owner and return its content
    fn own(&mut self, b: &Value, h: &Value, n: usize) -> Value {
        self.bu.insert(hd(b), unit());
        if n == 0 { return json!([]); }
        let o = self.o(h);
        match catch_unwind(AssertUnwindSafe(|| { let s = o.dn().unwrap_or_else(|| bad("dense")).slice(0, n); (s.as_ptr() as *mut T, encs(s)) })) {
            Ok((p, v)) => { self.bufs.insert(hd(b), (p, n)); v }
            Err(_) => json!([]),
        }
    }
    fn mem(&self, b: &Value) -> Value {
        set_unit(self.bu.get(&hd(b)).copied().unwrap_or(self.base));
        match self.bufs.get(&hd(b)) { Some((p, n)) => encs(unsafe { std::slice::from_raw_parts(*p, *n) }), None => json!([]) }
    }
    fn operand(&mut self, v: &Value, m: &str) -> Operand {
        let h = hd(v);
        let o = *self.objs.get(&h).unwrap_or_else(|| bad("no such operand"));
        if m == "o" { self.objs.remove(&h); }
        Operand { o, own: m == "o", leaf: self.leaf[&h] }
    }
}

/// run f; "ok" and its result or "panic"
fn tried<X>(f: impl FnOnce() -> X) -> (&'static str, Option<X>) {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(x) => ("ok", Some(x)), Err(_) => ("panic", None) }
}

pub fn run(s: &Value, out: &mut Out) {
    let nz = s["nz"].as_bool().unwrap_or(false);
    SIGNED.with(|x| *x.borrow_mut() = nz);
    let base = s["e"].as_i64().unwrap_or(0) as i32;
    let p = s["p"].as_i64().unwrap_or(0);
    FLOAT.with(|x| *x.borrow_mut() = p > 0);
    TOKENS.with(|x| x.borrow_mut().clear());
    LAYS.with(|x| x.borrow_mut().clear());
    out.line(&json!({"op": "reset", "cx": if_cx!({true} {false}), "nz": nz, "p": p, "lg": s["lg"].as_bool().unwrap_or(true), "lot": s["lot"].as_i64().unwrap_or(1), "id": s["id"], "t": s["t"]}));
    let mut z = Run { objs: HashMap::new(), leaf: HashMap::new(), bufs: HashMap::new(), draws: vec![], known: s["nd"].as_u64().unwrap_or(3000) as usize, rng: None, base, hu: HashMap::new(), bu: HashMap::new() };
    for op in s["ops"].as_array().unwrap_or_else(|| bad("ops")) {
        TOUCH.with(|t| t.borrow_mut().clear());
        READS.with(|t| t.borrow_mut().clear());
        // an object whose creation was refused unexpectedly cannot be used;
        // the trace has already departed from the specification then
        let hs: &[&str] = match st(op, "op") {
            "add" => &["a", "b"],
            "smul" | "ref" | "refm" | "eval" => &["a"],
            "matmul" => &["a", "b", "c"],
            "dot" => &["a", "b"],
            "arena" | "over" | "new" | "zeros" | "rmac" | "blen" | "layout" | "snap" | "rscal" | "atan2" => &[],
            _ => &["h"],
        };
        if hs.iter().any(|f| !z.has(&op[*f])) {
            out.line(&json!({"op": "missing", "of": op["op"]}));
            return;
        }
        let mut ev: Ev = op.as_object().unwrap().clone();
        match catch_unwind(AssertUnwindSafe(|| step(&mut z, op, &mut ev))) {
            Ok(()) => out.line(&Value::Object(ev)),
            Err(_) => out.line(&json!({"op": "panicked", "of": op["op"]})),
        }
    }
}

/// A generator whose words now and then lead to very large or very small normal numbers.
#[derive(Clone)]
/// `more`: extra bits of the small words, so that many draws stay distinct.
pub struct Wild { r: StdRng, script: [u64; 3], left: usize, more: u32 }
impl RngCore for Wild {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        if self.left > 0 {
            self.left -= 1;
            return self.script[2 - self.left];
        }
        let (w, v) = (self.r.next_u64(), self.r.next_u64());
        match v % 16 {
            // the tail of the distribution: outermost layer, outer end, then two small numbers
            0 => {
                self.script = [(w & 1 << 63) | if w >> 63 == 1 { 0x7fff_ffff_ffff_f000 } else { 0x0000_0000_0000_f000 }, (v >> 4) >> (40 - self.more) << 12, w >> 44 << 12];
                self.left = 2;
                self.script[0]
            }
            // close to zero
            1 => (1 << 63) + (w & 0xff) + (((v >> (50 - self.more)) | 1) << 12),
            _ => w,
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// normal numbers by a distribution of the driver's own
struct Norm;
impl Distribution<R> for Norm {
    fn sample<G: Rng + ?Sized>(&self, rng: &mut G) -> R { StandardNormal.sample(rng) }
}

/// the twin of the session's random generator: the values it will draw
fn twin(z: &mut Run) {
    if z.rng.is_some() { return; }
    let mut seed = 1u64;
    loop {
        let rng = Wild { r: StdRng::seed_from_u64(seed), script: [0; 3], left: 0, more: if z.known > 3000 { 10 } else { 0 } };
        let mut t = rng.clone();
        let d: Vec<R> = (0..z.known).map(|_| StandardNormal.sample(&mut t)).collect();
        let mut m = HashMap::new();
        for (i, x) in d.iter().enumerate() { m.insert((*x as f64).to_bits(), DRAW + i as i64); }
        if m.len() == d.len() || seed > 500 {
            TOKENS.with(|t| *t.borrow_mut() = m);
            z.draws = d;
            z.rng = Some(rng);
            return;
        }
        seed += 1;
    }
}

fn step(z: &mut Run, op: &Value, ev: &mut Ev) {
    macro_rules! ins { ($f:literal, $v:expr) => { { let v = $v; ev.insert($f.to_string(), v); } }; }
    let yes = |f: &str| op[f] == json!(true);
    let of = match st(op, "op") { "add" | "smul" | "ref" | "refm" | "eval" => "a", _ => "h" };
    set_unit(op.get(of).and_then(|h| h.as_u64()).and_then(|h| z.hu.get(&(h as u32)).copied()).unwrap_or(z.base));
    match st(op, "op") {
        "arena" => {
            let v = decs(&op["init"]).into_boxed_slice();
            let n = v.len();
            z.bufs.insert(hd(&op["b"]), (Box::leak(v).as_mut_ptr(), n));
            z.bu.insert(hd(&op["b"]), unit());
        }
        "over" => {
            let (p, n) = z.bufs[&hd(&op["b"])];
            set_unit(z.bu[&hd(&op["b"])]);
            let (off, len) = (us(&op["off"]), us(&op["len"]));
            if off + len > n { bad("arena range") }
            let q = unsafe { p.add(off) };
            let s = spec(op);
            let ro = st(op, "acc") == "ro";
            let sz = st(op, "sz");
            let (o, r) = tried(|| -> Box<dyn Obj> {
                match (st(op, "via"), ro) {
                    ("slice", true) => dense_ro(SliceContainer::new(unsafe { std::slice::from_raw_parts::<'static, T>(q, len) }), s, sz),
                    ("slice", false) => dense_rw(SliceContainerMut::new(unsafe { std::slice::from_raw_parts_mut::<'static, T>(q, len) }), s, sz),
                    ("usr", _) => dense_rw(Usr { p: q, len, sink: zero() }, s, sz),
                    ("ptr", _) => {
                        let (d, t) = ((s.r, s.c), (s.s0, s.s1));
                        macro_rules! p { ($L:ident, $($a:expr),*) => { if ro {
                            Box::new(D::<Scn, $L, DD>(SliceMatrix::<T, $L, Dynamic, Dynamic>::from_pointer(q, $($a),*)))
                        } else {
                            Box::new(DM::<Sm, $L, DD>(SliceMatrixMut::<T, $L, Dynamic, Dynamic>::from_pointer(q, $($a),*)))
                        } }; }
                        unsafe { match s.k {
                            "RM" => p!(RowMajor, d),
                            "CM" => p!(ColumnMajor, d),
                            "ASRM" => p!(ArbitraryStrideRowMajor, d, t),
                            "ASCM" => p!(ArbitraryStrideColumnMajor, d, t),
                            _ => bad("pointer kind"),
                        } }
                    }
                    _ => bad("via"),
                }
            });
            if let Some(x) = r { z.put(&op["h"], x, 0) }
            ins!("out", json!(o));
        }
        "new" => {
            let s = spec(op);
            let len = us(&op["len"]);
            let sz = st(op, "sz");
            let (o, r) = tried(|| -> Box<dyn Obj> {
                match (st(op, "via"), len) {
                    ("vec", _) => dense_rw(VectorContainer::<T>::new(len), s, sz),
                    ("arr", 1) => dense_arr::<1>(false, s, sz),
                    ("arr", 4) => dense_arr::<4>(false, s, sz),
                    ("arr", 6) => dense_arr::<6>(true, s, sz),
                    ("arr", 9) => dense_arr::<9>(false, s, sz),
                    _ => bad("container"),
                }
            });
            if let Some(x) = r { z.put(&op["h"], x, 0); ins!("mem", z.own(&op["b"], &op["h"], len)) } else { ins!("mem", json!([])) }
            ins!("out", json!(o));
        }
        "zeros" => {
            let (r, c) = (us(&op["r"]), us(&op["c"]));
            let mut evals = 0;
            let (o, x) = tried(|| zeros(st(op, "via"), st(op, "k"), r, c, &mut evals));
            let n = match st(op, "k") { "UT" => r * (r + 1) / 2, _ => r * c };
            if let Some(x) = x { z.put(&op["h"], x, 0); ins!("mem", z.own(&op["b"], &op["h"], n)) } else { ins!("mem", json!([])) }
            ins!("evals", json!(evals));
            ins!("out", json!(o));
        }
        "rmac" => { // random matrix macros: the content is not predictable
            let (r, c) = (us(&op["r"]), us(&op["c"]));
            let mut evals = 0;
            let (o, x) = tried(|| zeros(st(op, "via"), st(op, "k"), r, c, &mut evals));
            ins!("out", json!(o));
            ins!("evals", json!(evals));
            if let Some(x) = x {
                let n = x.lay().n_();
                ins!("dim", nums(x.mdim()));
                ins!("n", num(n));
                ins!("raw1", json!((0..n).map(|i| num(x.lay().raw1(i))).collect::<Vec<_>>()));
                let v: Vec<T> = if n == r * c { (0..n).map(|i| x.get1(i)).collect() } else { vec![] };
                ins!("finite", json!(v.iter().all(|y| y.re().is_finite() && y.im().is_finite())));
                ins!("zeros", json!(v.iter().filter(|y| y.re() == 0.0 && y.im() == 0.0).count()));
            }
        }
        "blen" => {
            let (len, n) = (us(&op["len"]), us(&op["n"]));
            let (o, r) = tried(|| BM::<Vc, RowVector, Fixed1, Dynamic>::new(VectorContainer::new(n), RowVector::new(len)).length());
            ins!("out", json!(o));
            ins!("length", json!(r.unwrap_or(0)));
        }
        "drop" => {
            let p = z.objs.remove(&hd(&op["h"])).unwrap();
            unsafe { drop(Box::from_raw(p)) }
        }
        "get" => {
            let (r, c) = (us(&op["r"]), us(&op["c"]));
            let x = z.o(&op["h"]);
            let (o, v) = tried(|| if yes("chk") { x.get(r, c) } else { x.uget(r, c) });
            ins!("out", json!(o)); ins!("v", enc(v.unwrap_or(zero())));
            ins!("tch", touched()); ins!("rd", reads_taken());
        }
        "get1" => {
            let i = us(&op["i"]);
            let x = z.o(&op["h"]);
            let (o, v) = tried(|| if yes("chk") { x.get1(i) } else { x.uget1(i) });
            ins!("out", json!(o)); ins!("v", enc(v.unwrap_or(zero())));
            ins!("tch", touched()); ins!("rd", reads_taken());
        }
        "set" => {
            let (r, c) = (us(&op["r"]), us(&op["c"]));
            let v = dec(&op["v"]);
            let x = z.o(&op["h"]).mt().unwrap_or_else(|| bad("mut"));
            let (o, _) = tried(|| if yes("chk") { *x.get_mut(r, c) = v } else { *x.uget_mut(r, c) = v });
            ins!("out", json!(o)); ins!("tch", touched()); ins!("mem", z.mem(&op["mb"]));
        }
        "set1" => {
            let i = us(&op["i"]);
            let v = dec(&op["v"]);
            let x = z.o(&op["h"]).mt().unwrap_or_else(|| bad("mut"));
            let (o, _) = tried(|| if yes("chk") { *x.get1_mut(i) = v } else { *x.uget1_mut(i) = v });
            ins!("out", json!(o)); ins!("tch", touched()); ins!("mem", z.mem(&op["mb"]));
        }
        "all" => {
            let x = z.o(&op["h"]);
            let ut = x.lay_tid() == TypeId::of::<UpperTriangular>();
            // the shape the program asked for: reading another one is not safe
            let (r, c) = (us(&op["r"]), us(&op["c"]));
            let n = if ut { r * (r + 1) / 2 } else { r * c };
            if x.mdim() != (r, c) || x.lay().n_() != n { panic!("shape") }
            let tab = |f: &mut dyn FnMut(usize, usize) -> T| -> Value {
                Value::Array((0..r).map(|i| Value::Array((0..c).map(|j| enc(if ut && j < i { zero() } else { f(i, j) })).collect())).collect())
            };
            ins!("g2", tab(&mut |i, j| x.get(i, j)));
            ins!("g1", Value::Array((0..n).map(|i| enc(x.get1(i))).collect()));
            ins!("u2", tab(&mut |i, j| x.uget(i, j)));
            ins!("u1", Value::Array((0..n).map(|i| enc(x.uget1(i))).collect()));
            let len = op.get("len").map(us).unwrap_or(0);
            if len > 0 {
                let d = x.dn().unwrap_or_else(|| bad("dense"));
                ins!("sl", encs(d.slice(0, len)));
                ins!("pt", encs(unsafe { std::slice::from_raw_parts(d.ptr(), len) }));
            } else { ins!("sl", json!([])); ins!("pt", json!([])); }
            ins!("w2", json!([])); ins!("w1", json!([])); ins!("wp", json!([])); ins!("ws", json!([]));
            if yes("wr") { // also through the writable accessors
                let y = x.mt().unwrap_or_else(|| bad("mut"));
                ins!("w2", tab(&mut |i, j| *y.get_mut(i, j)));
                ins!("w1", Value::Array((0..n).map(|i| enc(*y.get1_mut(i))).collect()));
                if len > 0 {
                    let d = x.dm().unwrap_or_else(|| bad("dense"));
                    ins!("wp", encs(unsafe { std::slice::from_raw_parts(d.ptr_mut(), len) }));
                    ins!("ws", encs(d.slice_mut(0, len)));
                }
            }
        }
        "meta" => {
            let x = z.o(&op["h"]);
            let ut = x.lay_tid() == TypeId::of::<UpperTriangular>();
            ins!("dim", nums(x.mdim()));
            ins!("sid", nums(x.sid()));
            ins!("ldim", nums(x.lay().dim_()));
            ins!("n", num(x.lay().n_()));
            ins!("stride", if ut { json!([]) } else { nums(x.lay().stride_()) });
            ins!("length", x.length().map(num).unwrap_or(json!(-1)));
        }
        "convh" => {
            let x = z.o(&op["h"]);
            conv(x.lay(), x.lay_tid() == TypeId::of::<UpperTriangular>(), ev);
        }
        "layout" => {
            let s = spec(op);
            macro_rules! t { ($($k:literal $L:ident),*) => { match s.k {
                $( $k => tried(|| -> Box<dyn LayDyn> { Box::new(<$L as Mk>::mk(s)) }), )* _ => bad("layout") } }; }
            macro_rules! f { ($($k:literal $L:ident),*) => { match s.k {
                $( $k => tried(|| -> Box<dyn LayDyn> { Box::new($L::from_dimension((s.r, s.c))) }), )* _ => bad("layout") } }; }
            let (o, l) = match st(op, "via") {
                "new" => t!("RM" RowMajor, "CM" ColumnMajor, "RV" RowVector, "CV" ColumnVector, "UT" UpperTriangular, "ASRM" ArbitraryStrideRowMajor,
                            "ASCM" ArbitraryStrideColumnMajor, "ASRV" ArbitraryStrideRowVector, "ASCV" ArbitraryStrideColumnVector),
                "fromdim" => f!("RM" RowMajor, "CM" ColumnMajor, "RV" RowVector, "CV" ColumnVector, "UT" UpperTriangular),
                "fromlen" => match s.k {
                    "RV" => tried(|| -> Box<dyn LayDyn> { Box::new(RowVector::from_length(s.c)) }),
                    "CV" => tried(|| -> Box<dyn LayDyn> { Box::new(ColumnVector::from_length(s.r)) }),
                    _ => bad("from_length"),
                },
                _ => bad("layout via"),
            };
            if let Some(l) = l { conv(&*l, s.k == "UT", ev) }
            ins!("out", json!(o));
        }
        "probe" => {
            let mut ps = vec![];
            for p in op["ps"].as_array().unwrap_or_else(|| bad("ps")) {
                let x = z.o(&op["h"]);
                let (a, b) = (us(&p["a"]), us(&p["b"]));
                let o = match st(p, "w") {
                    "get" => tried(|| { x.get(a, b); }).0,
                    "get1" => tried(|| { x.get1(a); }).0,
                    "set" => tried(|| { x.mt().unwrap_or_else(|| bad("mut")).get_mut(a, b); }).0,
                    "set1" => tried(|| { x.mt().unwrap_or_else(|| bad("mut")).get1_mut(a); }).0,
                    _ => bad("probe"),
                };
                ps.push(json!({"w": p["w"], "a": p["a"], "b": p["b"], "out": o}));
            }
            ins!("ps", Value::Array(ps));
            ins!("mem", if op["mb"] == json!(0) { json!([]) } else { z.mem(&op["mb"]) });
        }
        "slice" => {
            let (f, t) = (us(&op["f"]), us(&op["t"]));
            let d = z.o(&op["h"]).dn().unwrap_or_else(|| bad("dense"));
            let (o, v) = tried(|| encs(d.slice(f, t)));
            ins!("out", json!(o)); ins!("vals", v.unwrap_or(json!([])));
        }
        "slicew" => {
            let (f, t) = (us(&op["f"]), us(&op["t"]));
            let vals = decs(&op["vals"]);
            let d = z.o(&op["h"]).dm().unwrap_or_else(|| bad("dense"));
            let (o, n) = tried(|| { let s = d.slice_mut(f, t); for (x, v) in s.iter_mut().zip(vals.iter()) { *x = *v } s.len() });
            ins!("n", num(n.unwrap_or(0)));
            ins!("out", json!(o)); ins!("mem", z.mem(&op["mb"]));
        }
        "each" => {
            let news = decs(&op["news"]);
            let mut seen = vec![];
            let d = z.o(&op["h"]).dm().unwrap_or_else(|| bad("dense"));
            let stop = op["stop"].as_u64().unwrap_or(0) as usize;
            let (o, _) = tried(|| d.each(&mut |x| {
                let v = *x;
                if seen.len() < news.len() { *x = news[seen.len()] }
                seen.push(v);
                if seen.len() == stop { panic!("stop") }
            }));
            ins!("out", json!(o));
            ins!("seen", encs(&seen)); ins!("mem", z.mem(&op["mb"]));
        }
        "fill" => {
            twin(z);
            let mut rng = z.rng.take().unwrap();
            let d = z.o(&op["h"]).dm().unwrap_or_else(|| bad("dense"));
            d.fill(&mut rng);
            let next: R = StandardNormal.sample(&mut rng.clone());
            let used = z.draws.iter().position(|x| *x == next).map(|n| n as i64).unwrap_or(-1);
            z.rng = Some(rng);
            ins!("draws", json!(used)); ins!("mem", z.mem(&op["mb"]));
        }
        "rscal" => {
            twin(z);
            let mut rng = z.rng.take().unwrap();
            let v = if yes("own") { T::random_scalar(&mut rng, &Norm) } else { T::random_scalar(&mut rng, &StandardNormal) };
            ins!("v", enc(v));
            let next: R = StandardNormal.sample(&mut rng.clone());
            ins!("draws", json!(z.draws.iter().position(|x| *x == next).map(|n| n as i64).unwrap_or(-1)));
            z.rng = Some(rng);
        }
        "atan2" => { // bit patterns
            let a = |f: &str| -> R { R::from_bits(st(op, f).parse().unwrap_or_else(|_| bad("bits"))) };
            let (y, x) = (a("y"), a("x"));
            let (o, th) = tried(|| angle(y, x));
            ins!("x", enc_bits(x)); ins!("y", enc_bits(y)); ins!("th", enc_bits(th.unwrap_or(R::NAN)));
            ins!("out", json!(o));
        }
        "block" => {
            let (tl, bd) = (pair(&op["tl"]), pair(&op["bd"]));
            let x = z.o(&op["h"]);
            let (o, r) = if yes("mut") {
                let d: &'static mut dyn DMObj = x.dm().unwrap_or_else(|| bad("dense"));
                tried(|| d.block_mut(tl, bd))
            } else {
                let d: &'static dyn DObj = x.dn().unwrap_or_else(|| bad("dense"));
                tried(|| d.block(tl, bd))
            };
            if let Some(r) = r { z.put(&op["h2"], r, 0) }
            ins!("out", json!(o));
        }
        "split" => {
            let at = pair(&op["at"]);
            let d: &'static mut dyn DMObj = z.o(&op["h"]).dm().unwrap_or_else(|| bad("dense"));
            let (o, r) = tried(|| d.split(at));
            if let Some(r) = r { for (i, q) in IntoIterator::into_iter(r).enumerate() { z.put(&op["hs"][i], q, 0) } }
            ins!("out", json!(o));
        }
        "add" => {
            let a = z.operand(&op["a"], st(op, "am"));
            let b = z.operand(&op["b"], st(op, "bm"));
            let (o, r) = tried(|| add(a, b));
            ins!("rd", reads_taken());
            if let Some(r) = r { z.put(&op["h"], r, 0) }
            ins!("out", json!(o));
        }
        "smul" => {
            let a = z.operand(&op["a"], st(op, "am"));
            let e = op["e"].as_i64().unwrap_or(0) as i32;
            let s = dec_at(&op["s"], e);
            set_unit(unit() + e);
            let (o, r) = tried(|| smul(s, a, st(op, "side") == "l"));
            ins!("rd", reads_taken());
            if let Some(r) = r { z.put(&op["h"], r, 0) }
            ins!("out", json!(o));
        }
        "ref" => {
            let lf = z.leaf[&hd(&op["a"])];
            let x: &'static dyn Obj = z.o(&op["a"]);
            let (o, r) = tried(|| x.mkref());
            ins!("rd", reads_taken());
            if let Some(r) = r { z.put(&op["h"], r, lf) }
            ins!("out", json!(o));
        }
        "refm" => {
            let lf = z.leaf[&hd(&op["a"])];
            let x: &'static mut dyn MObj = z.o(&op["a"]).mt().unwrap_or_else(|| bad("mut"));
            let (o, r) = tried(|| x.mkrefm());
            if let Some(r) = r { z.put(&op["h"], r, lf) }
            ins!("out", json!(o));
        }
        "eval" => {
            let x = z.o(&op["a"]);
            let n = x.lay().n_();
            let (o, r) = tried(|| x.eval());
            ins!("rd", reads_taken());
            if let Some(r) = r { z.put(&op["h"], r, 0); ins!("mem", z.own(&op["b"], &op["h"], n)) } else { ins!("mem", json!([])) }
            ins!("out", json!(o));
        }
        "matmul" => {
            let (a, b) = (z.o(&op["a"]), z.o(&op["b"]));
            let c = z.o(&op["c"]);
            let e = op["e"].as_i64().unwrap_or(0) as i32;
            let u = |x: &str| z.hu[&hd(&op[x])];
            // so that alpha*A*B has the unit of beta*C
            let to = u("c") + e;
            let (al, be) = (dec_at(&op["alpha"], to - u("a") - u("b")), dec_at(&op["beta"], e));
            let (o, _) = tried(|| matmul(al, a, b, be, c));
            if e != 0 && o == "ok" { z.hu.insert(hd(&op["c"]), to); z.bu.insert(hd(&op["mb"]), to); }
            ins!("out", json!(o)); ins!("mem", z.mem(&op["mb"]));
        }
        "dot" => {
            let (a, b) = (z.o(&op["a"]), z.o(&op["b"]));
            set_unit(z.hu[&hd(&op["a"])] + z.hu[&hd(&op["b"])]);
            let (o, r) = tried(|| dot(a, b));
            let n = a.mdim().0 * b.mdim().1;
            if let Some(r) = r { z.put(&op["h"], r, 0); ins!("mem", z.own(&op["nb"], &op["h"], n)) } else { ins!("mem", json!([])) }
            ins!("out", json!(o));
        }
        "snap" => {
            ins!("mems", Value::Array(op["ids"].as_array().unwrap_or_else(|| bad("ids")).iter().map(|b| z.mem(b)).collect()));
        }
        x => bad(x),
    }
}
