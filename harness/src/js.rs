//! JSON helpers and the projection of library values to specification values.
use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Spec};
pub use serde_json::{json, Value};

/// Number the specification uses for "not a value of the field".
pub const BOT: i64 = -1;
/// Number emitted for "outside the range that is exact" (matches anything).
pub const UNKNOWN: i64 = -2;

/// Scalars that can be moved between the library and the specification.
pub trait Num: aegir::buffers::Scalar {
    fn from_spec(v: i64) -> Self;
    fn to_spec(self) -> i64;
}

impl Num for crate::zfield::Z {
    fn from_spec(v: i64) -> Self {
        if v == BOT { crate::zfield::Z::BOT } else { crate::zfield::Z::new(v) }
    }
    fn to_spec(self) -> i64 { self.raw() }
}

/// Integral floats are compared modulo the field characteristic.
fn int_to_spec(v: f64) -> i64 {
    if !v.is_finite() || v.fract() != 0.0 {
        BOT
    } else if v.abs() > 4.5e15 {
        UNKNOWN
    } else {
        (v as i64).rem_euclid(crate::zfield::P)
    }
}

impl Num for f64 {
    fn from_spec(v: i64) -> Self { crate::zfield::signed(v) as f64 }
    fn to_spec(self) -> i64 { int_to_spec(self) }
}
impl Num for f32 {
    fn from_spec(v: i64) -> Self { crate::zfield::signed(v) as f32 }
    fn to_spec(self) -> i64 { if self.abs() > 1.6e7 { UNKNOWN } else { int_to_spec(self as f64) } }
}

macro_rules! int_num { ($($t:ty),*) => { $(
    impl Num for $t {
        fn from_spec(v: i64) -> Self { crate::zfield::signed(v) as $t }
        fn to_spec(self) -> i64 { (self as i128).rem_euclid(crate::zfield::P as i128) as i64 }
    }
)* } }
int_num!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

pub trait Dims: Shape {
    fn dims(&self) -> Vec<usize>;
}
impl Dims for S0 { fn dims(&self) -> Vec<usize> { vec![] } }
impl<const A: usize> Dims for S1<A> { fn dims(&self) -> Vec<usize> { vec![A] } }
impl<const A: usize, const B: usize> Dims for S2<A, B> { fn dims(&self) -> Vec<usize> { vec![A, B] } }
impl<const A: usize, const B: usize, const C: usize> Dims for S3<A, B, C> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize> Dims for S4<A, B, C, D> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize> Dims for S5<A, B, C, D, E> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D, E] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize> Dims
    for S6<A, B, C, D, E, F>
{
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D, E, F] }
}
impl<const N: usize> Dims for SDynamic<N> {
    fn dims(&self) -> Vec<usize> { self.0.to_vec() }
}

/// Buffers laid out by hand, without going through the code under test.
pub trait Flat: Buffer {
    fn to_flat(&self) -> Vec<i64>;
    fn from_flat(shape: &[usize], d: &[i64]) -> Self;
    fn dims_of(&self) -> Vec<usize>;
    fn mk_shape(dims: &[usize]) -> Self::Shape;
}

macro_rules! flat_scalar { ($($t:ty),*) => { $(
    impl Flat for $t {
        fn to_flat(&self) -> Vec<i64> { vec![self.to_spec()] }
        fn from_flat(_: &[usize], d: &[i64]) -> Self { <$t as Num>::from_spec(d[0]) }
        fn dims_of(&self) -> Vec<usize> { vec![] }
        fn mk_shape(_: &[usize]) -> S0 { S0 }
    }
)* } }
flat_scalar!(crate::zfield::Z, f64, f32, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

impl<F: Num> Flat for (F, F) {
    fn to_flat(&self) -> Vec<i64> { vec![self.0.to_spec(), self.1.to_spec()] }
    fn from_flat(_: &[usize], d: &[i64]) -> Self { (F::from_spec(d[0]), F::from_spec(d[1])) }
    fn dims_of(&self) -> Vec<usize> { vec![2] }
    fn mk_shape(_: &[usize]) -> S1<2> { S1 }
}

impl<F: Num> Flat for Vec<F> {
    fn to_flat(&self) -> Vec<i64> { self.iter().map(|x| x.to_spec()).collect() }
    fn from_flat(_: &[usize], d: &[i64]) -> Self { d.iter().map(|x| F::from_spec(*x)).collect() }
    fn dims_of(&self) -> Vec<usize> { vec![self.len()] }
    fn mk_shape(d: &[usize]) -> SDynamic<1> { SDynamic([d[0]]) }
}

impl<F: Num, const A: usize> Flat for [F; A] {
    fn to_flat(&self) -> Vec<i64> { self.iter().map(|x| x.to_spec()).collect() }
    fn from_flat(_: &[usize], d: &[i64]) -> Self {
        let mut out = [F::zero(); A];
        for i in 0..A { out[i] = F::from_spec(d[i]); }
        out
    }
    fn dims_of(&self) -> Vec<usize> { vec![A] }
    fn mk_shape(_: &[usize]) -> S1<A> { S1 }
}

macro_rules! flat_arr {
    ($s:ident; $first:ident, $($d:ident),+; $inner:ty, $arr:ty) => {
        impl<F: Num, const $first: usize, $(const $d: usize),+> Flat for $arr {
            fn to_flat(&self) -> Vec<i64> { self.iter().flat_map(|r| r.to_flat()).collect() }
            fn from_flat(shape: &[usize], d: &[i64]) -> Self {
                let w = 1 $(* $d)+;
                let mut i = 0;
                [(); $first].map(|_| {
                    let r = <$inner as Flat>::from_flat(&shape[1..], &d[i * w..]);
                    i += 1;
                    r
                })
            }
            fn dims_of(&self) -> Vec<usize> { vec![$first, $($d),+] }
            fn mk_shape(_: &[usize]) -> Self::Shape { $s }
        }
    };
}
flat_arr!(S2; D1, D2; [F; D2], [[F; D2]; D1]);
flat_arr!(S3; D1, D2, D3; [[F; D3]; D2], [[[F; D3]; D2]; D1]);
flat_arr!(S4; D1, D2, D3, D4; [[[F; D4]; D3]; D2], [[[[F; D4]; D3]; D2]; D1]);
flat_arr!(S5; D1, D2, D3, D4, D5; [[[[F; D5]; D4]; D3]; D2], [[[[[F; D5]; D4]; D3]; D2]; D1]);

pub fn val<B: Flat>(b: &B) -> Value { json!({"s": b.dims_of(), "d": b.to_flat()}) }

/// A structural wrapper together with the buffer the library makes of it.
pub fn spec_val<B: Flat>(s: &Spec<B>) -> Value
where
    B::Shape: Dims,
    B::Field: Num,
{
    let (k, raw) = match s {
        Spec::Raw(b) => ("raw", b.to_flat()),
        Spec::Full(_, x) => ("full", vec![x.to_spec()]),
        Spec::Diagonal(_, x) => ("diag", vec![x.to_spec()]),
        _ => ("other", vec![]),
    };
    let b = s.clone().unwrap();
    json!({"s": b.dims_of(), "d": b.to_flat(), "k": k, "w": raw, "ws": aegir::buffers::shapes::Shaped::shape(s).dims()})
}

pub fn read_spec<B: Flat>(v: &Value) -> Spec<B>
where
    B::Field: Num,
{
    let s = usizes(&v["s"]);
    let d = ints(&v["d"]);
    match v["k"].as_str().unwrap_or("raw") {
        "full" => Spec::Full(B::mk_shape(&s), <B::Field as Num>::from_spec(d[0])),
        "diag" => Spec::Diagonal(B::mk_shape(&s), <B::Field as Num>::from_spec(d[0])),
        _ => Spec::Raw(B::from_flat(&s, &d)),
    }
}

pub fn ints(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }
pub fn usizes(v: &Value) -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() }

/// Run library code; a panic is an observation.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn quiet_panics() { if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); } }

/// Split printed mathematical text into tokens ["n", number] and ["w", word];
/// special characters are spelled out.
pub fn lex(text: &str) -> Value {
    const CONSTS: &str = "\u{1D452}\u{03C0}\u{1D456}\u{221E}\u{00BD}";
    let cs: Vec<char> = text.chars().collect();
    let mut out: Vec<Value> = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c.is_ascii_digit() {
            let st = i;
            while i < cs.len() && (cs[i].is_ascii_digit() || cs[i] == '.') { i += 1; }
            let t: String = cs[st..i].iter().collect();
            out.push(match t.trim_end_matches(".0").parse::<i64>() {
                Ok(n) if n < 1 << 30 => json!(["n", n]),
                _ => json!(["w", "NUMBER"]),
            });
        } else if CONSTS.contains(c) {
            out.push(json!(["w", match c {
                '\u{1D452}' => "EULER",
                '\u{03C0}' => "PI",
                '\u{1D456}' => "IMAG",
                '\u{00BD}' => "HALF",
                _ => "INF",
            }]));
            i += 1;
        } else if c.is_alphabetic() || c == '_' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') && !CONSTS.contains(cs[i]) { i += 1; }
            let t: String = cs[st..i].iter().collect();
            out.push(json!(["w", match t.as_str() {
                "\u{03C3}" => "SIGMOID",
                "\u{03B4}" => "DIRAC",
                "\u{0393}" => "GAMMA",
                "ln\u{0393}" => "LNGAMMA",
                "\u{03C8}" => "PSI",
                "\u{03A3}_i" => "SUM_i",
                t => t,
            }]));
        } else {
            out.push(json!(["w", match c {
                '\u{27E8}' => "LANGLE".to_string(),
                '\u{27E9}' => "RANGLE".to_string(),
                '\u{2218}' => "RING".to_string(),
                '\u{2297}' => "TENSOR".to_string(),
                c => c.to_string(),
            }]));
            i += 1;
        }
    }
    Value::Array(out)
}
