//! C16: dual numbers.
use aegir::buffers::shapes::{IndexOf, Shaped, S1};
use aegir::buffers::{Buffer, Class, FieldOf, Scalar};
use aegir::{dual, Dual};
use aegir_vh::{api::*, js::*, zfield::Z};
use std::ops::{Add, Mul, Neg, Sub};

/// A user-defined buffer: the gradient with respect to two variables.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Grad<F>(F, F);
struct Grads;
impl Class<S1<2>> for Grads {
    type Buffer<F: Scalar> = Grad<F>;
    fn build<F: Scalar>(_: S1<2>, f: impl Fn(usize) -> F) -> Grad<F> { Grad(f(0), f(1)) }
    fn build_subset<F: Scalar>(
        _: S1<2>,
        base: F,
        ixs: impl Iterator<Item = usize>,
        f: impl Fn(usize) -> F,
    ) -> Grad<F> {
        let mut g = Grad(base, base);
        for i in ixs {
            if i == 0 { g.0 = f(0) } else { g.1 = f(1) }
        }
        g
    }
}
impl<F: Scalar> Shaped for Grad<F> {
    type Shape = S1<2>;
    fn shape(&self) -> S1<2> { S1 }
}
impl<F: Scalar> Buffer for Grad<F> {
    type Class = Grads;
    type Field = F;
    fn class() -> Grads { Grads }
    fn get_unchecked(&self, ix: IndexOf<S1<2>>) -> F { if ix == 0 { self.0 } else { self.1 } }
    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> Grad<A> { Grad(f(self.0), f(self.1)) }
    fn mutate<M: Fn(F) -> F>(&mut self, f: M) { *self = Grad(f(self.0), f(self.1)) }
}
impl Neg for Grad<Z> { type Output = Self; fn neg(self) -> Self { Grad(-self.0, -self.1) } }
impl Add for Grad<Z> { type Output = Self; fn add(self, o: Self) -> Self { Grad(self.0 + o.0, self.1 + o.1) } }
impl<'a> Add<&'a Grad<Z>> for Grad<Z> { type Output = Self; fn add(self, o: &Self) -> Self { Grad(self.0 + o.0, self.1 + o.1) } }
impl Sub for Grad<Z> { type Output = Self; fn sub(self, o: Self) -> Self { Grad(self.0 - o.0, self.1 - o.1) } }
impl<'a> Sub<&'a Grad<Z>> for Grad<Z> { type Output = Self; fn sub(self, o: &Self) -> Self { Grad(self.0 - o.0, self.1 - o.1) } }
impl Mul<Z> for Grad<Z> { type Output = Self; fn mul(self, o: Z) -> Self { Grad(self.0 * o, self.1 * o) } }
impl<'a> Mul<&'a Z> for Grad<Z> { type Output = Self; fn mul(self, o: &Z) -> Self { Grad(self.0 * *o, self.1 * *o) } }
impl<'a> Mul<&'a Grad<Z>> for Z { type Output = Grad<Z>; fn mul(self, o: &Grad<Z>) -> Grad<Z> { Grad(self * o.0, self * o.1) } }

/// One step on a pool of two registers.
macro_rules! step {
    ($reg:ident, $o:expr, $F:ty) => {{
        let name = $o[0].as_str().unwrap();
        let form = $o[1].as_str().unwrap();
        let i = $o[2].as_u64().unwrap() as usize - 1;
        let j = $o[3].as_u64().unwrap() as usize - 1;
        let c = <$F as Num>::from_spec($o[4].as_i64().unwrap());
        let (x, y) = ($reg[i].clone(), $reg[j].clone());
        $reg[i] = match (name, form) {
            ("neg", _) => -x,
            ("conj", _) => x.conj(),
            ("add", "d") => x + y,
            ("add", "rd") => x + &y,
            ("add", "v") => x + c,
            ("add", "rv") => x + &c,
            ("sub", "d") => x - y,
            ("sub", "rd") => x - &y,
            ("sub", "v") => x - c,
            ("sub", "rv") => x - &c,
            ("mul", "d") => x * y,
            ("mul", "rd") => x * &y,
            ("mul", "v") => x * c,
            ("mul", "rv") => x * &c,
            _ => panic!("no such operation"),
        };
    }};
}

fn plain<F>(v: &Value) -> Value
where
    F: Num + Flat + Neg<Output = F> + for<'a> Add<&'a F, Output = F> + for<'a> Sub<&'a F, Output = F> + for<'a> Mul<&'a F, Output = F>,
{
    let f = |k: &str, i: usize| F::from_spec(v[k][i].as_i64().unwrap());
    let mk = |i: usize| -> Dual<F> {
        let (val, seed) = (f("at", i), v["seed"][0][i].as_i64().unwrap());
        match (v["mk"][i].as_str().unwrap(), seed) {
            ("new", 1) => Dual::variable(val),
            ("new", 0) => Dual::constant(val),
            ("dual", 0) => dual!(val),
            ("dual", s) => dual!(val, F::from_spec(s)),
            ("from", s) => Dual::from((val, F::from_spec(s))),
            (_, s) => Dual { value: val, adjoint: F::from_spec(s) },
        }
    };
    let mut reg = [mk(0), mk(1)];
    let mut out = vec![];
    let snap = |r: &[Dual<F>; 2]| -> Vec<i64> {
        r.iter().flat_map(|d| vec![d.value.to_spec(), d.adjoint.to_spec()]).collect()
    };
    out.push(snap(&reg));
    for o in v["ops"].as_array().unwrap() {
        step!(reg, o, F);
        out.push(snap(&reg));
    }
    json!({"k": "hist", "s": [], "d": out, "w": []})
}

fn gradient(v: &Value) -> Value {
    let at = |i: usize| Z::from_spec(v["at"][i].as_i64().unwrap());
    let s = |k: usize, i: usize| Z::from_spec(v["seed"][k][i].as_i64().unwrap());
    let mut reg: [Dual<Z, Grad<Z>>; 2] =
        [dual!(at(0), Grad(s(0, 0), s(1, 0))), Dual::from((at(1), Grad(s(0, 1), s(1, 1))))];
    let snap = |r: &[Dual<Z, Grad<Z>>; 2]| -> Vec<i64> {
        r.iter().flat_map(|d| vec![d.value.raw(), d.adjoint.0.raw(), d.adjoint.1.raw()]).collect()
    };
    let mut out = vec![snap(&reg)];
    for o in v["ops"].as_array().unwrap() {
        step!(reg, o, Z);
        out.push(snap(&reg));
    }
    json!({"k": "hist", "s": [], "d": out, "w": []})
}

fn pair<B: Flat>(d: Dual<B>) -> Value { json!({"k": "pair", "s": d.value.dims_of(), "d": [d.value.to_flat(), d.adjoint.to_flat()], "w": d.adjoint.dims_of()}) }

fn tensor<B: Flat>(v: &Value) -> Option<Value>
where
    FieldOf<B>: Num + Neg<Output = FieldOf<B>>,
    B::Class: Class<B::Shape, Buffer<FieldOf<B>> = B>,
{
    let r = &Req(v);
    Some(pair::<B>(match r.op() {
        "variable" => Dual::variable(r.get::<B>("a")),
        "constant" => Dual::constant(r.get::<B>("a")),
        "macro1" => dual!(r.get::<B>("a")),
        "macro2" => dual!(r.get::<B>("a"), r.get::<B>("b")),
        "from" => Dual::from((r.get::<B>("a"), r.get::<B>("b"))),
        "conj" => dual!(r.get::<B>("a"), r.get::<B>("b")).conj(),
        _ => return None,
    }))
}

fn answer(v: &Value) -> Option<Value> {
    if v["op"] == "hist" {
        return Some(match v["f"].as_str().unwrap() {
            "z" => plain::<Z>(v),
            "f64" => plain::<f64>(v),
            "i64" => plain::<i64>(v),
            _ => gradient(v),
        });
    }
    macro_rules! table { ($($name:literal = $T:ty),*) => { $(if v["f"] == $name { return tensor::<$T>(v); })* } }
    table!(
        "s-z" = Z, "s-f64" = f64, "s-f32" = f32, "s-i32" = i32, "t-z" = (Z, Z), "t-f64" = (f64, f64), "v-z" = Vec<Z>,
        "v-f64" = Vec<f64>, "a1-z" = [Z; 3], "a1-f64" = [f64; 2], "a2-z" = [[Z; 2]; 3], "a2-f64" = [[f64; 3]; 2],
        "a3-f64" = [[[f64; 2]; 1]; 2], "a4-z" = [[[[Z; 2]; 1]; 2]; 2], "a5-z" = [[[[[Z; 1]; 2]; 1]; 2]; 2]
    );
    None
}

fn main() { serve(answer) }
