// Operators on f64 and f32: value, derivative and, for comparison, the standard
// function of that name and its slope by finite differences.  Numbers travel as
// <<sign, exponent, upper mantissa, lower mantissa>>.
use aegir::buffers::{Buffer, Spec};
use aegir::meta::Variable;
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Context, Differentiable, Function, Identifier, Read};
use aegir_vh::js::{guarded, quiet_panics};
use serde_json::{json, Value};
use std::io::Read as _;

aegir::ids!(PX::x, PY::y);

trait Fl: Copy + num_traits::Float + aegir::buffers::Scalar + special_fun::FloatSpecial + num_traits::Pow<Self, Output = Self> + 'static {
    fn dec(self) -> Value;
    fn enc(v: &Value) -> Self;
    fn up(self) -> f64;
    fn down(x: f64) -> Self;
}
fn u(v: &Value, i: usize) -> u64 { v[i].as_u64().unwrap() }
impl Fl for f64 {
    fn dec(self) -> Value {
        let b = self.to_bits();
        json!([b >> 63, (b >> 52) & 2047, (b >> 26) & ((1 << 26) - 1), b & ((1 << 26) - 1)])
    }
    fn enc(v: &Value) -> f64 { f64::from_bits(u(v, 0) << 63 | u(v, 1) << 52 | u(v, 2) << 26 | u(v, 3)) }
    fn up(self) -> f64 { self }
    fn down(x: f64) -> f64 { x }
}
impl Fl for f32 {
    fn dec(self) -> Value {
        let b = self.to_bits();
        json!([b >> 31, (b >> 23) & 255, b & ((1 << 23) - 1), 0])
    }
    fn enc(v: &Value) -> f32 { f32::from_bits((u(v, 0) << 31 | u(v, 1) << 23 | u(v, 2)) as u32) }
    fn up(self) -> f64 { self as f64 }
    fn down(x: f64) -> f32 { x as f32 }
}

/// A context of two buffers, read densely or in structured form.
#[derive(Clone)]
struct Cx<B: Buffer> { x: B, y: B, full: Option<B::Field> }
macro_rules! rd { ($id:ident $f:ident) => {
    impl<B: Buffer> Read<$id> for Cx<B> {
        type Buffer = B;
        fn read(&self, _: $id) -> Option<B> { Some(self.$f.clone()) }
        fn read_spec(&self, _: $id) -> Option<Spec<B>> {
            Some(match self.full {
                Some(v) => Spec::Full(aegir::buffers::shapes::Shaped::shape(&self.$f), v),
                None => Spec::Raw(self.$f.clone()),
            })
        }
    }
} }
rd!(PX x);
rd!(PY y);
impl<B: Buffer> Context for Cx<B> {}
impl<B: Buffer> AsMut<Cx<B>> for Cx<B> {
    fn as_mut(&mut self) -> &mut Cx<B> { self }
}

// ------------------------------------------------------- standard functions
fn lanczos(x: f64) -> f64 {
    const G: [f64; 9] = [0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313, -176.61502916214059,
        12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7];
    let x = x - 1.0;
    let mut a = G[0];
    for (i, g) in G.iter().enumerate().skip(1) { a += g / (x + i as f64); }
    let t = x + 7.5;
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}
fn digamma(mut x: f64) -> f64 {
    let mut r = 0.0;
    if !(x > 0.0) { return f64::NAN; }
    while x < 10.0 {
        r -= 1.0 / x;
        x += 1.0;
    }
    let f = 1.0 / (x * x);
    r + x.ln() - 0.5 / x - f * (1.0 / 12.0 - f * (1.0 / 120.0 - f * (1.0 / 252.0 - f * (1.0 / 240.0 - f / 132.0))))
}
fn erf(x: f64) -> f64 {
    let (mut s, mut t, mut n) = (x, x, 0.0);
    while t.abs() > 1e-18 * s.abs() {
        n += 1.0;
        t *= -x * x / n;
        s += t / (2.0 * n + 1.0);
        if n > 200.0 { break; }
    }
    s * 2.0 / std::f64::consts::PI.sqrt()
}
fn reference(op: &str, x: f64, y: f64) -> f64 {
    match op {
        "addone" => x + 1.0, "subone" => x - 1.0, "onesub" => 1.0 - x, "square" => x * x, "double" => 2.0 * x, "neg" => -x,
        "dirac" => if x == 0.0 { f64::INFINITY } else { 0.0 },
        "sign" => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { x },
        "abs" => x.abs(), "ln" => x.ln(), "xlnx" => if x > 0.0 { x * x.ln() } else if x <= 0.0 { 0.0 } else { x }, "exp" => x.exp(),
        "rabbit" => x * (1.0 - x),
        "sigmoid" => if x < 0.0 { x.exp() / (1.0 + x.exp()) } else { 1.0 / (1.0 + (-x).exp()) },
        "cos" => x.cos(), "sin" => x.sin(), "tan" => x.tan(), "cosh" => x.cosh(), "sinh" => x.sinh(), "tanh" => x.tanh(),
        "acos" => x.acos(), "asin" => x.asin(), "atan" => x.atan(), "acosh" => x.acosh(), "asinh" => x.asinh(), "atanh" => x.atanh(),
        "gamma" => lanczos(x).exp(), "lgamma" => lanczos(x), "digamma" => digamma(x), "erf" => erf(x),
        "add" => x + y, "sub" => x - y, "mul" => x * y, "div" => x / y, "pow" => x.powf(y),
        _ => panic!("UNSUPPORTED {}", op),
    }
}
/// The slopes in closed form, for points where differences lose all their digits.
fn closed(op: &str, x: f64, y: f64) -> Vec<f64> {
    match op {
        "addone" | "subone" => vec![1.0],
        "onesub" | "neg" => vec![-1.0],
        "double" => vec![2.0],
        "square" => vec![2.0 * x],
        "sign" => vec![0.0],
        "abs" => vec![x.signum()],
        "ln" => vec![1.0 / x],
        "xlnx" => vec![1.0 + x.ln()],
        "exp" => vec![x.exp()],
        "rabbit" => vec![1.0 - 2.0 * x],
        "sigmoid" => vec![(-x.abs()).exp() / (1.0 + (-x.abs()).exp()).powi(2)],
        "cos" => vec![-x.sin()],
        "sin" => vec![x.cos()],
        "add" => vec![1.0, 1.0],
        "sub" => vec![1.0, -1.0],
        "mul" => vec![y, x],
        "div" => vec![1.0 / y, -(x / y) / y],
        "pow" => vec![y * x.powf(y - 1.0), x.powf(y) * x.ln()],
        _ => panic!("UNSUPPORTED {}", op),
    }
}
/// Slope of g at x by central differences, extrapolated.
fn slope(g: impl Fn(f64) -> f64, x: f64) -> f64 {
    let d = |h: f64| (g(x + h) - g(x - h)) / (2.0 * h);
    let h = 1e-3 * if x.abs() > 1e-3 { x.abs().min(1.0) } else { 1.0 };
    let (a, b, c) = (d(h), d(h / 2.0), d(h / 4.0));
    let (p, q) = ((4.0 * b - a) / 3.0, (4.0 * c - b) / 3.0);
    (16.0 * q - p) / 15.0
}

// ------------------------------------------------------------- the operators
fn ans<F: Fl, E: std::fmt::Debug>(r: Result<Result<F, E>, String>) -> Value {
    match r {
        Ok(Ok(x)) => x.dec(),
        Ok(Err(e)) => json!(["err", format!("{:?}", e)]),
        Err(p) => json!(["panic", p]),
    }
}
/// The same operator on other buffers: the components they give.
macro_rules! forms {
    ($F:ty, $n:expr, $x:expr, $y:expr) => {{
        let (x, y) = ($x, $y);
        let mut out = vec![];
        let mut full = |v: $F| out.push(v.dec());
        if let Ok(Ok(b)) = guarded(|| $n.evaluate(Cx { x: [<$F as num_traits::One>::one(), x, x], y: [<$F as num_traits::One>::one(), y, y], full: None })) { full(b[1]); full(b[2]); }
        if let Ok(Ok(b)) = guarded(|| $n.evaluate(Cx { x: vec![x], y: vec![y], full: None })) { full(b[0]); }
        if let Ok(Ok(b)) = guarded(|| $n.evaluate_spec(Cx { x: [[x; 2]; 2], y: [[y; 2]; 2], full: None })) { full(b.unwrap()[1][0]); }
        Value::Array(out)
    }};
}
macro_rules! un_out {
    ($F:ty, $op:ident, $q:ident, $x:ident) => {{
        let n = $op(Variable(PX));
        $q["out"] = ans(guarded(|| n.evaluate(Cx { x: $x, y: $x, full: None })));
        $q["forms"] = forms!($F, n, $x, $x);
        if let Ok(Ok(b)) = guarded(|| n.evaluate_spec(Cx { x: [$x; 2], y: [$x; 2], full: Some($x) })) {
            $q["forms"].as_array_mut().unwrap().push(b.unwrap()[1].dec());
        }
    }};
}
macro_rules! ops {
    ($F:ty, $q:ident; diff $($n:literal $op:ident),*; plain $($m:literal $p:ident),*; bin $($k:literal $b:ident),*) => {{
        let x = <$F as Fl>::enc(&$q["x"]);
        let y = if $q["y"].is_array() { <$F as Fl>::enc(&$q["y"]) } else { x };
        let op = $q["op"].as_str().unwrap().to_string();
        let c = Cx { x, y, full: None };
        match op.as_str() {
            $($n => {
                un_out!($F, $op, $q, x);
                let n = $op(Variable(PX));
                $q["adj"] = json!([ans(guarded(|| n.evaluate_adjoint(PX, c.clone())))]);
                $q["dual"] = ans(guarded(|| n.evaluate_dual(PX, c.clone()).map(|d| d.adjoint)));
            })*
            $($m => un_out!($F, $p, $q, x),)*
            $($k => {
                let n = $b(Variable(PX), Variable(PY));
                $q["out"] = ans(guarded(|| n.evaluate(c.clone())));
                $q["forms"] = forms!($F, n, x, y);
                $q["adj"] = json!([ans(guarded(|| n.evaluate_adjoint(PX, c.clone()))), ans(guarded(|| n.evaluate_adjoint(PY, c.clone())))]);
                $q["dual"] = ans(guarded(|| n.evaluate_dual(PX, c.clone()).map(|d| d.adjoint)));
            })*
            "pow" => {
                let n = Power(Variable(PX), Variable(PY));
                $q["out"] = ans(guarded(|| n.evaluate(c.clone())));
                $q["forms"] = json!([]);
                $q["adj"] = json!([ans(guarded(|| n.evaluate_adjoint(PX, c.clone()))), ans(guarded(|| n.evaluate_adjoint(PY, c.clone())))]);
                $q["dual"] = ans(guarded(|| n.evaluate_dual(PX, c.clone()).map(|d| d.adjoint)));
            }
            "sigpair" => {
                // sigmoid at x and y, and one minus the sigmoid at -x
                let n = Sigmoid(Variable(PX));
                let s = |v: $F| guarded(|| n.evaluate(Cx { x: v, y: v, full: None }));
                let m = s(-x).map(|r| r.map(|v| <$F as num_traits::One>::one() - v));
                $q["out"] = json!([ans(s(x)), ans(s(y)), ans(m)]);
            }
            _ => { eprintln!("UNSUPPORTED {}", op); std::process::exit(2) }
        }
        if op != "sigpair" {
            let (xu, yu) = (x.up(), y.up());
            $q["ref"] = <$F as Fl>::down(reference(&op, xu, yu)).dec();
            if $q["adj"].is_array() {
                if $q["wide"].is_boolean() {
                    $q["slope"] = Value::Array(closed(&op, xu, yu).into_iter().map(|v| <$F as Fl>::down(v).dec()).collect());
                } else {
                let mut s = vec![<$F as Fl>::down(slope(|v| reference(&op, v, yu), xu)).dec()];
                if $q["y"].is_array() { s.push(<$F as Fl>::down(slope(|v| reference(&op, xu, v), yu)).dec()); }
                $q["slope"] = json!(s);
                }
            }
        }
    }};
}
macro_rules! one {
    ($F:ty, $q:ident) => {
        ops!($F, $q; diff "addone" AddOne, "subone" SubOne, "onesub" OneSub, "square" Square, "double" Double, "neg" Negate,
            "sign" Sign, "abs" Abs, "ln" Ln, "xlnx" XLnX, "exp" Exp, "rabbit" Rabbit, "sigmoid" Sigmoid, "cos" Cos, "sin" Sin,
            "gamma" Gamma, "lgamma" LogGamma;
            plain "dirac" Dirac, "digamma" DiGamma, "erf" Erf, "cosh" Cosh, "acos" ArcCos, "acosh" ArcCosh, "sinh" Sinh,
            "asin" ArcSin, "asinh" ArcSinh, "tan" Tan, "tanh" Tanh, "atan" ArcTan, "atanh" ArcTanh;
            bin "add" Add, "sub" Sub, "mul" Mul, "div" Div)
    };
}

fn main() {
    quiet_panics();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    for line in s.lines().filter(|l| !l.trim().is_empty()) {
        let mut q: Value = serde_json::from_str(line).unwrap();
        if q["f"] == "f64" { one!(f64, q) } else { one!(f32, q) }
        println!("\n{}", q); // the special functions print warnings of their own
    }
}
