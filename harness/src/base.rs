// Sorts, identifiers, errors and contexts of the recorded histories; `type F`
// is set by the including module.
use crate::js::*;
use aegir::buffers::{shapes::*, Buffer, Spec};
use aegir::errors::{BinaryError, NoError};
use aegir::meta::SourceError;
use aegir::{Context, Identifier, Read, Write};
use std::collections::BTreeMap;

pub type S = F;
pub type A = [F; 2];
pub type B = [F; 3];
pub type M = [[F; 3]; 2];
pub type N = [[F; 2]; 3];
pub type Q = [[F; 2]; 2];
pub type R = [[F; 3]; 3];
pub type L = Vec<F>;
pub type T = (F, F);
pub type K = [[[F; 3]; 1]; 2];
pub type W = [[F; 4]; 1];

pub const SORTS: &str = "SABMNQRLTKW";

#[derive(Copy, Clone, Eq)]
pub struct Id<const J: u8>(pub u8);
impl<const J: u8> Id<J> {
    pub fn name(&self) -> String { format!("{}{}", SORTS.as_bytes()[J as usize] as char, self.0) }
}
impl<const J: u8, const H: u8> PartialEq<Id<H>> for Id<J> {
    fn eq(&self, o: &Id<H>) -> bool { J == H && self.0 == o.0 }
}
impl<const J: u8> std::fmt::Debug for Id<J> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.name()) }
}
impl<const J: u8> std::fmt::Display for Id<J> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.name()) }
}
impl<const J: u8> Identifier for Id<J> {}

// ---------------------------------------------------------------- errors
#[derive(Clone, Debug)]
pub struct DErr {
    pub path: Vec<&'static str>,
    pub leaf: Value,
    pub msg: String,
}
impl DErr {
    pub fn under(mut self, p: &'static str) -> DErr {
        self.path.insert(0, p);
        self
    }
    pub fn json(&self) -> Value { json!({"path": self.path, "leaf": self.leaf, "msg": lex(&self.msg)}) }
}
impl std::fmt::Display for DErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.msg) }
}
impl std::error::Error for DErr {}

pub trait ToDErr: std::fmt::Display {
    fn to_derr(self) -> DErr;
}
impl ToDErr for DErr {
    fn to_derr(self) -> DErr { self }
}
impl ToDErr for NoError {
    fn to_derr(self) -> DErr { match self {} }
}
impl<const J: u8> ToDErr for SourceError<Id<J>> {
    fn to_derr(self) -> DErr {
        let msg = self.to_string();
        let SourceError::Undefined(id) = self;
        DErr { path: vec![], leaf: json!(["undef", id.name()]), msg }
    }
}
impl ToDErr for SourceError<()> {
    fn to_derr(self) -> DErr { DErr { path: vec![], leaf: json!(["undef", "()"]), msg: self.to_string() } }
}
impl<X: Dims, Y: Dims> ToDErr for IncompatibleShapes<X, Y> {
    fn to_derr(self) -> DErr {
        DErr { path: vec![], leaf: json!(["inc", self.left.dims(), self.right.dims()]), msg: self.to_string() }
    }
}
impl<X: ToDErr, Y: ToDErr, O: ToDErr> ToDErr for BinaryError<X, Y, O> {
    fn to_derr(self) -> DErr {
        let msg = self.to_string();
        let e = match self {
            BinaryError::Left(e) => e.to_derr().under("L"),
            BinaryError::Right(e) => e.to_derr().under("R"),
            BinaryError::Output(e) => e.to_derr().under("O"),
        };
        DErr { msg, ..e }
    }
}

// ---------------------------------------------------------------- context
#[derive(Clone)]
pub struct Cell<X: Buffer> {
    pub kind: &'static str,
    pub dense: X,
    pub spec: Spec<X>,
}

macro_rules! ctx {
    ($($k:literal $s:ident $f:ident),*) => {
        #[derive(Clone, Default)]
        pub struct Ctx { pub dense: bool, $(pub $f: BTreeMap<u8, Cell<$s>>),* }
        $(
            impl Read<Id<$k>> for Ctx {
                type Buffer = $s;
                fn read(&self, i: Id<$k>) -> Option<$s> { self.$f.get(&i.0).map(|c| c.dense.clone()) }
                fn read_spec(&self, i: Id<$k>) -> Option<Spec<$s>> {
                    self.$f.get(&i.0).map(|c| if self.dense { Spec::Raw(c.dense.clone()) } else { c.spec.clone() })
                }
            }
            impl Write<Id<$k>> for Ctx {
                fn write(&mut self, i: Id<$k>, b: $s) {
                    self.$f.insert(i.0, Cell { kind: "raw", spec: Spec::Raw(b.clone()), dense: b });
                }
            }
        )*
        impl Ctx {
            pub fn set(&mut self, id: &str, v: &Value) {
                let k = id.as_bytes()[0] as char;
                let n = id[1..].parse::<u8>().unwrap();
                match SORTS.find(k).unwrap() {
                    $($k => {
                        let kind = match v["k"].as_str().unwrap_or("raw") { "full" => "full", "diag" => "diag", _ => "raw" };
                        let sh = usizes(&v["s"]);
                        let d = densify(kind, &sh, &ints(&v["d"]));
                        let dense = <$s as Flat>::from_flat(&sh, &d);
                        self.$f.insert(n, Cell { kind, dense, spec: read_spec::<$s>(v) });
                    })*
                    _ => unreachable!(),
                }
            }
            pub fn clear(&mut self, id: &str) {
                let k = id.as_bytes()[0] as char;
                let n = id[1..].parse::<u8>().unwrap();
                match SORTS.find(k).unwrap() { $($k => { self.$f.remove(&n); })* _ => unreachable!() }
            }
            pub fn snap(&self) -> Value {
                let mut m = serde_json::Map::new();
                $(for (n, c) in &self.$f {
                    let mut v = val(&c.dense);
                    v["k"] = json!(c.kind);
                    m.insert(Id::<$k>(*n).name(), v);
                })*
                Value::Object(m)
            }
        }
    };
}
ctx!(0 S s, 1 A a, 2 B b, 3 M m, 4 N n, 5 Q q, 6 R r, 7 L l, 8 T t, 9 K k, 10 W w);
impl Context for Ctx {}
impl AsMut<Ctx> for Ctx {
    fn as_mut(&mut self) -> &mut Ctx { self }
}

/// The buffer a structured source denotes, by index arithmetic.
pub fn densify(kind: &str, s: &[usize], d: &[i64]) -> Vec<i64> {
    let n: usize = s.iter().product();
    match kind {
        "raw" => d.to_vec(),
        "full" => vec![d[0]; n],
        _ => (0..n)
            .map(|i| {
                let mut r = i;
                let mut ix = vec![];
                for k in s.iter().rev() {
                    ix.push(r % k);
                    r /= k;
                }
                if ix.windows(2).all(|w| w[0] == w[1]) { d[0] } else { 0 }
            })
            .collect(),
    }
}


pub type E<X> = Result<X, DErr>;

pub fn sort_of(v: &Value) -> usize { SORTS.find(v.as_str().unwrap()).unwrap() }
pub fn id_of(v: &Value) -> (usize, u8) {
    let s = v.as_str().unwrap();
    (SORTS.find(&s[..1]).unwrap(), s[1..].parse().unwrap())
}

pub fn res<X>(r: Result<E<X>, String>, f: impl Fn(&X) -> Value) -> Value {
    match r {
        Ok(Ok(x)) => json!({"ok": f(&x)}),
        Ok(Err(e)) => json!({"err": e.json()}),
        Err(p) => {
            if p.starts_with("UNSUPPORTED") { eprintln!("{}", p); std::process::exit(2) }
            json!({"panic": p})
        }
    }
}


// ------------------------------------------------- programs fixed when compiled
use aegir::{Differentiable, Dual, Function};

/// A constant given in structured form.
pub fn sconst<X: Flat>(dense: bool, v: &str) -> aegir::meta::Constant<Spec<X>>
where
    X::Shape: Dims,
    X::Field: Num,
{
    let v: Value = serde_json::from_str(v).unwrap();
    let (sh, k) = (usizes(&v["s"]), v["k"].as_str().unwrap());
    aegir::meta::Constant(if dense {
        Spec::Raw(X::from_flat(&sh, &densify(k, &sh, &ints(&v["d"]))))
    } else {
        read_spec::<X>(&v)
    })
}
pub fn dconst<X: Flat>(sh: &[usize], d: &[i64]) -> aegir::meta::Constant<X> { X::from_flat(sh, d).into_constant() }

/// Evaluate an expression.
pub fn st_ev<N: Function<Ctx>>(n: &N, op: &str, c: &mut Ctx) -> Value
where
    N::Error: ToDErr,
    N::Value: Flat,
    <N::Value as Shaped>::Shape: Dims,
    <N::Value as Buffer>::Field: Num,
{
    match op {
        "eval" => res(guarded(|| n.evaluate(c).map_err(|e| e.to_derr())), |b| val(b)),
        "spec" => res(guarded(|| n.evaluate_spec(c).map_err(|e| e.to_derr())), |s| spec_val(s)),
        _ => res(guarded(|| n.evaluate_shape(c).map_err(|e| e.to_derr())), |s| json!(s.dims())),
    }
}

/// Evaluate its derivative, or both.
pub fn st_adj<const J: u8, N: Function<Ctx> + Differentiable<Id<J>>>(n: &N, t: Id<J>, op: &str, c: &mut Ctx) -> Value
where
    N::Error: ToDErr,
    N::Value: Flat,
    N::Adjoint: Function<Ctx>,
    <N::Adjoint as Function<Ctx>>::Error: ToDErr,
    <N::Adjoint as Function<Ctx>>::Value: Flat,
{
    match op {
        "evadj" => res(guarded(|| n.evaluate_adjoint(t, c).map_err(|e| e.to_derr())), |b| val(b)),
        _ => res(
            guarded(|| n.evaluate_dual(t, c).map(|Dual { value, adjoint }| (value, adjoint)).map_err(|e| e.to_derr())),
            |(v, a)| json!({"v": val(v), "a": val(a)}),
        ),
    }
}

/// Run one history of a program; `prog` answers (operation, expression, identifier).
pub fn st_run(ses: &Value, prog: fn(&str, usize, &str, &mut Ctx) -> Value) -> Value {
    let mut ctx = Ctx::default();
    for (id, v) in ses["init"].as_object().unwrap() { ctx.set(id, v); }
    let ctx0 = ctx.snap();
    let mut out = vec![];
    for ev in ses["events"].as_array().unwrap() {
        let (op, x, id) = (ev["op"].as_str().unwrap(), ev["e"].as_u64().unwrap_or(0) as usize, ev["id"].as_str().unwrap_or(""));
        let mut o = ev.clone();
        match op {
            "set" => ctx.set(id, &ev["v"]),
            "clr" => ctx.clear(id),
            _ => {
                let mut c2 = ctx.clone();
                if op == "shape" { o["ref"] = prog("eval", x, id, &mut c2); }
                if op == "spec" {
                    c2.dense = true;
                    o["dn"] = prog("eval", x, id, &mut c2);
                }
                o["res"] = prog(op, x, id, &mut ctx);
            }
        }
        o["pc"] = json!({});
        o["ctx"] = ctx.snap();
        out.push(o);
    }
    let mut r = ses.clone();
    r.as_object_mut().unwrap().remove("init");
    r["ctx0"] = ctx0;
    r["events"] = Value::Array(out);
    r
}

/// Answer the histories on standard input; each names its program.
pub fn st_serve(progs: &[(u64, fn(&str, usize, &str, &mut Ctx) -> Value)]) {
    use std::io::Read as _;
    quiet_panics();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    for line in s.lines().filter(|l| !l.trim().is_empty()) {
        let ses: Value = serde_json::from_str(line).unwrap();
        let k = ses["prog"].as_u64().unwrap();
        let p = progs.iter().find(|p| p.0 == k).unwrap();
        println!("{}", st_run(&ses, p.1));
    }
}
