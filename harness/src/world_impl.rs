// Dynamic expressions over the library's own nodes; `type F` is set by the
// including file. Every inner node of a session's expression is the library's
// node type applied to boxed children, so evaluation, differentiation,
// membership, printing and cloning all run the library's code.
use aegir::buffers::{shapes::*, Buffer, Spec};
use aegir::fmt::{Expr, PreWrap, ToExpr};
use aegir::meta::{Cached, Constant, ConstantAdjoint, Variable, VariableAdjoint};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Contains, Differentiable, Dual, Function, Identifier, Node, Read};
use aegir_vh::js::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Write as _};


// ------------------------------------------------------- dynamic expressions
pub trait Obj<X: Flat> {
    fn eval(&self, c: &mut Ctx) -> E<X>;
    fn eval_spec(&self, c: &mut Ctx) -> E<Spec<X>>;
    fn eval_shape(&self, c: &mut Ctx) -> E<X::Shape>;
    fn adj(&self, _: Id<0>) -> Option<Dyn<X>> { None }
    fn eval_adj(&self, _: Id<0>, _: &mut Ctx) -> Option<E<X>> { None }
    fn eval_dual(&self, _: Id<0>, _: &mut Ctx) -> Option<E<(X, X)>> { None }
    fn has(&self, k: u8, n: u8) -> bool;
    fn expr(&self) -> Option<Expr> { None }
    fn text(&self) -> Option<String> { None }
    fn dup(&self) -> Dyn<X>;
}

pub struct Dyn<X>(Box<dyn Obj<X>>);
impl<X: Flat> Dyn<X> {
    fn new(o: impl Obj<X> + 'static) -> Dyn<X> { Dyn(Box::new(o)) }
}
impl<X: Flat> Clone for Dyn<X> {
    fn clone(&self) -> Self { self.0.dup() }
}
impl<X> Node for Dyn<X> {}
impl<X: Flat> Function<Ctx> for Dyn<X> {
    type Error = DErr;
    type Value = X;
    fn evaluate<CR: AsMut<Ctx>>(&self, mut c: CR) -> E<X> { self.0.eval(c.as_mut()) }
    fn evaluate_spec<CR: AsMut<Ctx>>(&self, mut c: CR) -> E<Spec<X>> { self.0.eval_spec(c.as_mut()) }
    fn evaluate_shape<CR: AsMut<Ctx>>(&self, mut c: CR) -> E<X::Shape> { self.0.eval_shape(c.as_mut()) }
}
impl<X: Flat> Differentiable<Id<0>> for Dyn<X> {
    type Adjoint = Dyn<X>;
    fn adjoint(&self, t: Id<0>) -> Dyn<X> { self.0.adj(t).expect("UNSUPPORTED adjoint") }
}
impl<X: Flat, const J: u8> Contains<Id<J>> for Dyn<X> {
    fn contains(&self, i: Id<J>) -> bool { self.0.has(J, i.0) }
}
impl<X: Flat> ToExpr for Dyn<X> {
    fn to_expr(&self) -> Expr { self.0.expr().expect("UNSUPPORTED expr") }
}
impl<X: Flat> std::fmt::Display for Dyn<X> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0.text().expect("UNSUPPORTED text"))
    }
}

/// Typed adjoint trees, rebuilt over boxed children.
pub trait IntoDyn {
    type X: Flat;
    fn into_dyn(self) -> Dyn<Self::X>;
}
impl<X: Flat> IntoDyn for Dyn<X> {
    type X = X;
    fn into_dyn(self) -> Dyn<X> { self }
}
macro_rules! into_dyn_un { ($($op:ident)*) => { $(
    impl<P: IntoDyn> IntoDyn for $op<P> where $op<Dyn<P::X>>: Obj<P::X> + 'static {
        type X = P::X;
        fn into_dyn(self) -> Dyn<P::X> { Dyn::new($op(self.0.into_dyn())) }
    }
)* } }
into_dyn_un!(Bare AddOne SubOne OneSub Square Double Negate Dirac Sign Abs Ln XLnX Exp Rabbit Sigmoid Cos Sin Gamma DiGamma);
macro_rules! into_dyn_bin { ($($op:ident)*) => { $(
    impl<P: IntoDyn, U: IntoDyn, V: Flat> IntoDyn for $op<P, U>
    where $op<Dyn<P::X>, Dyn<U::X>>: Function<Ctx, Value = V> + Obj<V> + 'static
    {
        type X = V;
        fn into_dyn(self) -> Dyn<V> { Dyn::new($op(self.0.into_dyn(), self.1.into_dyn())) }
    }
)* } }
into_dyn_bin!(Add Sub Mul Div);
impl<P: IntoDyn<X = S>, U: IntoDyn<X = S>> IntoDyn for Power<P, U> {
    type X = S;
    fn into_dyn(self) -> Dyn<S> { Dyn::new(Power(self.0.into_dyn(), self.1.into_dyn())) }
}
impl<P: IntoDyn, U: IntoDyn, V: Flat, const AX: usize> IntoDyn for Contract<AX, P, U>
where
    Contract<AX, Dyn<P::X>, Dyn<U::X>>: Function<Ctx, Value = V> + Obj<V> + 'static,
{
    type X = V;
    fn into_dyn(self) -> Dyn<V> { Dyn::new(Contract::new(self.0.into_dyn(), self.1.into_dyn())) }
}
impl<X: Flat, const J: u8> IntoDyn for VariableAdjoint<Id<J>, Id<0>>
where
    Ctx: Read<Id<J>, Buffer = X>,
    Self: Obj<X> + 'static,
{
    type X = X;
    fn into_dyn(self) -> Dyn<X> { Dyn::new(self) }
}
impl<P: IntoDyn> IntoDyn for ConstantAdjoint<P, Id<0>>
where
    ConstantAdjoint<Dyn<P::X>, Id<0>>: Obj<P::X> + 'static,
{
    type X = P::X;
    fn into_dyn(self) -> Dyn<P::X> { Dyn::new(ConstantAdjoint { node: self.node.into_dyn(), target: self.target }) }
}
impl<X: Flat> IntoDyn for Constant<X>
where
    Constant<X>: Obj<X> + 'static,
{
    type X = X;
    fn into_dyn(self) -> Dyn<X> { Dyn::new(self) }
}

fn has_k<Y>(y: &Y, k: u8, n: u8) -> bool
where
    Y: Contains<Id<0>> + Contains<Id<1>> + Contains<Id<2>> + Contains<Id<3>> + Contains<Id<4>> + Contains<Id<5>>
        + Contains<Id<6>> + Contains<Id<7>> + Contains<Id<8>> + Contains<Id<9>> + Contains<Id<10>>,
{
    match k {
        0 => y.contains(Id::<0>(n)),
        1 => y.contains(Id::<1>(n)),
        2 => y.contains(Id::<2>(n)),
        3 => y.contains(Id::<3>(n)),
        4 => y.contains(Id::<4>(n)),
        5 => y.contains(Id::<5>(n)),
        6 => y.contains(Id::<6>(n)),
        7 => y.contains(Id::<7>(n)),
        8 => y.contains(Id::<8>(n)),
        9 => y.contains(Id::<9>(n)),
        _ => y.contains(Id::<10>(n)),
    }
}

macro_rules! obj {
    ([$($f:ident)*] $ty:ty => $x:ident) => {
        impl Obj<$x> for $ty {
            fn eval(&self, c: &mut Ctx) -> E<$x> { Function::<Ctx>::evaluate(self, c).map_err(|e| e.to_derr()) }
            fn eval_spec(&self, c: &mut Ctx) -> E<Spec<$x>> { Function::<Ctx>::evaluate_spec(self, c).map_err(|e| e.to_derr()) }
            fn eval_shape(&self, c: &mut Ctx) -> E<<$x as Shaped>::Shape> {
                Function::<Ctx>::evaluate_shape(self, c).map_err(|e| e.to_derr())
            }
            fn has(&self, k: u8, n: u8) -> bool { has_k(self, k, n) }
            fn dup(&self) -> Dyn<$x> { Dyn::new(self.clone()) }
            $(obj!(@$f $x);)*
        }
    };
    (@d $x:ident) => {
        fn adj(&self, t: Id<0>) -> Option<Dyn<$x>> { Some(Differentiable::<Id<0>>::adjoint(self, t).into_dyn()) }
        fn eval_adj(&self, t: Id<0>, c: &mut Ctx) -> Option<E<$x>> {
            Some(Differentiable::<Id<0>>::evaluate_adjoint::<Ctx, _>(self, t, c).map_err(|e| e.to_derr()))
        }
        fn eval_dual(&self, t: Id<0>, c: &mut Ctx) -> Option<E<($x, $x)>> {
            Some(
                Differentiable::<Id<0>>::evaluate_dual::<Ctx, _>(self, t, c)
                    .map(|Dual { value, adjoint }| (value, adjoint))
                    .map_err(|e| e.to_derr()),
            )
        }
    };
    (@e $x:ident) => {
        fn expr(&self) -> Option<Expr> { Some(ToExpr::to_expr(self)) }
        fn text(&self) -> Option<String> { Some(self.to_string()) }
    };
    (@t $x:ident) => {
        fn text(&self) -> Option<String> { Some(self.to_string()) }
    };
}

pub enum Any { S(Dyn<S>), A(Dyn<A>), B(Dyn<B>), M(Dyn<M>), N(Dyn<N>), Q(Dyn<Q>), R(Dyn<R>), L(Dyn<L>), T(Dyn<T>), K(Dyn<K>), W(Dyn<W>) }

macro_rules! each {
    ($a:expr, $d:ident => $b:expr) => {
        match $a {
            Any::S($d) => $b, Any::A($d) => $b, Any::B($d) => $b, Any::M($d) => $b, Any::N($d) => $b,
            Any::Q($d) => $b, Any::R($d) => $b, Any::L($d) => $b, Any::T($d) => $b, Any::K($d) => $b,
            Any::W($d) => $b,
        }
    };
}
macro_rules! each_re {
    ($a:expr, $d:ident => $b:expr) => {
        match $a {
            Any::S($d) => Some(Any::S($b)), Any::A($d) => Some(Any::A($b)), Any::B($d) => Some(Any::B($b)),
            Any::M($d) => Some(Any::M($b)), Any::N($d) => Some(Any::N($b)), Any::Q($d) => Some(Any::Q($b)),
            Any::R($d) => Some(Any::R($b)), Any::L($d) => Some(Any::L($b)), Any::T($d) => Some(Any::T($b)),
            Any::K($d) => Some(Any::K($b)), Any::W($d) => Some(Any::W($b)),
        }
    };
}
impl Clone for Any {
    fn clone(&self) -> Any { each_re!(self, d => d.clone()).unwrap() }
}

// --- sources
macro_rules! sources {
    ($($k:literal $s:ident [$($v:ident)*] [$($c:ident)*] $adj:tt);*) => { $(
        obj!([$($v)*] Variable<Id<$k>> => $s);
        obj!([$($c)*] Constant<$s> => $s);
        obj!([] Constant<Spec<$s>> => $s);
        sources!(@$adj $k $s);
    )*
        fn mk_var(k: usize, n: u8) -> Any { match k { $($k => Any::$s(Dyn::new(Id::<$k>(n).into_var())),)* _ => unreachable!() } }
        fn mk_const(k: usize, sh: &[usize], d: &[i64]) -> Any {
            match k { $($k => Any::$s(Dyn::new(Buffer::into_constant(<$s as Flat>::from_flat(sh, d)))),)* _ => unreachable!() }
        }
        fn mk_sconst(k: usize, v: &Value) -> Any {
            match k { $($k => Any::$s(Dyn::new(Constant(read_spec::<$s>(v)))),)* _ => unreachable!() }
        }
        fn mk_cache(k: usize, n: u8, e: Any) -> Option<Any> {
            match (k, e) { $(($k, Any::$s(d)) => Some(Any::$s(Dyn::new(d.cached(Id::<$k>(n))))),)* _ => None }
        }
    };
    (@yes $k:literal $s:ident) => {
        obj!([d e] VariableAdjoint<Id<$k>, Id<0>> => $s);
        obj!([d e] ConstantAdjoint<Dyn<$s>, Id<0>> => $s);
        obj!([d] Cached<Dyn<$s>, Id<$k>> => $s);
        obj!([d] Probe<Dyn<$s>> => $s);
        obj!([d] Bare<Dyn<$s>> => $s);
    };
    (@no $k:literal $s:ident) => {
        obj!([] Cached<Dyn<$s>, Id<$k>> => $s);
        obj!([] Probe<Dyn<$s>> => $s);
        obj!([] Bare<Dyn<$s>> => $s);
    };
}
sources!(
    0 S [d e] [d e] yes; 1 A [d e] [d] yes; 2 B [d e] [d] yes; 3 M [d e] [d] yes; 4 N [d e] [d] yes;
    5 Q [d e] [d] yes; 6 R [d e] [d] yes; 7 L [e] [] no; 8 T [d e] [d] yes;
    9 K [d e] [d] yes; 10 W [d e] [d] yes
);

// --- a user-defined operator that counts evaluations
thread_local! { static PROBES: RefCell<BTreeMap<u64, u64>> = RefCell::new(BTreeMap::new()); }
#[derive(Clone, aegir::Contains)]
pub struct Probe<P>(#[op] pub P, #[op] pub Tag);
#[derive(Clone)]
pub struct Tag(u64);
impl Node for Tag {}
impl<I: Identifier> Contains<I> for Tag {
    fn contains(&self, _: I) -> bool { false }
}
impl<P: Node> Node for Probe<P> {}
impl<P: Node> Probe<P> {
    fn hit(&self) { PROBES.with(|p| *p.borrow_mut().entry((self.1).0).or_insert(0) += 1); }
}
impl<P: Function<Ctx>> Function<Ctx> for Probe<P> {
    type Error = P::Error;
    type Value = P::Value;
    fn evaluate<CR: AsMut<Ctx>>(&self, c: CR) -> Result<P::Value, P::Error> {
        self.hit();
        self.0.evaluate(c)
    }
    fn evaluate_spec<CR: AsMut<Ctx>>(&self, c: CR) -> Result<Spec<P::Value>, P::Error> {
        self.hit();
        self.0.evaluate_spec(c)
    }
    fn evaluate_shape<CR: AsMut<Ctx>>(&self, c: CR) -> Result<ShapeOf<P::Value>, P::Error> { self.0.evaluate_shape(c) }
}
impl<P: Differentiable<Id<0>>> Differentiable<Id<0>> for Probe<P> {
    type Adjoint = P::Adjoint;
    fn adjoint(&self, t: Id<0>) -> P::Adjoint { self.0.adjoint(t) }
}

// --- a user-defined operator that leaves all it can to the traits' defaults
#[derive(Clone, aegir::Contains)]
pub struct Bare<P>(#[op] pub P);
impl<P: Node> Node for Bare<P> {}
impl<P: Function<Ctx>> Function<Ctx> for Bare<P> {
    type Error = P::Error;
    type Value = P::Value;
    fn evaluate<CR: AsMut<Ctx>>(&self, c: CR) -> Result<P::Value, P::Error> { self.0.evaluate(c) }
}
impl<P: Differentiable<Id<0>>> Differentiable<Id<0>> for Bare<P> {
    type Adjoint = Bare<P::Adjoint>;
    fn adjoint(&self, t: Id<0>) -> Bare<P::Adjoint> { Bare(self.0.adjoint(t)) }
}

// --- unary operators
macro_rules! unary {
    ($($name:literal $op:ident $f:tt $($s:ident)*);* $(;)?) => {
        $($(obj!($f $op<Dyn<$s>> => $s);)*)*
        fn mk_un(op: &str, e: Any) -> Option<Any> {
            match (op, e) {
                $($(($name, Any::$s(d)) => Some(Any::$s(Dyn::new($op(d)))),)*)*
                _ => None,
            }
        }
    };
}
macro_rules! unary_l {
    ($($name:literal $op:ident),*) => {
        $(obj!([e] $op<Dyn<L>> => L);)*
        fn mk_un_l(op: &str, e: Any) -> Option<Any> {
            match (op, e) { $(($name, Any::L(d)) => Some(Any::L(Dyn::new($op(d)))),)* _ => None }
        }
    };
}
unary!(
    "addone" AddOne [d e] S A B M N Q R T K W;
    "subone" SubOne [d e] S A B M N Q R T K W;
    "onesub" OneSub [d e] S A B M N Q R T K W;
    "square" Square [d e] S A B M N Q R T K W;
    "double" Double [d e] S A B M N Q R T K W;
    "neg" Negate [d e] S A B M N Q R T K W;
    "dirac" Dirac [e] S A M T K;
    "sign" Sign [d e] S A M T K;
    "abs" Abs [d e] S A M T K;
    "ln" Ln [d e] S A M T;
    "xlnx" XLnX [d e] S A M T;
    "exp" Exp [d e] S A M T K;
    "rabbit" Rabbit [d e] S A M T;
    "sigmoid" Sigmoid [d e] S A M T;
    "cos" Cos [d e] S A M T;
    "sin" Sin [d e] S A M T;
    "gamma" Gamma [d e] S A M T;
    "lgamma" LogGamma [d e] S A M T;
    "digamma" DiGamma [e] S A M T;
    "erf" Erf [e] S A M T;
    "cosh" Cosh [e] S A M;
    "acos" ArcCos [e] S A M;
    "acosh" ArcCosh [e] S A M;
    "sinh" Sinh [e] S A M;
    "asin" ArcSin [e] S A M;
    "asinh" ArcSinh [e] S A M;
    "tan" Tan [e] S A M;
    "tanh" Tanh [e] S A M;
    "atan" ArcTan [e] S A M;
    "atanh" ArcTanh [e] S A M
);
unary_l!("addone" AddOne, "subone" SubOne, "onesub" OneSub, "square" Square, "double" Double, "neg" Negate,
    "abs" Abs, "sign" Sign, "exp" Exp, "sin" Sin, "sigmoid" Sigmoid, "ln" Ln, "rabbit" Rabbit);

obj!([d t] Sum<Dyn<S>> => S);
obj!([t] Sum<Dyn<A>> => S);
obj!([t] Sum<Dyn<B>> => S);
obj!([t] Sum<Dyn<M>> => S);
obj!([t] Sum<Dyn<N>> => S);
obj!([t] Sum<Dyn<Q>> => S);
obj!([t] Sum<Dyn<R>> => S);
obj!([t] Sum<Dyn<L>> => S);
obj!([t] Sum<Dyn<T>> => S);
obj!([t] Sum<Dyn<K>> => S);
obj!([t] Sum<Dyn<W>> => S);

// --- binary operators
macro_rules! binary {
    ($fn:ident $mk:expr, $ty:ident; $f:tt $(($l:ident $r:ident $o:ident))*) => {
        $(obj!($f $ty<Dyn<$l>, Dyn<$r>> => $o);)*
        fn $fn(l: Any, r: Any) -> Result<Any, (Any, Any)> {
            match (l, r) {
                $((Any::$l(a), Any::$r(b)) => Ok(Any::$o(Dyn::new($mk(a, b)))),)*
                (l, r) => Err((l, r)),
            }
        }
    };
}
macro_rules! ew {
    ($fd:ident $fl:ident $op:ident) => {
        binary!($fd $op, $op; [d e] (S S S)(A A A)(B B B)(M M M)(N N N)(Q Q Q)(R R R)(T T T)(K K K)(W W W)
            (A S A)(S A A)(B S B)(S B B)(M S M)(S M M)(N S N)(S N N)(Q S Q)(S Q Q)(R S R)(S R R)(K S K)(S K K)(W S W)(S W W));
        binary!($fl $op, $op; [e] (L L L)(L S L)(S L L));
    };
}
ew!(add_d add_l Add);
ew!(sub_d sub_l Sub);
ew!(mul_d mul_l Mul);
ew!(div_d div_l Div);
binary!(pow_d Power, Power; [d e] (S S S));
binary!(tprod_d Contract::<0, _, _>::new, TensorProduct; [d e] (S S S)(A S A)(S A A)(M S M)(S M M)(B S B)(S B B)
    (A B M)(B A N)(A A Q)(B B R)(Q S Q)(S Q Q)(N S N)(S N N)(R S R)(S R R)(W S W)(S W W));
binary!(dot_d Contract::<1, _, _>::new, TensorDot; [d e] (S S S)(A A S)(B B S)(Q A A)(R B B)(M N Q)(N M R)(M R M)
    (Q M M)(N Q N)(R N N)(Q Q Q)(R R R)(A M B)(B N A)(A Q A)(B R B));

fn mk_bin(op: &str, l: Any, r: Any) -> Option<Any> {
    let retry = |x: Result<Any, (Any, Any)>, f: fn(Any, Any) -> Result<Any, (Any, Any)>| match x {
        Ok(a) => Some(a),
        Err((l, r)) => f(l, r).ok(),
    };
    match op {
        "add" => retry(add_d(l, r), add_l),
        "sub" => retry(sub_d(l, r), sub_l),
        "mul" => retry(mul_d(l, r), mul_l),
        "div" => retry(div_d(l, r), div_l),
        "pow" => pow_d(l, r).ok(),
        "tprod" => tprod_d(l, r).ok(),
        "dot" => dot_d(l, r).ok(),
        _ => None,
    }
}

/// AST: ["var",id] ["const",sort,shape,data] ["sconst",sort,kind,shape,data]
/// ["cache",id,e] ["probe",k,e] ["adj",id,e] [op,e] [op,l,r]
fn build(e: &Value, dense: bool) -> Any {
    let op = e[0].as_str().unwrap();
    let r = match op {
        "var" => {
            let (k, n) = id_of(&e[1]);
            Some(mk_var(k, n))
        }
        "const" => Some(mk_const(sort_of(&e[1]), &usizes(&e[2]), &ints(&e[3]))),
        "sconst" => {
            let (sh, d) = (usizes(&e[3]), ints(&e[4]));
            if dense {
                let d = densify(e[2].as_str().unwrap(), &sh, &d);
                Some(mk_const(sort_of(&e[1]), &sh, &d))
            } else {
                Some(mk_sconst(sort_of(&e[1]), &json!({"k": e[2], "s": e[3], "d": e[4]})))
            }
        }
        "cache" => {
            let (k, n) = id_of(&e[1]);
            mk_cache(k, n, build(&e[2], dense))
        }
        "probe" => {
            let k = e[1].as_u64().unwrap();
            if k == 0 {
                each_re!(build(&e[2], dense), d => Dyn::new(Bare(d)))
            } else {
                each_re!(build(&e[2], dense), d => Dyn::new(Probe(d, Tag(k))))
            }
        }
        "adj" => {
            let (_, n) = id_of(&e[1]);
            each_re!(build(&e[2], dense), d => d.0.adj(Id::<0>(n)).expect("UNSUPPORTED adjoint"))
        }
        "sum" => Some(Any::S(each!(build(&e[1], dense), d => Dyn::new(Sum(d))))),
        _ if e.as_array().unwrap().len() == 2 => {
            let x = build(&e[1], dense);
            match x {
                Any::L(d) => mk_un_l(op, Any::L(d)),
                x => mk_un(op, x),
            }
        }
        _ => mk_bin(op, build(&e[1], dense), build(&e[2], dense)),
    };
    r.unwrap_or_else(|| panic!("UNSUPPORTED {}", e))
}

fn mk(e: &Value, dense: bool) -> Any {
    guarded(|| build(e, dense)).unwrap_or_else(|p| {
        eprintln!("cannot build {}: {}", e, p);
        std::process::exit(2)
    })
}

fn probes() -> Value {
    let pc: BTreeMap<String, u64> = PROBES.with(|p| p.borrow().iter().map(|(k, v)| (format!("p{}", k), *v)).collect());
    json!(pc)
}

fn run(ses: &Value) -> Value {
    let mut ctx = Ctx::default();
    for (id, v) in ses["init"].as_object().unwrap() { ctx.set(id, v); }
    let exprs = ses["exprs"].as_array().unwrap();
    let mut es: Vec<Any> = exprs.iter().map(|e| mk(e, false)).collect();
    let mut asts: Vec<Value> = exprs.clone();
    let ctx0 = ctx.snap();
    let mut out = vec![];
    for ev in ses["events"].as_array().unwrap() {
        let op = ev["op"].as_str().unwrap();
        let mut o = ev.clone();
        PROBES.with(|p| p.borrow_mut().clear());
        let ix = ev["e"].as_u64().map(|i| i as usize - 1);
        match op {
            "set" => ctx.set(ev["id"].as_str().unwrap(), &ev["v"]),
            "clr" => ctx.clear(ev["id"].as_str().unwrap()),
            "clone" => {
                es.push(es[ix.unwrap()].clone());
                asts.push(asts[ix.unwrap()].clone());
            }
            "eval" => o["res"] = each!(&es[ix.unwrap()], d => res(guarded(|| d.0.eval(&mut ctx)), |b| val(b))),
            "shape" => {
                let mut c2 = ctx.clone();
                o["ref"] = each!(&es[ix.unwrap()], d => res(guarded(|| d.0.eval(&mut c2)), |b| val(b)));
                PROBES.with(|p| p.borrow_mut().clear());
                o["res"] = each!(&es[ix.unwrap()], d => res(guarded(|| d.0.eval_shape(&mut ctx)), |s| json!(s.dims())));
            }
            "spec" => {
                let mut c2 = ctx.clone();
                c2.dense = true;
                o["res"] = each!(&es[ix.unwrap()], d => res(guarded(|| d.0.eval_spec(&mut ctx)), |s| spec_val(s)));
                o["pc"] = probes();
                let tw = mk(&asts[ix.unwrap()], true);
                o["dn"] = each!(&tw, d => res(guarded(|| d.0.eval(&mut c2)), |b| val(b)));
            }
            "evadj" => {
                let (_, n) = id_of(&ev["id"]);
                o["res"] = each!(&es[ix.unwrap()], d => res(guarded(|| d.0.eval_adj(Id(n), &mut ctx).expect("UNSUPPORTED")), |b| val(b)));
            }
            "dual" => {
                let (_, n) = id_of(&ev["id"]);
                o["res"] = each!(&es[ix.unwrap()], d => res(guarded(|| d.0.eval_dual(Id(n), &mut ctx).expect("UNSUPPORTED")),
                    |(v, a)| json!({"v": val(v), "a": val(a)})));
            }
            "has" => {
                let (k, n) = id_of(&ev["id"]);
                o["res"] = each!(&es[ix.unwrap()], d => res(guarded(|| Ok(d.0.has(k as u8, n))), |b| json!(b)));
            }
            "render" => {
                o["res"] = each!(&es[ix.unwrap()], d => res(guarded(|| Ok(d.0.text().expect("UNSUPPORTED text"))),
                    |t| json!({"text": t, "tok": lex(t)})));
            }
            _ => panic!("unknown event {}", op),
        }
        if op != "spec" { o["pc"] = probes(); }
        o["ctx"] = ctx.snap();
        out.push(o);
    }
    let mut r = ses.clone();
    r.as_object_mut().unwrap().remove("init");
    r["ctx0"] = ctx0;
    r["events"] = Value::Array(out);
    r
}

fn main() {
    quiet_panics();
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut lines = vec![];
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.trim().is_empty() { continue; }
            let ses: Value = serde_json::from_str(&line).unwrap();
            lines.push(run(&ses).to_string());
        }
        lines
    }).unwrap().join().unwrap().iter().for_each(|l| writeln!(out, "{}", l).unwrap());
    let _ = PreWrap { text: String::new(), needs_wrap: false };
}
