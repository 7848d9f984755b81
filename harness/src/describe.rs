//! The tree an expression is made of, read off its type and fields.
use crate::base_z::Id;
use aegir::meta::{Cached, Constant, Variable};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use serde_json::{json, Value};

pub trait Describe {
    fn d(&self) -> Value;
}
impl<const J: u8> Describe for Variable<Id<J>> {
    fn d(&self) -> Value { json!(["var", self.0 .0]) }
}
impl Describe for Constant<f64> {
    fn d(&self) -> Value { json!(["lit", "f64", format!("{:?}", self.0)]) }
}
impl Describe for Constant<i64> {
    fn d(&self) -> Value { json!(["lit", "i64", format!("{:?}", self.0)]) }
}
impl<N: Describe, const J: u8> Describe for Cached<N, Id<J>> {
    fn d(&self) -> Value { json!(["cache", self.ident.name(), self.node.d()]) }
}
macro_rules! un { ($($op:ident $n:literal),*) => { $(
    impl<N: Describe> Describe for $op<N> {
        fn d(&self) -> Value { json!([$n, self.0.d()]) }
    }
)* } }
un!(AddOne "addone", SubOne "subone", OneSub "onesub", Square "square", Double "double", Negate "neg", Dirac "dirac", Sign "sign",
    Abs "abs", Sum "sum", Ln "ln", XLnX "xlnx", Exp "exp", Rabbit "rabbit", Sigmoid "sigmoid", Cos "cos", Sin "sin", Gamma "gamma",
    LogGamma "lgamma", DiGamma "digamma", Erf "erf", Cosh "cosh", ArcCos "acos", ArcCosh "acosh", Sinh "sinh", ArcSin "asin",
    ArcSinh "asinh", Tan "tan", Tanh "tanh", ArcTan "atan", ArcTanh "atanh");
macro_rules! bin { ($($op:ident $n:literal),*) => { $(
    impl<L: Describe, R: Describe> Describe for $op<L, R> {
        fn d(&self) -> Value { json!([$n, self.0.d(), self.1.d()]) }
    }
)* } }
bin!(Add "add", Sub "sub", Mul "mul", Div "div", Power "pow");
impl<const X: usize, L: Describe, R: Describe> Describe for Contract<X, L, R> {
    fn d(&self) -> Value { 
        let n = ["tprod", "dot", "ddot", "contract3"][X.min(3)];
        json!([n, self.0.d(), self.1.d()])
     }
}
