//! C15: contractions.
use aegir::buffers::{contract, contract_shape, contract_spec, Contract, FieldOf};
use aegir_vh::{api::*, js::*, zfield::Z};

fn go<const AXES: usize, X, Y>(v: &Value) -> Option<Value>
where
    X: Flat + Contract<Y, AXES>,
    Y: Flat<Field = FieldOf<X>>,
    X::Shape: Dims,
    Y::Shape: Dims,
    FieldOf<X>: Num,
    X::Output: Flat,
    <X::Output as aegir::buffers::shapes::Shaped>::Shape: Dims,
{
    let r = &Req(v);
    let dims = |d: Vec<usize>| list(d.into_iter().map(|x| x as i64).collect());
    Some(match r.op() {
        "contract" => match r.get::<X>("a").contract(r.get::<Y>("b")) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "contract_fn" => match contract::<AXES, X, Y>(r.get("a"), r.get("b")) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "spec" => match <X as Contract<Y, AXES>>::contract_spec(r.spec("a"), r.spec("b")) {
            Ok(s) => spec(s),
            Err(e) => fail(e),
        },
        "spec_fn" => match contract_spec::<AXES, X, Y>(r.spec("a"), r.spec("b")) {
            Ok(s) => spec(s),
            Err(e) => fail(e),
        },
        "cshape" => match <X as Contract<Y, AXES>>::contract_shape(r.shape::<X>("a"), r.shape::<Y>("b")) {
            Ok(s) => dims(s.dims()),
            Err(e) => fail(e),
        },
        "cshape_fn" => match contract_shape::<AXES, X, Y>(r.shape::<X>("a"), r.shape::<Y>("b")) {
            Ok(s) => dims(s.dims()),
            Err(e) => fail(e),
        },
        _ => return None,
    })
}

macro_rules! each {
    // one, two and three nested loops over extents
    ([$($n:literal)*] $ns:tt $m:ident $args:tt) => { $( $m!($n, $ns, $args); )* };
}
macro_rules! one {
    ($n:literal, $ns:tt, ($v:ident, $f:ident, $ax:ident, $a:ident, $b:ident; $F:ty)) => {
        if $ax == 0 && $a == [$n] && $b == [] as [usize; 0] { return go::<0, [$F; $n], $F>($v); }
        if $ax == 0 && $a == [] as [usize; 0] && $b == [$n] { return go::<0, $F, [$F; $n]>($v); }
        if $ax == 1 && $a == [$n] && $b == [$n] { return go::<1, [$F; $n], [$F; $n]>($v); }
        each!($ns $ns two (($v, $f, $ax, $a, $b; $F), $n));
    };
}
macro_rules! two {
    ($m:literal, $ns:tt, (($v:ident, $f:ident, $ax:ident, $a:ident, $b:ident; $F:ty), $n:literal)) => {
        if $ax == 0 && $a == [$n, $m] && $b == [] as [usize; 0] { return go::<0, [[$F; $m]; $n], $F>($v); }
        if $ax == 0 && $a == [] as [usize; 0] && $b == [$n, $m] { return go::<0, $F, [[$F; $m]; $n]>($v); }
        if $ax == 0 && $a == [$n] && $b == [$m] { return go::<0, [$F; $n], [$F; $m]>($v); }
        if $ax == 1 && $a == [$n, $m] && $b == [$m] { return go::<1, [[$F; $m]; $n], [$F; $m]>($v); }
        if $ax == 1 && $a == [$n] && $b == [$n, $m] { return go::<1, [$F; $n], [[$F; $m]; $n]>($v); }
        each!($ns $ns three (($v, $f, $ax, $a, $b; $F), $n, $m));
    };
}
macro_rules! three {
    ($k:literal, $ns:tt, (($v:ident, $f:ident, $ax:ident, $a:ident, $b:ident; $F:ty), $n:literal, $m:literal)) => {
        if $ax == 1 && $a == [$n, $m] && $b == [$m, $k] { return go::<1, [[$F; $m]; $n], [[$F; $k]; $m]>($v); }
    };
}

fn field_i64(v: &Value, ax: u64, a: &[usize], b: &[usize]) -> Option<Value> {
    if a.is_empty() && b.is_empty() {
        return if ax == 0 { go::<0, i64, i64>(v) } else { go::<1, i64, i64>(v) };
    }
    let f = ();
    let _ = f;
    each!([0 1 2 3] [0 1 2 3] one (v, f, ax, a, b; i64));
    if ax == 1 && a == [5, 4] && b == [4, 6] { return go::<1, [[i64; 4]; 5], [[i64; 6]; 4]>(v); }
    if ax == 1 && a == [17] && b == [17] { return go::<1, [i64; 17], [i64; 17]>(v); }
    if ax == 0 && a == [5] && b == [9] { return go::<0, [i64; 5], [i64; 9]>(v); }
    if ax == 0 && a == [9] && b == [2] { return go::<0, [i64; 9], [i64; 2]>(v); }
    if ax == 0 && a == [17] && b.is_empty() { return go::<0, [i64; 17], i64>(v); }
    if ax == 0 && a.is_empty() && b == [17] { return go::<0, i64, [i64; 17]>(v); }
    if ax == 0 && a == [4, 5] && b.is_empty() { return go::<0, [[i64; 5]; 4], i64>(v); }
    if ax == 0 && a.is_empty() && b == [4, 5] { return go::<0, i64, [[i64; 5]; 4]>(v); }
    if ax == 1 && a == [9, 2] && b == [2] { return go::<1, [[i64; 2]; 9], [i64; 2]>(v); }
    if ax == 1 && a == [2, 9] && b == [9] { return go::<1, [[i64; 9]; 2], [i64; 9]>(v); }
    if ax == 1 && a == [2] && b == [2, 9] { return go::<1, [i64; 2], [[i64; 9]; 2]>(v); }
    if ax == 1 && a == [9] && b == [9, 2] { return go::<1, [i64; 9], [[i64; 2]; 9]>(v); }
    if ax == 1 && a == [5, 5] && b == [5, 5] { return go::<1, [[i64; 5]; 5], [[i64; 5]; 5]>(v); }
    if ax == 1 && a == [9, 2] && b == [2, 9] { return go::<1, [[i64; 2]; 9], [[i64; 9]; 2]>(v); }
    if ax == 1 && a == [2, 9] && b == [9, 2] { return go::<1, [[i64; 9]; 2], [[i64; 2]; 9]>(v); }
    None
}
fn field_f64(v: &Value, ax: u64, a: &[usize], b: &[usize]) -> Option<Value> {
    if a.is_empty() && b.is_empty() {
        return if ax == 0 { go::<0, f64, f64>(v) } else { go::<1, f64, f64>(v) };
    }
    let f = ();
    let _ = f;
    each!([1 2 3] [1 2 3] one (v, f, ax, a, b; f64));
    None
}
fn field_z(v: &Value, ax: u64, a: &[usize], b: &[usize]) -> Option<Value> {
    if a.is_empty() && b.is_empty() {
        return if ax == 0 { go::<0, Z, Z>(v) } else { go::<1, Z, Z>(v) };
    }
    let f = ();
    let _ = f;
    each!([1 2 3] [1 2 3] one (v, f, ax, a, b; Z));
    None
}

fn answer(v: &Value) -> Option<Value> {
    let (a, b) = (usizes(&v["a"]["s"]), usizes(&v["b"]["s"]));
    let ax = v["ax"].as_u64().unwrap();
    match v["f"].as_str().unwrap() {
        "i64" => field_i64(v, ax, &a, &b),
        "f64" => field_f64(v, ax, &a, &b),
        _ => field_z(v, ax, &a, &b),
    }
}

fn main() { serve(answer) }
