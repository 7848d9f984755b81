//! C14: shapes, their indices, and how they join.
use aegir::buffers::shapes::*;
use aegir_vh::{api::*, js::*};

const NIL: [usize; 0] = [];

trait Mk: Shape + Dims {
    fn mk(d: &[usize]) -> Self;
}
impl Mk for S0 { fn mk(_: &[usize]) -> Self { S0 } }
impl<const A: usize> Mk for S1<A> { fn mk(_: &[usize]) -> Self { S1 } }
impl<const A: usize, const B: usize> Mk for S2<A, B> { fn mk(_: &[usize]) -> Self { S2 } }
impl<const A: usize, const B: usize, const C: usize> Mk for S3<A, B, C> { fn mk(_: &[usize]) -> Self { S3 } }
impl<const A: usize, const B: usize, const C: usize, const D: usize> Mk for S4<A, B, C, D> {
    fn mk(_: &[usize]) -> Self { S4 }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize> Mk for S5<A, B, C, D, E> {
    fn mk(_: &[usize]) -> Self { S5 }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize> Mk
    for S6<A, B, C, D, E, F>
{
    fn mk(_: &[usize]) -> Self { S6 }
}
impl<const N: usize> Mk for SDynamic<N> {
    fn mk(d: &[usize]) -> Self {
        let mut s = [0; N];
        s.copy_from_slice(d);
        SDynamic(s)
    }
}

fn ix64(v: Vec<usize>) -> Vec<i64> { v.into_iter().map(|x| x as i64).collect() }
fn hint(h: (usize, Option<usize>)) -> Value { json!([h.0, h.1.map(|x| x as i64).unwrap_or(-1)]) }

/// A history of operations on a pool of iterators over the indices of `s`.
/// `dup` clones an iterator where its type supports that.
fn history<S: Mk>(s: S, evs: &Value, dup: impl Fn(&S::IndexIter) -> Option<S::IndexIter>) -> Value
where
    S::Index: IxV,
{
    let mut pool: Vec<Option<S::IndexIter>> = vec![Some(s.indices())];
    let mut out = vec![];
    for e in evs.as_array().unwrap() {
        let i = e[1].as_u64().unwrap() as usize - 1;
        let r = match e[0].as_str().unwrap() {
            "fresh" => {
                pool.push(Some(s.indices()));
                json!([])
            },
            "next" => match pool[i].as_mut().unwrap().next() {
                Some(ix) => json!([ix.v()]),
                None => json!([]),
            },
            "nth" => match pool[i].as_mut().unwrap().nth(e[2].as_u64().unwrap() as usize) {
                Some(ix) => json!([ix.v()]),
                None => json!([]),
            },
            "hint" => hint(pool[i].as_ref().unwrap().size_hint()),
            "clone" => {
                let c = dup(pool[i].as_ref().unwrap());
                pool.push(c);
                json!([])
            },
            "count" => json!([pool[i].take().unwrap().count()]),
            "last" => match pool[i].take().unwrap().last() {
                Some(ix) => json!([ix.v()]),
                None => json!([]),
            },
            "rest" => json!(pool[i].take().unwrap().map(|x| x.v()).collect::<Vec<_>>()),
            _ => panic!(),
        };
        out.push(r);
    }
    json!({"k": "hist", "s": [], "d": out, "w": []})
}

fn one<S: Mk>(r: &Value, dup: impl Fn(&S::IndexIter) -> Option<S::IndexIter>) -> Option<Value>
where
    S::Index: IxV,
{
    let s = S::mk(&usizes(&r["l"]["s"]));
    Some(match r["op"].as_str().unwrap() {
        "iter" => history(s, &r["ev"], dup),
        "card" => num(s.cardinality() as i64),
        "contains" => list(grid(&s.dims(), 2).iter().map(|i| s.contains(S::Index::of(i)) as i64).collect()),
        "rank" => list(vec![
            S::DIM as i64,
            s.is_scalar() as i64,
            s.is_vector() as i64,
            s.is_matrix() as i64,
        ]),
        "isdiag" => list(grid(&s.dims(), 0).iter().map(|i| S::Index::of(i).is_diagonal() as i64).collect()),
        _ => return None,
    })
}

fn concat<L: Mk + Concat<R>, R: Mk>(r: &Value) -> Option<Value>
where
    L::Index: IxV,
    R::Index: IxV,
    <L as Concat<R>>::Shape: Dims,
    IndexOf<<L as Concat<R>>::Shape>: IxV,
{
    let (x, y) = (L::mk(&usizes(&r["l"]["s"])), R::mk(&usizes(&r["r"]["s"])));
    Some(match r["op"].as_str().unwrap() {
        "concat" => list(ix64(x.concat(y).dims())),
        "concat_ix" => {
            let mut out = vec![];
            for i in grid(&x.dims(), 0) {
                for j in grid(&y.dims(), 0) {
                    out.extend(ix64(L::concat_indices(L::Index::of(&i), R::Index::of(&j)).v()));
                }
            }
            list(out)
        },
        "equiv" => num(x.is_equivalent(&y) as i64),
        _ => return None,
    })
}

fn split<S: Mk + Split>(r: &Value) -> Option<Value>
where
    S::Index: IxV,
    S::Left: Mk,
    S::Right: Mk,
    IndexOf<S::Left>: IxV,
    IndexOf<S::Right>: IxV,
{
    let s = S::mk(&usizes(&r["l"]["s"]));
    Some(match r["op"].as_str().unwrap() {
        "split" => {
            let (l, q) = s.split();
            ans("split", l.dims(), ix64(q.dims()))
        },
        "split_ix" => {
            let mut out = vec![];
            for i in grid(&s.dims(), 0) {
                let (l, q) = S::split_index(S::Index::of(&i));
                out.extend(ix64(l.v()));
                out.push(-7);
                out.extend(ix64(q.v()));
            }
            list(out)
        },
        _ => return None,
    })
}

fn broadcast<L: Mk + Broadcast<R>, R: Mk>(r: &Value) -> Option<Value>
where
    <L as Broadcast<R>>::Shape: Dims,
{
    let (x, y) = (L::mk(&usizes(&r["l"]["s"])), R::mk(&usizes(&r["r"]["s"])));
    Some(match r["op"].as_str().unwrap() {
        "broadcast" => match x.broadcast(y) {
            Ok(s) => ans("buf", s.dims(), vec![]),
            Err(e) => fail(e),
        },
        "reverse" => fail(IncompatibleShapes { left: x, right: y }.reverse()),
        _ => return None,
    })
}

fn none<T>(_: &T) -> Option<T> { None }
fn dup<T: Clone>(t: &T) -> Option<T> { Some(t.clone()) }

macro_rules! statics { ($r:ident, $s:expr; $($T:ty = $d:expr),* $(,)?) => { $(
    if $s == $d {
        if let Some(x) = one::<$T>($r, none) { return Some(x); }
        if $r["r"]["s"] == json!([]) { return broadcast::<$T, S0>($r); }
        if $s == usizes(&$r["r"]["s"]) { return broadcast::<$T, $T>($r); }
    }
    if $s.is_empty() && usizes(&$r["r"]["s"]) == $d { return broadcast::<S0, $T>($r); }
)* } }

macro_rules! joins { ($r:ident, $l:expr, $q:expr; $(($L:ty = $d:expr, $R:ty = $e:expr)),* $(,)?) => { $(
    if $l == $d && $q == $e { return concat::<$L, $R>($r); }
)* } }

macro_rules! dynamic { ($r:ident, $n:expr; $($N:literal),*) => { $(
    if $n == $N {
        if let Some(x) = one::<SDynamic<$N>>($r, dup) { return Some(x); }
        return if $r["r"]["k"] == "st" { broadcast::<SDynamic<$N>, S0>($r) }
        else { broadcast::<SDynamic<$N>, SDynamic<$N>>($r) };
    }
)* } }

macro_rules! dynjoin {
    ($r:ident, $n:expr, $m:expr; [$($N:literal),*] $ms:tt) => { $( dynjoin!(@row $r, $n, $m; $N $ms); )* };
    (@row $r:ident, $n:expr, $m:expr; $N:literal [$($M:literal),*]) => { $(
        if $n == $N && $m == $M { return concat::<SDynamic<$N>, SDynamic<$M>>($r); }
    )* };
}

fn answer(r: &Value) -> Option<Value> {
    let l: &[usize] = &usizes(&r["l"]["s"]);
    let q: &[usize] = &usizes(&r["r"]["s"]);
    let join = ["concat", "concat_ix", "equiv"].contains(&r["op"].as_str().unwrap());
    if r["l"]["k"] == "dyn" {
        if join {
            dynjoin!(r, l.len(), q.len(); [0, 1, 2, 3, 4, 5, 6] [0, 1, 2, 3, 4, 5, 6]);
        }
        dynamic!(r, l.len(); 0, 1, 2, 3, 4, 5, 6);
        return None;
    }
    if r["r"]["k"] == "dyn" {
        return match q.len() {
            0 => broadcast::<S0, SDynamic<0>>(r),
            1 => broadcast::<S0, SDynamic<1>>(r),
            2 => broadcast::<S0, SDynamic<2>>(r),
            3 => broadcast::<S0, SDynamic<3>>(r),
            _ => None,
        };
    }
    if join {
        joins!(r, l, q;
            (S0 = NIL, S0 = NIL), (S0 = NIL, S1<3> = [3]), (S0 = NIL, S2<3, 2> = [3, 2]), (S0 = NIL, S3<3, 2, 1> = [3, 2, 1]),
            (S0 = NIL, S4<3, 2, 1, 2> = [3, 2, 1, 2]), (S0 = NIL, S5<3, 2, 1, 2, 2> = [3, 2, 1, 2, 2]),
            (S1<2> = [2], S0 = NIL), (S1<2> = [2], S1<3> = [3]), (S1<2> = [2], S2<3, 2> = [3, 2]),
            (S1<2> = [2], S3<3, 2, 1> = [3, 2, 1]), (S1<2> = [2], S4<3, 2, 1, 2> = [3, 2, 1, 2]),
            (S1<2> = [2], S5<3, 2, 1, 2, 2> = [3, 2, 1, 2, 2]),
            (S2<2, 3> = [2, 3], S0 = NIL), (S2<2, 3> = [2, 3], S1<3> = [3]), (S2<2, 3> = [2, 3], S2<3, 2> = [3, 2]),
            (S2<2, 3> = [2, 3], S3<3, 2, 1> = [3, 2, 1]), (S2<2, 3> = [2, 3], S4<3, 2, 1, 2> = [3, 2, 1, 2]),
            (S3<2, 3, 1> = [2, 3, 1], S0 = NIL), (S3<2, 3, 1> = [2, 3, 1], S1<3> = [3]),
            (S3<2, 3, 1> = [2, 3, 1], S2<3, 2> = [3, 2]), (S3<2, 3, 1> = [2, 3, 1], S3<3, 2, 1> = [3, 2, 1]),
            (S4<2, 3, 1, 2> = [2, 3, 1, 2], S0 = NIL), (S4<2, 3, 1, 2> = [2, 3, 1, 2], S1<3> = [3]),
            (S4<2, 3, 1, 2> = [2, 3, 1, 2], S2<3, 2> = [3, 2]),
            (S5<2, 3, 1, 2, 2> = [2, 3, 1, 2, 2], S0 = NIL), (S5<2, 3, 1, 2, 2> = [2, 3, 1, 2, 2], S1<3> = [3]),
        );
        return None;
    }
    if r["op"] == "split" || r["op"] == "split_ix" {
        return match l {
            [2, 3] => split::<S2<2, 3>>(r),
            [3, 1] => split::<S2<3, 1>>(r),
            [0, 2] => split::<S2<0, 2>>(r),
            [3, 3] => split::<S2<3, 3>>(r),
            [2, 3, 1, 2] => split::<S4<2, 3, 1, 2>>(r),
            [2, 2, 2, 2] => split::<S4<2, 2, 2, 2>>(r),
            [1, 2, 3, 2] => split::<S4<1, 2, 3, 2>>(r),
            _ => None,
        };
    }
    statics!(r, l;
        S0 = NIL, S1<0> = [0], S1<1> = [1], S1<2> = [2], S1<3> = [3], S1<5> = [5], S1<33> = [33],
        S2<2, 3> = [2, 3], S2<3, 1> = [3, 1], S2<1, 3> = [1, 3], S2<0, 2> = [0, 2], S2<2, 0> = [2, 0],
        S2<1, 1> = [1, 1], S2<3, 3> = [3, 3], S2<4, 5> = [4, 5], S2<9, 2> = [9, 2],
        S3<2, 3, 1> = [2, 3, 1], S3<1, 2, 3> = [1, 2, 3], S3<3, 1, 2> = [3, 1, 2], S3<2, 0, 2> = [2, 0, 2],
        S3<2, 2, 2> = [2, 2, 2], S3<3, 3, 3> = [3, 3, 3],
        S4<2, 3, 1, 2> = [2, 3, 1, 2], S4<1, 2, 3, 2> = [1, 2, 3, 2], S4<2, 2, 2, 2> = [2, 2, 2, 2],
        S4<1, 0, 2, 1> = [1, 0, 2, 1], S4<3, 2, 2, 1> = [3, 2, 2, 1],
        S5<2, 3, 1, 2, 2> = [2, 3, 1, 2, 2], S5<1, 2, 1, 3, 2> = [1, 2, 1, 3, 2], S5<2, 2, 2, 2, 2> = [2, 2, 2, 2, 2],
        S5<2, 1, 2, 0, 3> = [2, 1, 2, 0, 3],
        S6<2, 3, 1, 2, 2, 1> = [2, 3, 1, 2, 2, 1], S6<1, 2, 1, 3, 2, 2> = [1, 2, 1, 3, 2, 2],
        S6<2, 2, 2, 2, 2, 2> = [2, 2, 2, 2, 2, 2], S6<2, 1, 0, 2, 1, 2> = [2, 1, 0, 2, 1, 2],
    );
    None
}

fn main() { serve(answer) }
