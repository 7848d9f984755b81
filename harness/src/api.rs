//! Requests on the buffer and shape API.  A request names an operation, a
//! buffer type (class, field, shape) and contents; the answer is what the
//! library returned, laid out by hand.
use crate::js::*;
use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, BufferOf, Class, FieldOf, IntoSpec, Spec, ZipFold, ZipMap, ZipMut};

/// Indices as sequences of coordinates.
pub trait IxV: Ix {
    fn v(&self) -> Vec<usize>;
    fn of(v: &[usize]) -> Self;
}
impl IxV for () {
    fn v(&self) -> Vec<usize> { vec![] }
    fn of(_: &[usize]) -> Self {}
}
impl IxV for usize {
    fn v(&self) -> Vec<usize> { vec![*self] }
    fn of(v: &[usize]) -> Self { v[0] }
}
impl<const N: usize> IxV for [usize; N] {
    fn v(&self) -> Vec<usize> { self.to_vec() }
    fn of(v: &[usize]) -> Self {
        let mut out = [0; N];
        out.copy_from_slice(v);
        out
    }
}

/// All index tuples below `dims` (enlarged by `more` on each axis), row-major.
pub fn grid(dims: &[usize], more: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for d in dims {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..d + more).map(move |i| {
                    let mut q = p.clone();
                    q.push(i);
                    q
                })
            })
            .collect();
    }
    out
}

// answers: a kind, two sequences and the shape reported by a wrapper
pub fn ans(k: &str, s: Vec<usize>, d: Vec<i64>) -> Value { json!({"k": k, "s": s, "d": d, "w": []}) }
pub fn buf<B: Flat>(b: &B) -> Value { ans("buf", b.dims_of(), b.to_flat()) }
pub fn num(x: i64) -> Value { ans("num", vec![], vec![x]) }
pub fn list(xs: Vec<i64>) -> Value { ans("list", vec![], xs) }
pub fn fail<L: Shape + Dims, R: Shape + Dims>(e: IncompatibleShapes<L, R>) -> Value {
    ans("err", e.left.dims(), e.right.dims().into_iter().map(|x| x as i64).collect())
}
pub fn spec<B: Flat>(s: Spec<B>) -> Value
where
    B::Shape: Dims,
{
    let ws = Shaped::shape(&s).dims();
    let b = s.unwrap();
    json!({"k": "spec", "s": b.dims_of(), "d": b.to_flat(), "w": ws})
}

// the functions applied element by element (Buf.tla: FMap, ...)
pub fn f_map(x: i64) -> i64 { 3 * x + 7 }
pub fn f_mut(x: i64) -> i64 { 2 * x + 1 }
pub fn f_fold(a: i64, x: i64) -> i64 { (a * 31 + x) % 10007 }
pub fn f_zip(x: i64, y: i64) -> i64 { 5 * x + 3 - 3 * y + 200 }
pub fn f_zid(x: i64, y: i64) -> i64 { 5 * x + 2 * y + 1 }
pub fn f_zfold(a: i64, x: i64, y: i64) -> i64 { (a * 31 + 7 * x + y) % 10007 }
pub fn f_ix(v: &[usize]) -> i64 { v.iter().fold(1, |a, i| a * 10 + *i as i64) }

fn n<F: Num>(x: F) -> i64 { x.to_spec() }

pub struct Req<'a>(pub &'a Value);

impl<'a> Req<'a> {
    pub fn op(&self) -> &str { self.0["op"].as_str().unwrap() }
    pub fn get<B: Flat>(&self, k: &str) -> B { B::from_flat(&usizes(&self.0[k]["s"]), &ints(&self.0[k]["d"])) }
    pub fn scalar<F: Num>(&self, k: &str) -> F { F::from_spec(self.0[k]["d"][0].as_i64().unwrap()) }
    pub fn spec<B: Flat>(&self, k: &str) -> Spec<B>
    where
        B::Field: Num,
    {
        read_spec(&self.0[k])
    }
    pub fn shape<B: Flat>(&self, k: &str) -> B::Shape { B::mk_shape(&usizes(&self.0[k]["s"])) }
}

/// Operations on one buffer, and constructors of its class.
pub fn unary<B: Flat>(r: &Req) -> Option<Value>
where
    B::Shape: Dims,
    IndexOf<B::Shape>: IxV,
    FieldOf<B>: Num,
    BufferOf<B::Class, B::Shape, i64>: Flat,
{
    type Ix<B> = IndexOf<ShapeOf<B>>;
    let dims = usizes(&r.0["a"]["s"]);
    let fix = |ix: Ix<B>| <FieldOf<B> as Num>::from_spec(f_ix(&ix.v()));
    Some(match r.op() {
        "shape" => ans("list", vec![], Shaped::shape(&r.get::<B>("a")).dims().into_iter().map(|x| x as i64).collect()),
        "map" => buf(&r.get::<B>("a").map(|x| f_map(n(x)))),
        "map_ref" => {
            let b = r.get::<B>("a");
            buf(&b.map_ref(|x| f_map(n(x))))
        },
        "mutate" => {
            let mut b = r.get::<B>("a");
            b.mutate(|x| Num::from_spec(f_mut(n(x))));
            buf(&b)
        },
        "fold" => num(r.get::<B>("a").fold(5i64, |a, x| f_fold(a, n(x)))),
        "sum" => num(n(r.get::<B>("a").sum())),
        "get" => {
            let b = r.get::<B>("a");
            list(grid(&dims, 2).iter().map(|i| b.get(Ix::<B>::of(i)).map(n).unwrap_or(-9)).collect())
        },
        "get_unchecked" => {
            let b = r.get::<B>("a");
            list(grid(&dims, 0).iter().map(|i| n(b.get_unchecked(Ix::<B>::of(i)))).collect())
        },
        "constant" => buf(&r.get::<B>("a").into_constant().0),
        "build" => buf(&<B::Class as Class<B::Shape>>::build::<FieldOf<B>>(r.shape::<B>("a"), fix)),
        "subset" => {
            let ixs: Vec<Ix<B>> =
                r.0["sub"].as_array().unwrap().iter().map(|i| Ix::<B>::of(&usizes(i))).collect();
            buf(&<B::Class as Class<B::Shape>>::build_subset::<FieldOf<B>>(
                r.shape::<B>("a"),
                r.scalar("b"),
                ixs.into_iter(),
                fix,
            ))
        },
        "full" => buf(&<B::Class as Class<B::Shape>>::full::<FieldOf<B>>(r.shape::<B>("a"), r.scalar("b"))),
        "zeroes" => buf(&<B::Class as Class<B::Shape>>::zeroes::<FieldOf<B>>(r.shape::<B>("a"))),
        "ones" => buf(&<B::Class as Class<B::Shape>>::ones::<FieldOf<B>>(r.shape::<B>("a"))),
        "diagonal" => {
            buf(&<B::Class as Class<B::Shape>>::diagonal::<FieldOf<B>>(r.shape::<B>("a"), r.scalar("b")))
        },
        "identity" => buf(&<B::Class as Class<B::Shape>>::identity::<FieldOf<B>>(r.shape::<B>("a"))),
        "unwrap" => spec(r.spec::<B>("a")),
        "clone" => {
            let s = r.spec::<B>("a");
            let t = s.clone();
            drop(s);
            spec(t)
        },
        "spec_map" => spec(r.spec::<B>("a").map(|x| f_map(n(x)))),
        "spec_zeroes" => spec(Spec::<B>::zeroes(r.shape::<B>("a"))),
        "spec_ones" => spec(Spec::<B>::ones(r.shape::<B>("a"))),
        "spec_eye" => spec(Spec::<B>::eye(r.shape::<B>("a"))),
        "into_spec" => spec(r.get::<B>("a").into_spec()),
        "spec_into_spec" => spec(r.spec::<B>("a").into_spec()),
        "spec_from" => spec(Spec::from(r.get::<B>("a"))),
        _ => return None,
    })
}

/// Two buffers of one type.
pub fn same<B>(r: &Req) -> Option<Value>
where
    B: Flat + ZipMap<B> + ZipFold<B>,
    B::Shape: Dims + Broadcast,
    FieldOf<B>: Num,
    <B as ZipMap<B>>::Output<i64>: Flat,
    <B as ZipMap<B>>::Output<FieldOf<B>>: Flat,
    BShape<B::Shape, B::Shape>: Dims,
{
    Some(match r.op() {
        "zip_map" => match r.get::<B>("a").zip_map(&r.get::<B>("b"), |x, y| f_zip(n(x), n(y))) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "zip_map_id" => {
            match r.get::<B>("a").zip_map_id(&r.get::<B>("b"), |x, y| Num::from_spec(f_zid(n(x), n(y)))) {
                Ok(b) => buf(&b),
                Err(e) => fail(e),
            }
        },
        "zip_shape" => match <B as ZipMap<B>>::zip_shape(r.get::<B>("a"), r.shape::<B>("b")) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "zip_fold" => {
            match r.get::<B>("a").zip_fold(&r.get::<B>("b"), 5i64, |a, (x, y)| f_zfold(a, n(x), n(y))) {
                Ok(x) => num(x),
                Err(e) => fail(e),
            }
        },
        "spec_zip" => match r.spec::<B>("a").zip_map(&r.spec::<B>("b"), |x, y| f_zip(n(x), n(y))) {
            Ok(b) => spec(b),
            Err(e) => fail(e),
        },
        _ => return None,
    })
}

/// A buffer with a scalar on its right.
pub fn right<B>(r: &Req) -> Option<Value>
where
    B: Flat + ZipMap<FieldOf<B>>,
    B::Shape: Dims + Broadcast<S0>,
    FieldOf<B>: Num + Flat,
    <B as ZipMap<FieldOf<B>>>::Output<i64>: Flat,
    <B as ZipMap<FieldOf<B>>>::Output<FieldOf<B>>: Flat,
    BShape<B::Shape, S0>: Dims,
{
    Some(match r.op() {
        "zip_map" => match r.get::<B>("a").zip_map(&r.scalar("b"), |x, y| f_zip(n(x), n(y))) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "zip_map_id" => match r.get::<B>("a").zip_map_id(&r.scalar("b"), |x, y: FieldOf<B>| Num::from_spec(f_zid(n(x), n(y)))) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "zip_shape" => match <B as ZipMap<FieldOf<B>>>::zip_shape(r.get::<B>("a"), S0) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "spec_zip" => match r.spec::<B>("a").zip_map(&r.spec::<FieldOf<B>>("b"), |x, y| f_zip(n(x), n(y))) {
            Ok(b) => spec(b),
            Err(e) => fail(e),
        },
        _ => return None,
    })
}

/// A buffer with a scalar on its left.
pub fn left<F, B>(r: &Req) -> Option<Value>
where
    F: Num + Flat + ZipMap<B> + Buffer<Shape = S0>,
    B: Flat<Field = F>,
    S0: Broadcast<B::Shape>,
    B::Shape: Dims,
    <F as ZipMap<B>>::Output<i64>: Flat,
    <F as ZipMap<B>>::Output<F>: Flat,
    BShape<S0, B::Shape>: Dims,
{
    Some(match r.op() {
        "zip_map" => match ZipMap::<B>::zip_map(r.scalar::<F>("a"), &r.get::<B>("b"), |x, y| f_zip(n(x), n(y))) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "zip_map_id" => {
            match ZipMap::<B>::zip_map_id(r.scalar::<F>("a"), &r.get::<B>("b"), |x, y| F::from_spec(f_zid(n(x), n(y)))) {
                Ok(b) => buf(&b),
                Err(e) => fail(e),
            }
        },
        "zip_shape" => match <F as ZipMap<B>>::zip_shape(r.scalar::<F>("a"), r.shape::<B>("b")) {
            Ok(b) => buf(&b),
            Err(e) => fail(e),
        },
        "spec_zip" => match r.spec::<F>("a").zip_map(&r.spec::<B>("b"), |x, y| f_zip(n(x), n(y))) {
            Ok(b) => spec(b),
            Err(e) => fail(e),
        },
        _ => return None,
    })
}

/// Arrays also combine in place and fold with a scalar.
pub fn in_place<F, B>(r: &Req, scalar: bool) -> Option<Value>
where
    F: Num + Flat,
    B: Flat<Field = F> + ZipMut<B> + ZipMut<F> + ZipFold<F>,
    B::Shape: Dims,
{
    Some(match (r.op(), scalar) {
        ("zip_mut", false) => {
            let mut b = r.get::<B>("a");
            match b.zip_mut(&r.get::<B>("b"), |x, y| F::from_spec(f_zid(n(x), n(y)))) {
                Ok(()) => buf(&b),
                Err(e) => fail(e),
            }
        },
        ("zip_mut", true) => {
            let mut b = r.get::<B>("a");
            match b.zip_mut(&r.scalar::<F>("b"), |x, y: F| F::from_spec(f_zid(n(x), n(y)))) {
                Ok(()) => buf(&b),
                Err(e) => fail(e),
            }
        },
        ("zip_fold", true) => {
            match ZipFold::<F>::zip_fold(&r.get::<B>("a"), &r.scalar("b"), 5i64, |a, (x, y)| f_zfold(a, n(x), n(y))) {
                Ok(x) => num(x),
                Err(e) => fail(e),
            }
        },
        _ => return None,
    })
}

/// Answer requests line by line: {"id", ...} in, the request plus "out" out.
pub fn serve(f: impl Fn(&Value) -> Option<Value> + std::panic::RefUnwindSafe) {
    use std::io::{BufRead, Write};
    quiet_panics();
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.is_empty() {
            continue;
        }
        let mut v: Value = serde_json::from_str(&l).unwrap();
        let res = match guarded(|| f(&v)) {
            Ok(Some(x)) => x,
            Ok(None) => {
                eprintln!("no such request: {}", l);
                std::process::exit(3);
            },
            Err(_) => ans("panic", vec![], vec![]),
        };
        v["out"] = res;
        writeln!(out, "{}", v).unwrap();
    }
}
