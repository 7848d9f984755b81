//! C13 and C19: every buffer class.
use aegir_vh::{api::*, js::*, own::Mat, zfield::Z};

// one arm per concrete type
macro_rules! table {
    ($r:ident, $cls:expr, $f:expr, $s:expr; scalars [$($F:ty as $fn:literal),*]) => {
        $(if $cls == "scalars" && $f == $fn { return unary::<$F>($r).or_else(|| same::<$F>($r)); })*
    };
    ($r:ident, $cls:expr, $f:expr, $s:expr; tuples [$($F:ty as $fn:literal),*]) => {
        $(if $cls == "tuples" && $f == $fn { return unary::<($F, $F)>($r).or_else(|| same::<($F, $F)>($r)); })*
    };
    ($r:ident, $cls:expr, $f:expr, $s:expr; vecs [$($F:ty as $fn:literal),*]) => {
        $(if $cls == "vecs" && $f == $fn {
            return match rel($r) {
                "right" => right::<Vec<$F>>($r),
                "left" => left::<$F, Vec<$F>>($r),
                _ => unary::<Vec<$F>>($r).or_else(|| same::<Vec<$F>>($r)),
            };
        })*
    };
    ($r:ident, $cls:expr, $f:expr, $s:expr; mats [$($F:ty as $fn:literal),*]) => {
        $(if $cls == "mats" && $f == $fn {
            return match rel($r) {
                "right" => right::<Mat<$F>>($r),
                "left" => left::<$F, Mat<$F>>($r),
                _ => unary::<Mat<$F>>($r).or_else(|| same::<Mat<$F>>($r)),
            };
        })*
    };
    ($r:ident, $cls:expr, $f:expr, $s:expr; arrays $F:ty as $fn:literal [$($T:ty = $d:expr),*]) => {
        $(if $cls == "arrays" && $f == $fn && $s == $d {
            return match rel($r) {
                "right" => right::<$T>($r).or_else(|| in_place::<$F, $T>($r, true)),
                "left" => left::<$F, $T>($r),
                _ => unary::<$T>($r).or_else(|| same::<$T>($r)).or_else(|| in_place::<$F, $T>($r, false)),
            };
        })*
    };
}

macro_rules! low {
    ($r:ident, $cls:expr, $f:expr, $s:expr; $F:ty as $fn:literal) => {
        table!($r, $cls, $f, $s; arrays $F as $fn [
            [$F; 0] = [0], [$F; 1] = [1], [$F; 2] = [2], [$F; 3] = [3], [$F; 4] = [4],
            [[$F; 2]; 0] = [0, 2], [[$F; 0]; 2] = [2, 0], [[$F; 1]; 1] = [1, 1], [[$F; 3]; 1] = [1, 3],
            [[$F; 1]; 3] = [3, 1], [[$F; 2]; 2] = [2, 2], [[$F; 3]; 2] = [2, 3], [[$F; 2]; 3] = [3, 2],
            [[$F; 3]; 3] = [3, 3], [$F; 8] = [8], [$F; 9] = [9], [$F; 17] = [17], [[$F; 5]; 4] = [4, 5], [[$F; 2]; 9] = [9, 2]
        ]);
    };
}

macro_rules! high {
    ($r:ident, $cls:expr, $f:expr, $s:expr; $F:ty as $fn:literal) => {
        table!($r, $cls, $f, $s; arrays $F as $fn [
            [[[$F; 2]; 2]; 2] = [2, 2, 2], [[[$F; 1]; 3]; 2] = [2, 3, 1], [[[$F; 3]; 2]; 1] = [1, 2, 3],
            [[[$F; 2]; 0]; 2] = [2, 0, 2], [[[$F; 2]; 2]; 3] = [3, 2, 2],
            [[[[$F; 2]; 2]; 2]; 2] = [2, 2, 2, 2], [[[[$F; 2]; 3]; 2]; 1] = [1, 2, 3, 2],
            [[[[$F; 3]; 2]; 1]; 2] = [2, 1, 2, 3],
            [[[[[$F; 2]; 2]; 2]; 2]; 2] = [2, 2, 2, 2, 2], [[[[[$F; 2]; 3]; 2]; 1]; 2] = [2, 1, 2, 3, 2],
            [[[[[$F; 2]; 3]; 1]; 2]; 1] = [1, 2, 1, 3, 2]
        ]);
    };
}

fn rel(r: &Req) -> &'static str {
    match r.0["rel"].as_str() {
        Some("right") => "right",
        Some("left") => "left",
        _ => "",
    }
}

fn answer(v: &Value) -> Option<Value> {
    let r = &Req(v);
    let cls = v["cls"].as_str().unwrap();
    let f = v["f"].as_str().unwrap();
    let s: &[usize] = &usizes(&v["s"]);
    table!(r, cls, f, s; scalars [
        f32 as "f32", f64 as "f64", u8 as "u8", u16 as "u16", u32 as "u32", u64 as "u64", usize as "usize",
        i8 as "i8", i16 as "i16", i32 as "i32", i64 as "i64", isize as "isize", Z as "z"
    ]);
    table!(r, cls, f, s; tuples [i64 as "i64", f64 as "f64", u8 as "u8", Z as "z"]);
    table!(r, cls, f, s; vecs [i64 as "i64", f64 as "f64", u8 as "u8", Z as "z"]);
    table!(r, cls, f, s; mats [i64 as "i64", f64 as "f64"]);
    low!(r, cls, f, s; i64 as "i64");
    low!(r, cls, f, s; f64 as "f64");
    low!(r, cls, f, s; u8 as "u8");
    high!(r, cls, f, s; i64 as "i64");
    high!(r, cls, f, s; f64 as "f64");
    None
}

fn main() { serve(answer) }
