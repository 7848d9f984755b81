//! A buffer class as a user of the library would write it: matrices whose
//! shape is known at run time, implementing only what the traits require, so
//! that everything else is the traits' own default behaviour.
use crate::js::*;
use aegir::buffers::{shapes::*, Buffer, Class, Scalar, ZipFold, ZipMap};

pub struct Mats;

#[derive(Clone, Debug, PartialEq)]
pub struct Mat<F> {
    pub dims: [usize; 2],
    pub rows: Vec<Vec<F>>,
}

impl Class<SDynamic<2>> for Mats {
    type Buffer<F: Scalar> = Mat<F>;

    fn build<F: Scalar>(shape: SDynamic<2>, f: impl Fn([usize; 2]) -> F) -> Mat<F> {
        let dims = shape.0;
        Mat { dims, rows: (0..dims[0]).map(|i| (0..dims[1]).map(|j| f([i, j])).collect()).collect() }
    }

    fn build_subset<F: Scalar>(
        shape: SDynamic<2>,
        base: F,
        subset: impl Iterator<Item = [usize; 2]>,
        active: impl Fn([usize; 2]) -> F,
    ) -> Mat<F> {
        let dims = shape.0;
        let mut rows = vec![vec![base; dims[1]]; dims[0]];
        subset.for_each(|[i, j]| rows[i][j] = active([i, j]));
        Mat { dims, rows }
    }
}

impl<F: Scalar> Shaped for Mat<F> {
    type Shape = SDynamic<2>;

    fn shape(&self) -> SDynamic<2> { SDynamic(self.dims) }
}

impl<F: Scalar> Buffer for Mat<F> {
    type Class = Mats;
    type Field = F;

    fn class() -> Mats { Mats }

    fn get_unchecked(&self, [i, j]: [usize; 2]) -> F { self.rows[i][j] }

    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> Mat<A> {
        Mat { dims: self.dims, rows: self.rows.iter().map(|r| r.iter().map(|x| f(*x)).collect()).collect() }
    }

    fn mutate<M: Fn(F) -> F>(&mut self, f: M) {
        for r in &mut self.rows {
            for x in r {
                *x = f(*x);
            }
        }
    }
}

fn check(l: [usize; 2], r: [usize; 2]) -> Result<(), IncompatibleShapes<SDynamic<2>>> {
    if l == r { Ok(()) } else { Err(IncompatibleShapes { left: SDynamic(l), right: SDynamic(r) }) }
}

impl<F: Scalar> ZipMap for Mat<F> {
    type Output<A: Scalar> = Mat<A>;

    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, rhs: &Mat<F>, f: M) -> Result<Mat<A>, IncompatibleShapes<SDynamic<2>>> {
        check(self.dims, rhs.dims)?;
        let rows = self.rows.iter().zip(&rhs.rows);
        Ok(Mat { dims: self.dims, rows: rows.map(|(l, r)| l.iter().zip(r).map(|(x, y)| f(*x, *y)).collect()).collect() })
    }

    fn zip_shape(self, r: SDynamic<2>) -> Result<Mat<F>, IncompatibleShapes<SDynamic<2>>> {
        check(self.dims, r.0).map(|_| self)
    }
}

impl<F: Scalar> ZipFold for Mat<F> {
    fn zip_fold<A: Scalar, M: Fn(A, (F, F)) -> A>(
        &self,
        rhs: &Mat<F>,
        init: A,
        f: M,
    ) -> Result<A, IncompatibleShapes<SDynamic<2>>> {
        check(self.dims, rhs.dims)?;
        let xs = self.rows.iter().flatten().zip(rhs.rows.iter().flatten());
        Ok(xs.fold(init, |a, (x, y)| f(a, (*x, *y))))
    }
}

macro_rules! with_scalar {
    ($($F:ty),*) => { $(
        impl ZipMap<$F> for Mat<$F> {
            type Output<A: Scalar> = Mat<A>;

            fn zip_map<A: Scalar, M: Fn($F, $F) -> A>(
                self,
                rhs: &$F,
                f: M,
            ) -> Result<Mat<A>, IncompatibleShapes<SDynamic<2>, S0>> {
                Ok(self.map(|x| f(x, *rhs)))
            }

            fn zip_shape(self, _: S0) -> Result<Mat<$F>, IncompatibleShapes<SDynamic<2>, S0>> { Ok(self) }
        }

        impl ZipMap<Mat<$F>> for $F {
            type Output<A: Scalar> = Mat<A>;

            fn zip_map<A: Scalar, M: Fn($F, $F) -> A>(
                self,
                rhs: &Mat<$F>,
                f: M,
            ) -> Result<Mat<A>, IncompatibleShapes<S0, SDynamic<2>>> {
                Ok(rhs.clone().map(|x| f(self, x)))
            }

            fn zip_shape(self, r: SDynamic<2>) -> Result<Mat<$F>, IncompatibleShapes<S0, SDynamic<2>>> {
                Ok(Mats::full(r, self))
            }
        }
    )* };
}
with_scalar!(i64, f64);

impl<F: Num> Flat for Mat<F> {
    fn to_flat(&self) -> Vec<i64> { self.rows.iter().flatten().map(|x| x.to_spec()).collect() }
    fn from_flat(s: &[usize], d: &[i64]) -> Self {
        let rows = (0..s[0]).map(|i| (0..s[1]).map(|j| F::from_spec(d[i * s[1] + j])).collect()).collect();
        Mat { dims: [s[0], s[1]], rows }
    }
    fn dims_of(&self) -> Vec<usize> { self.dims.to_vec() }
    fn mk_shape(d: &[usize]) -> SDynamic<2> { SDynamic([d[0], d[1]]) }
}
