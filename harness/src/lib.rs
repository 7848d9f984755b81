//! Harness library: the exact arithmetic field the specification uses and the
//! JSON plumbing shared by the binaries.
pub mod zfield;
pub mod js;
pub mod own;
pub mod api;


/// The worlds of the recorded histories over the two scalars.
pub mod base_z {
    pub type F = crate::zfield::Z;
    include!("base.rs");
}
pub mod base_f {
    pub type F = f64;
    include!("base.rs");
}
pub mod describe;
