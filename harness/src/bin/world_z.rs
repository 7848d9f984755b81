use aegir_vh::base_z::*;
include!("../world_impl.rs");
