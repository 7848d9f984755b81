use aegir_vh::base_f::*;
include!("../world_impl.rs");
