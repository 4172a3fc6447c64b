//! Creation of vectors from containers and the ways to get the data back.
//! a = [container, how, complex, frequency domain, n, m, delta * 4096, route, i, j]
pub mod ctor32 { type T = f32; const NAME: &str = "c32"; const IS32: bool = true; include!("ctor_body.rs"); }
pub mod ctor64 { type T = f64; const NAME: &str = "c64"; const IS32: bool = false; include!("ctor_body.rs"); }
