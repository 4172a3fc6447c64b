//! The worlds of the C interface, one per precision. Vectors are only touched through exported functions.
extern crate basic_dsp_interop;
pub mod c32 { pub type T = f32; const NAME: &str = "c32"; const IS32: bool = true; const BITS: usize = 32; macro_rules! sym { ($n:ident) => { concat!(stringify!($n), "32") } } include!("cif_body.rs"); }
pub mod c64 { pub type T = f64; const NAME: &str = "c64"; const IS32: bool = false; const BITS: usize = 64; macro_rules! sym { ($n:ident) => { concat!(stringify!($n), "64") } } include!("cif_body.rs"); }
pub fn all() -> Vec<Box<dyn crate::core::World>> { vec![Box::new(c32::W::new()), Box::new(c64::W::new())] }
