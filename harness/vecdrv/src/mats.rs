//! The worlds of matrices: one per kind of matrix and number type.
macro_rules! hdr { ($name:expr, $is32:expr, $T:ty) => {
    pub type S = Vec<$T>; pub type T = $T;
    const NAME: &str = $name; const IS32: bool = $is32;
} }
macro_rules! any_rows { () => {
    type MX<X> = MatrixMxN<X, S, T>;
    type Sc<X> = Vec<X>;
    fn fits(_n: usize) -> bool { true }
    fn rows<X>(v: Vec<X>) -> Vec<X> { v }
    fn list<X>(v: Vec<X>) -> Vec<X> { v }
    macro_rules! responses { ($rs:ident, $y:ident => $e:expr) => { { let $y: Vec<&Vec<_>> = $rs.iter().collect(); $e } } }
} }
macro_rules! fixed_rows { ($M:ident, $n:expr) => {
    type MX<X> = $M<X, S, T>;
    type Sc<X> = [X; $n];
    fn fits(n: usize) -> bool { n == $n }
    fn rows<X>(v: Vec<X>) -> [X; $n] { match v.try_into() { Ok(a) => a, Err(_) => panic!("rows") } }
    fn list<X>(v: [X; $n]) -> Vec<X> { v.into() }
    macro_rules! responses { ($rs:ident, $y:ident => $e:expr) => { {
        if $rs.len() != $n || $rs.iter().any(|x| x.len() != $n) { return Out::Na; }
        let $y: [[_; $n]; $n] = std::array::from_fn(|i| std::array::from_fn(|j| $rs[i][j])); $e } } }
} }
pub mod m32 { hdr!("m32", true, f32); any_rows!(); include!("mat_body.rs"); }
pub mod m64 { hdr!("m64", false, f64); any_rows!(); include!("mat_body.rs"); }
pub mod two64 { hdr!("n64", false, f64); fixed_rows!(Matrix2xN, 2); include!("mat_body.rs"); }
pub mod three32 { hdr!("p32", true, f32); fixed_rows!(Matrix3xN, 3); include!("mat_body.rs"); }
pub mod four64 { hdr!("q64", false, f64); fixed_rows!(Matrix4xN, 4); include!("mat_body.rs"); }
pub fn all() -> Vec<Box<dyn crate::core::World>> {
    vec![Box::new(m32::W::new()), Box::new(m64::W::new()), Box::new(two64::W::new()), Box::new(three32::W::new()), Box::new(four64::W::new())]
}
