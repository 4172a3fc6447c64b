//! The worlds: one per storage type and number type.
macro_rules! hdr { ($name:expr, $is32:expr, $storage:expr, $grows:expr, $S:ty, $T:ty, $mk:path) => {
    pub type S = $S; pub type T = $T;
    const NAME: &str = $name; const IS32: bool = $is32; const STORAGE: &str = $storage; const GROWS: &str = $grows;
    pub fn mkst(v: Vec<T>, align: usize) -> S { $mk(v, align) }
} }
/// convolution with a function is not available for borrowed slices
macro_rules! conv_yes { () => { impl W {
    fn convolve_fun(&mut self, v: &mut V, c: &Call) -> Out {
        let a = &c.a;
        let r = f(a[0] / a[1]); let n = a[2] as usize;
        macro_rules! go { ($b:expr) => { if c.op == "convolve" {
                let t = T::ri(&a[3..]); let t = &*t;
                match v { V::RT(x) => x.convolve($b, t, r, n), V::CT(x) => x.convolve($b, t, r, n), V::G(x) => x.convolve($b, t, r, n), _ => return Out::Na }
            } else {
                let t = T::ci(&a[3..]); let t = &*t;
                match v { V::CT(x) => x.convolve($b, t, r, n), V::G(x) => x.convolve($b, t, r, n), _ => return Out::Na }
            } } }
        match &mut self.buf { B::Single(b) => go!(b), B::Fixed(b) => go!(b), B::No => { let mut nb = no_buffer(); go!(&mut nb) } }
        Out::Ok
    }
    fn convolve_sig(&mut self, v: &mut V, c: &Call) -> Out {
        let o = match self.slots[c.o[0]].as_ref() { Some(o) => o, None => return Out::Na };
        macro_rules! go { ($b:expr) => { match (v, o) { (V::RT(x), V::RT(y)) => x.convolve_signal($b, y), (V::CT(x), V::CT(y)) => x.convolve_signal($b, y),
            (V::G(x), V::G(y)) => x.convolve_signal($b, y), _ => return Out::Na } } }
        res(match &mut self.buf { B::Single(b) => go!(b), B::Fixed(b) => go!(b), B::No => { let mut nb = no_buffer(); go!(&mut nb) } })
    }
} } }
macro_rules! conv_no { () => { impl W { fn convolve_fun(&mut self, _v: &mut V, _c: &Call) -> Out { Out::Na }
    fn convolve_sig(&mut self, _v: &mut V, _c: &Call) -> Out { Out::Na } } } }
macro_rules! bufs_vec { () => {
    type SB = SingleBuffer<T>;
    /// needs a storage type which can grow
    fn set_pair(op: &str, v: &mut V, p: &V, q: &V) -> Out {
        macro_rules! sp { ($x:ident, $y:ident, $z:ident) => { res(if op == "set_real_imag" { $x.set_real_imag($y, $z) } else { $x.set_mag_phase($y, $z) }) } }
        match (v, p, q) { (CT(x), RT(y), RT(z)) => sp!(x, y, z), (CF(x), RF(y), RF(z)) => sp!(x, y, z), (G(x), G(y), G(z)) => sp!(x, y, z), _ => Out::Na }
    }
    fn no_buffer() -> NoBuffer { NoBuffer }
    fn single_buffer() -> SB { SingleBuffer::new() }
    fn dirty_single(b: &mut SB, n: usize) { let mut w = b.borrow(n); for x in w.to_slice_mut() { *x = 5555.0; } }
} }
macro_rules! bufs_fix { () => {
    type SB = FixedLenBuffer<S, T>;
    fn set_pair(_op: &str, _v: &mut V, _p: &V, _q: &V) -> Out { Out::Na }
    fn no_buffer() -> SB { single_buffer() }
    fn single_buffer() -> SB { FixedLenBuffer::new(mkst(vec![5555.0; 128], 0)) }
    fn dirty_single(_b: &mut SB, _n: usize) { }
} }
#[cfg(feature = "std")]
fn vec_of<T>(v: Vec<T>, _a: usize) -> Vec<T> { v }
#[cfg(feature = "std")]
fn box_of<T>(v: Vec<T>, _a: usize) -> Box<[T]> { v.into_boxed_slice() }
/// leaked slices, starting `align` elements into their allocation
fn slice_of<T: Clone>(v: Vec<T>, a: usize) -> &'static mut [T] {
    let mut w = if v.len() > 0 { vec![v[0].clone(); a] } else { vec![] }; let a = w.len();
    w.extend(v);
    &mut Box::leak(w.into_boxed_slice())[a..]
}
#[cfg(feature = "std")]
pub mod vec32 { hdr!("v32", true, "vec", "yes", Vec<f32>, f32, super::vec_of); bufs_vec!(); include!("world_body.rs"); conv_yes!(); }
#[cfg(feature = "std")]
pub mod vec64 { hdr!("v64", false, "vec", "yes", Vec<f64>, f64, super::vec_of); bufs_vec!(); include!("world_body.rs"); conv_yes!(); }
#[cfg(feature = "std")]
pub mod box64 { hdr!("b64", false, "box", "no", Box<[f64]>, f64, super::box_of); bufs_fix!(); include!("world_body.rs"); conv_yes!(); }
pub mod slice32 { hdr!("s32", true, "slice", "no", &'static mut [f32], f32, super::slice_of); bufs_fix!(); include!("world_body.rs"); conv_no!(); }

/// storage of a fixed capacity; the buffer has the same type and is as long as the capacity
pub const ACAP: usize = 4096;
fn array_of<T: Clone>(v: Vec<T>, _a: usize) -> arrayvec::ArrayVec<T, ACAP> { v.into_iter().take(ACAP).collect() }
pub mod array32 { hdr!("a32", true, "array", "yes", arrayvec::ArrayVec<f32, { super::ACAP }>, f32, super::array_of); bufs_fix!(); include!("world_body.rs"); conv_yes!(); }

#[cfg(not(feature = "std"))]
pub mod array64 { hdr!("a64", false, "array", "yes", arrayvec::ArrayVec<f64, { super::ACAP }>, f64, super::array_of); bufs_fix!(); include!("world_body.rs"); conv_yes!(); }

#[cfg(feature = "std")]
pub fn all() -> Vec<Box<dyn crate::core::World>> {
    vec![Box::new(vec32::W::new()), Box::new(vec64::W::new()), Box::new(box64::W::new()), Box::new(slice32::W::new()), Box::new(array32::W::new()), Box::new(crate::ctor::ctor32::W), Box::new(crate::ctor::ctor64::W)]
}
#[cfg(not(feature = "std"))]
pub fn all() -> Vec<Box<dyn crate::core::World>> { vec![Box::new(slice32::W::new()), Box::new(array32::W::new()), Box::new(array64::W::new())] }
