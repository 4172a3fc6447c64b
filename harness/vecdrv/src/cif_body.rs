// Included once per precision (see cifs.rs): executes calls through the C interface, as a client written in C would.
use crate::core::*;
use crate::funcs::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::Statistics;
use std::os::raw::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

type P = *mut c_void;
type D = *const c_void;
type C = Complex<T>;
#[repr(C)] pub struct VR { code: i32, v: P }
#[repr(C)] pub struct SR<X> { code: i32, x: X }
type FR = extern "C" fn(D, T) -> T;
type FC = extern "C" fn(D, T) -> C;
type FW = extern "C" fn(D, usize, usize) -> T;

macro_rules! api { ($( $n:ident ( $($a:ident : $t:ty),* ) $(-> $r:ty)? ;)*) => { mod ffi { use super::*; #[allow(improper_ctypes)] extern "C" { $( #[link_name = sym!($n)] pub fn $n($($a: $t),*) $(-> $r)?; )* } } } }
api! {
    delete_vector(v: P);
    new(cx: i32, fr: i32, x: T, n: usize, d: T) -> P;
    new_with_performance_options(cx: i32, fr: i32, x: T, n: usize, d: T, cores: usize) -> P;
    new_with_detailed_performance_options(cx: i32, fr: i32, x: T, n: usize, d: T, cores: usize, m2: usize, mm: usize, l2: usize, lm: usize) -> P;
    get_value(v: P, i: usize) -> T; set_value(v: P, i: usize, x: T);
    is_complex(v: P) -> i32; get_domain(v: P) -> i32; get_len(v: P) -> usize; set_len(v: P, n: usize); get_points(v: P) -> usize;
    get_delta(v: P) -> T; data(v: P) -> *const T; complex_data(v: P) -> *const C; get_allocated_len(v: P) -> usize;
    add(v: P, o: P) -> VR; sub(v: P, o: P) -> VR; div(v: P, o: P) -> VR; mul(v: P, o: P) -> VR;
    add_vector(v: P, o: P) -> VR; sub_vector(v: P, o: P) -> VR; div_vector(v: P, o: P) -> VR; mul_vector(v: P, o: P) -> VR;
    add_smaller_vector(v: P, o: P) -> VR; sub_smaller_vector(v: P, o: P) -> VR; div_smaller_vector(v: P, o: P) -> VR; mul_smaller_vector(v: P, o: P) -> VR;
    real_dot_product(v: P, o: P) -> SR<T>; complex_dot_product(v: P, o: P) -> SR<C>; real_dot_product_prec(v: P, o: P) -> SR<T>; complex_dot_product_prec(v: P, o: P) -> SR<C>;
    real_statistics(v: P) -> Statistics<T>; complex_statistics(v: P) -> Statistics<C>;
    real_statistics_prec(v: P) -> Statistics<f64>; complex_statistics_prec(v: P) -> Statistics<Complex<f64>>;
    real_sum(v: P) -> T; real_sum_sq(v: P) -> T; complex_sum(v: P) -> C; complex_sum_sq(v: P) -> C;
    real_sum_prec(v: P) -> f64; real_sum_sq_prec(v: P) -> f64; complex_sum_prec(v: P) -> Complex<f64>; complex_sum_sq_prec(v: P) -> Complex<f64>;
    real_statistics_split(v: P, d: *mut Statistics<T>, n: usize) -> i32; complex_statistics_split(v: P, d: *mut Statistics<C>, n: usize) -> i32;
    real_statistics_split_prec(v: P, d: *mut Statistics<f64>, n: usize) -> i32; complex_statistics_split_prec(v: P, d: *mut Statistics<Complex<f64>>, n: usize) -> i32;
    zero_pad(v: P, n: usize, o: i32) -> VR; zero_interleave(v: P, f: i32) -> VR;
    diff(v: P) -> VR; diff_with_start(v: P) -> VR; cum_sum(v: P) -> VR; real_offset(v: P, x: T) -> VR; real_scale(v: P, x: T) -> VR;
    complex_offset(v: P, x: T, y: T) -> VR; complex_scale(v: P, x: T, y: T) -> VR; complex_divide(v: P, x: T, y: T) -> VR;
    abs(v: P) -> VR; sqrt(v: P) -> VR; square(v: P) -> VR; root(v: P, x: T) -> VR; powf(v: P, x: T) -> VR; ln(v: P) -> VR; exp(v: P) -> VR; log(v: P, x: T) -> VR; expf(v: P, x: T) -> VR;
    sin(v: P) -> VR; cos(v: P) -> VR; tan(v: P) -> VR; asin(v: P) -> VR; acos(v: P) -> VR; atan(v: P) -> VR;
    sinh(v: P) -> VR; cosh(v: P) -> VR; tanh(v: P) -> VR; asinh(v: P) -> VR; acosh(v: P) -> VR; atanh(v: P) -> VR;
    ln_approx(v: P) -> VR; exp_approx(v: P) -> VR; sin_approx(v: P) -> VR; cos_approx(v: P) -> VR; log_approx(v: P, x: T) -> VR; expf_approx(v: P, x: T) -> VR; powf_approx(v: P, x: T) -> VR;
    wrap(v: P, x: T) -> VR; unwrap(v: P, x: T) -> VR; swap_halves(v: P) -> VR; reverse(v: P) -> VR; fft_shift(v: P) -> VR; ifft_shift(v: P) -> VR; mirror(v: P) -> VR; conj(v: P) -> VR;
    to_complex(v: P) -> VR; magnitude(v: P) -> VR; magnitude_squared(v: P) -> VR; to_real(v: P) -> VR; to_imag(v: P) -> VR; phase(v: P) -> VR;
    get_magnitude(v: P, d: P) -> i32; get_magnitude_squared(v: P, d: P) -> i32; get_real(v: P, d: P) -> i32; get_imag(v: P, d: P) -> i32; get_phase(v: P, d: P) -> i32;
    get_real_imag(v: P, d: P, e: P) -> i32; get_mag_phase(v: P, d: P, e: P) -> i32; set_real_imag(v: P, d: P, e: P) -> VR; set_mag_phase(v: P, d: P, e: P) -> VR;
    map_inplace_real(v: P, f: extern "C" fn(T, usize) -> T) -> VR; map_inplace_complex(v: P, f: extern "C" fn(C, usize) -> C) -> VR;
    map_aggregate_real(v: P, f: extern "C" fn(T, usize) -> D, g: extern "C" fn(D, D) -> D) -> SR<D>; map_aggregate_complex(v: P, f: extern "C" fn(C, usize) -> D, g: extern "C" fn(D, D) -> D) -> SR<D>;
    plain_fft(v: P) -> VR; plain_sfft(v: P) -> VR; plain_ifft(v: P) -> VR; plain_sifft(v: P) -> VR; fft(v: P) -> VR; sfft(v: P) -> VR; ifft(v: P) -> VR; sifft(v: P) -> VR;
    clone(v: P) -> P;
    multiply_complex_exponential(v: P, a: T, b: T) -> VR;
    split_into(v: P, t: *mut P, n: usize) -> i32; merge(v: P, s: *const P, n: usize) -> VR; overwrite_data(v: P, d: *const T, n: usize) -> VR;
    apply_window(v: P, w: i32) -> VR; unapply_window(v: P, w: i32) -> VR; windowed_fft(v: P, w: i32) -> VR; windowed_sfft(v: P, w: i32) -> VR; windowed_ifft(v: P, w: i32) -> VR; windowed_sifft(v: P, w: i32) -> VR;
    apply_custom_window(v: P, f: FW, d: D, s: bool) -> VR; unapply_custom_window(v: P, f: FW, d: D, s: bool) -> VR; windowed_custom_fft(v: P, f: FW, d: D, s: bool) -> VR;
    windowed_custom_sfft(v: P, f: FW, d: D, s: bool) -> VR; windowed_custom_ifft(v: P, f: FW, d: D, s: bool) -> VR; windowed_custom_sifft(v: P, f: FW, d: D, s: bool) -> VR;
    decimatei(v: P, f: u32, d: u32) -> VR; prepare_argument(v: P) -> VR; prepare_argument_padded(v: P) -> VR; correlate(v: P, o: P) -> VR; convolve_signal(v: P, o: P) -> VR;
    convolve_real(v: P, f: FR, d: D, s: bool, r: T, n: usize) -> VR; convolve_complex(v: P, f: FC, d: D, s: bool, r: T, n: usize) -> VR; convolve(v: P, k: i32, ro: T, r: T, n: usize) -> VR;
    multiply_frequency_response_real(v: P, f: FR, d: D, s: bool, r: T) -> VR; multiply_frequency_response_complex(v: P, f: FC, d: D, s: bool, r: T) -> VR;
    multiply_frequency_response(v: P, k: i32, ro: T, r: T) -> VR;
    interpolatef_custom(v: P, f: FR, d: D, s: bool, x: T, y: T, n: usize) -> VR; interpolatef(v: P, k: i32, ro: T, x: T, y: T, n: usize) -> VR;
    interpolate_custom(v: P, f: FR, d: D, s: bool, n: usize, y: T) -> VR; interpolate(v: P, k: i32, ro: T, n: usize, y: T) -> VR; interpft(v: P, n: usize) -> VR;
    interpolatei_custom(v: P, f: FR, d: D, s: bool, x: i32) -> VR; interpolatei(v: P, k: i32, ro: T, x: i32) -> VR;
    interpolate_lin(v: P, x: T, y: T) -> VR; interpolate_hermite(v: P, x: T, y: T) -> VR;
}
fn f(x: f64) -> T { x as T }
fn n64(x: T) -> f64 { x as f64 }

// callbacks without a data pointer
static K: AtomicU64 = AtomicU64::new(0);
static M: AtomicUsize = AtomicUsize::new(1);
static G: AtomicU64 = AtomicU64::new(0);
fn given() -> (T, usize, T) { (f(f64::from_bits(K.load(Ordering::SeqCst))), M.load(Ordering::SeqCst), f(f64::from_bits(G.load(Ordering::SeqCst)))) }
fn keep<X>(x: X) -> D { Box::into_raw(Box::new(x)) as D }
fn read<X: Copy>(x: D) -> X { unsafe { *(x as *const X) } }
extern "C" fn map_r(x: T, i: usize) -> T { let (k, m, g) = given(); k * x + ((i % m) as T) + g }
extern "C" fn map_c(x: C, i: usize) -> C { let (k, m, g) = given(); x * k + Complex::new((i % m) as T, g) }
extern "C" fn agg_r(x: T, i: usize) -> D { let (k, m, g) = given(); keep(k * x * ((1 + i % m) as T) + g) }
extern "C" fn agg_c(x: C, i: usize) -> D { let (k, m, g) = given(); keep(x * (k * ((1 + i % m) as T)) + g) }
extern "C" fn sum_r(x: D, y: D) -> D { keep(read::<T>(x) + read::<T>(y)) }
extern "C" fn max_r(x: D, y: D) -> D { let (x, y): (T, T) = (read(x), read(y)); keep(if x > y { x } else { y }) }
extern "C" fn sum_c(x: D, y: D) -> D { keep(read::<C>(x) + read::<C>(y)) }
// callbacks with one
extern "C" fn win_f(d: D, i: usize, n: usize) -> T { let w: &Win = unsafe { &*(d as *const Win) }; WindowFunction::<T>::window(w, i, n) }
type FnR = Box<dyn Fn(T) -> T>; type FnC = Box<dyn Fn(T) -> C>;
extern "C" fn tab_i(d: D, x: T) -> T { let t: &FnR = unsafe { &*(d as *const FnR) }; t(x) }
extern "C" fn tab_c(d: D, x: T) -> C { let t: &FnC = unsafe { &*(d as *const FnC) }; t(x) }
/// callback, its data and symmetry
fn imp(a: &[f64]) -> (FnR, bool) { let r = T::ri(a); let s = r.is_symmetric(); (Box::new(move |x| r.calc(x)), s) }
fn fre(a: &[f64]) -> (FnR, bool) { let r = T::rf(a); let s = r.is_symmetric(); (Box::new(move |x| r.calc(x)), s) }
fn impc(a: &[f64]) -> (FnC, bool) { let r = T::ci(a); let s = r.is_symmetric(); (Box::new(move |x| r.calc(x)), s) }
fn frec(a: &[f64]) -> (FnC, bool) { let r = T::cf(a); let s = r.is_symmetric(); (Box::new(move |x| r.calc(x)), s) }
/// number and rolloff of a function which is known by its number
fn known(a: &[f64]) -> Option<(i32, T)> { match a[0] as usize { 2 => Some((0, 0.0)), 3 => Some((1, (a[1] / 8.0) as T)), _ => None } }

/// the documented result codes
fn named(code: i32) -> String {
    match code {
        1 => "InputMustHaveTheSameSize", 2 => "InputMetaDataMustAgree", 3 => "InputMustBeComplex", 4 => "InputMustBeReal", 5 => "InputMustBeInTimeDomain", 6 => "InputMustBeInFrequencyDomain",
        7 => "InvalidArgumentLength", 8 => "InputMustBeConjSymmetric", 9 => "InputMustHaveAnOddLength", 10 => "ArgumentFunctionMustBeSymmetric", 11 => "InvalidNumberOfArgumentsForCombinedOp",
        12 => "InputMustNotBeEmpty", 13 => "InputMustHaveAnEvenLength", 14 => "TypeCanNotResize", c => return format!("Code{}", c),
    }.to_string()
}
fn stat2<X: Copy>(s: &Statistics<X>, g: &dyn Fn(X) -> (f64, f64)) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { let (a, b) = g(*c); v.push(a); v.push(b); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}

const UNTOUCHED: usize = 987654321;
struct Sl { p: P, mc: [usize; 5] }
pub struct W { slots: Vec<Option<Sl>>, n: usize }
impl W {
    pub fn new() -> W { let mut s = vec![]; for _ in 0..40 { s.push(None); } W { slots: s, n: 0 } }
    /// the marker of a vector shows in the result code of every operation
    fn marked(p: P) -> bool { unsafe { let c = ffi::clone(p); let r = ffi::real_scale(c, 1.0); ffi::delete_vector(r.v); r.code == -1 } }
    fn done(&mut self, t: usize, r: VR) -> Out {
        self.slots[t].as_mut().unwrap().p = r.v;
        Self::code(r.v, r.code, None)
    }
    /// 0, -1 for marked vectors or an error
    fn code(p: P, code: i32, x: Option<Vec<f64>>) -> Out {
        if code > 0 { return Out::Err(named(code)); }
        let want = if Self::marked(p) { -1 } else { 0 };
        if code != want { return Out::Err(format!("Code{}", code)); }
        match x { Some(x) => Out::Num(x), None => Out::Ok }
    }
    fn void(code: i32) -> Out { if code == 0 { Out::Ok } else { Out::Err(named(code)) } }
    fn exec(&mut self, c: &Call) -> Out {
        use ffi as F;
        let a = &c.a;
        let q = |i: usize| -> T { f(a[i] / a[i + 1]) };
        let t = c.t;
        let v = match &self.slots[t] { Some(s) => s.p, None => return Out::Na };
        let mut o = vec![];
        for k in &c.o { match &self.slots[*k] { Some(s) => o.push(s.p), None if c.op == "clone" => {}, None => return Out::Na } }
        self.n += 1;
        let odd = self.n % 2 == 1;
        type F1 = unsafe extern "C" fn(P) -> VR;
        type F2 = unsafe extern "C" fn(P, T) -> VR;
        type FO = unsafe extern "C" fn(P, P) -> VR;
        let f1: Option<F1> = match &c.op[..] {
            "diff" => Some(F::diff), "diff_with_start" => Some(F::diff_with_start), "cum_sum" => Some(F::cum_sum), "sqrt" => Some(F::sqrt), "square" => Some(F::square), "ln" => Some(F::ln), "exp" => Some(F::exp),
            "sin" => Some(F::sin), "cos" => Some(F::cos), "tan" => Some(F::tan), "asin" => Some(F::asin), "acos" => Some(F::acos), "atan" => Some(F::atan), "sinh" => Some(F::sinh), "cosh" => Some(F::cosh), "tanh" => Some(F::tanh),
            "asinh" => Some(F::asinh), "acosh" => Some(F::acosh), "atanh" => Some(F::atanh), "ln_approx" => Some(F::ln_approx), "exp_approx" => Some(F::exp_approx), "sin_approx" => Some(F::sin_approx), "cos_approx" => Some(F::cos_approx),
            "swap_halves" => Some(F::swap_halves), "reverse" => Some(F::reverse), "fft_shift" => Some(F::fft_shift), "ifft_shift" => Some(F::ifft_shift), "mirror" => Some(F::mirror), "conj" => Some(F::conj),
            "to_complex_b" => Some(F::to_complex), "magnitude_b" => Some(F::magnitude), "magnitude_squared_b" => Some(F::magnitude_squared), "to_real_b" => Some(F::to_real), "to_imag_b" => Some(F::to_imag), "phase_b" => Some(F::phase),
            "plain_fft" => Some(F::plain_fft), "plain_sfft" => Some(F::plain_sfft), "plain_ifft" => Some(F::plain_ifft), "plain_sifft" => Some(F::plain_sifft), "fft" => Some(F::fft), "sfft" => Some(F::sfft), "ifft" => Some(F::ifft), "sifft" => Some(F::sifft),
            "prepare_argument" => Some(F::prepare_argument), "prepare_argument_padded" => Some(F::prepare_argument_padded),
            "abs" if a.get(0).map(|x| *x == 0.0).unwrap_or(true) => Some(F::abs),
            _ => None };
        if let Some(g) = f1 { let r = unsafe { g(v) }; return self.done(t, r); }
        let f2: Option<(F2, T)> = match &c.op[..] {
            "root" => Some((F::root, q(0))), "powf" => Some((F::powf, q(0))), "log" => Some((F::log, q(0))), "expf" => Some((F::expf, q(0))), "log_approx" => Some((F::log_approx, q(0))), "expf_approx" => Some((F::expf_approx, q(0))),
            "powf_approx" => Some((F::powf_approx, q(0))), "wrap" => Some((F::wrap, f(a[0]))), "unwrap" => Some((F::unwrap, f(a[0]))), "scale" => Some((F::real_scale, f(a[0]))), "offset" => Some((F::real_offset, f(a[0]))),
            _ => None };
        if let Some((g, x)) = f2 { let r = unsafe { g(v, x) }; return self.done(t, r); }
        let fo: Option<FO> = match &c.op[..] {
            "add" => Some(if odd { F::add } else { F::add_vector }), "sub" => Some(if odd { F::sub } else { F::sub_vector }), "mul" => Some(if odd { F::mul } else { F::mul_vector }), "div" => Some(if odd { F::div } else { F::div_vector }),
            "add_smaller" => Some(F::add_smaller_vector), "sub_smaller" => Some(F::sub_smaller_vector), "mul_smaller" => Some(F::mul_smaller_vector), "div_smaller" => Some(F::div_smaller_vector),
            "correlate" => Some(F::correlate), "convolve_signal" => Some(F::convolve_signal), _ => None };
        if let Some(g) = fo { let r = unsafe { g(v, o[0]) }; return self.done(t, r); }
        unsafe { match &c.op[..] {
            "resize" => { let n = a[0] as usize; F::set_len(v, n); if F::get_len(v) == n { Out::Ok } else { Out::Err("InputMustHaveAnEvenLength".into()) } }
            "zero_pad_b" => { let r = F::zero_pad(v, a[0] as usize, a[1] as i32); self.done(t, r) }
            "zero_interleave_b" => { let r = F::zero_interleave(v, a[0] as i32); self.done(t, r) }
            "offset_c" => { let r = F::complex_offset(v, f(a[0]), f(a[1])); self.done(t, r) }
            "scale_c" => {
                // the division by the reciprocal, if there is an exact one
                let s = a[0] * a[0] + a[1] * a[1];
                let r = if [1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0].contains(&s) && odd { F::complex_divide(v, f(a[0] / s), f(-a[1] / s)) } else { F::complex_scale(v, f(a[0]), f(a[1])) };
                self.done(t, r)
            }
            "mce" => { let pi = std::f64::consts::PI; let r = F::multiply_complex_exponential(v, f(2.0 * pi * a[0] / a[2]), f(2.0 * pi * a[1] / a[2])); self.done(t, r) }
            "map" | "map_c" | "aggr_sum" | "aggr_max" | "aggr_sum_c" => {
                K.store(a[0].to_bits(), Ordering::SeqCst); M.store(a[1] as usize, Ordering::SeqCst); G.store(a[2].to_bits(), Ordering::SeqCst);
                match &c.op[..] {
                    "map" => { let r = F::map_inplace_real(v, map_r); self.done(t, r) }
                    "map_c" => { let r = F::map_inplace_complex(v, map_c); self.done(t, r) }
                    "aggr_sum_c" => { let r = F::map_aggregate_complex(v, agg_c, sum_c); Self::code(v, r.code, Some(if r.x.is_null() { vec![] } else { let x: C = read(r.x); vec![n64(x.re), n64(x.im)] })) }
                    op => { let r = F::map_aggregate_real(v, agg_r, if op == "aggr_sum" { sum_r } else { max_r }); Self::code(v, r.code, Some(if r.x.is_null() { vec![] } else { vec![n64(read::<T>(r.x))] })) }
                }
            }
            "dot" => { let r = F::real_dot_product(v, o[0]); Self::code(v, r.code, Some(vec![n64(r.x)])) }
            "dot_prec" => { let r = F::real_dot_product_prec(v, o[0]); Self::code(v, r.code, Some(vec![n64(r.x)])) }
            "dot_c" => { let r = F::complex_dot_product(v, o[0]); Self::code(v, r.code, Some(vec![n64(r.x.re), n64(r.x.im)])) }
            "dot_prec_c" => { let r = F::complex_dot_product_prec(v, o[0]); Self::code(v, r.code, Some(vec![n64(r.x.re), n64(r.x.im)])) }
            "sum" => Out::Num(vec![n64(F::real_sum(v))]),
            "sum_sq" => Out::Num(vec![n64(F::real_sum_sq(v))]),
            "sum_c" => { let r = F::complex_sum(v); Out::Num(vec![n64(r.re), n64(r.im)]) }
            "sum_sq_c" => { let r = F::complex_sum_sq(v); Out::Num(vec![n64(r.re), n64(r.im)]) }
            "sum_prec" => Out::Num(vec![F::real_sum_prec(v)]),
            "sum_sq_prec" => Out::Num(vec![F::real_sum_sq_prec(v)]),
            "sum_prec_c" => { let r = F::complex_sum_prec(v); Out::Num(vec![r.re, r.im]) }
            "sum_sq_prec_c" => { let r = F::complex_sum_sq_prec(v); Out::Num(vec![r.re, r.im]) }
            "stats" => Out::Num(stat2(&F::real_statistics(v), &|x| (n64(x), 0.0))),
            "stats_c" => Out::Num(stat2(&F::complex_statistics(v), &|x| (n64(x.re), n64(x.im)))),
            "stats_prec" => Out::Num(stat2(&F::real_statistics_prec(v), &|x| (x, 0.0))),
            "stats_prec_c" => Out::Num(stat2(&F::complex_statistics_prec(v), &|x| (x.re, x.im))),
            "stats_split" | "stats_split_c" | "stats_split_prec" | "stats_split_prec_c" => {
                let n = a[0] as usize;
                macro_rules! sp { ($fun:ident, $z:expr, $g:expr) => { {
                    let empty = Statistics { sum: $z, count: UNTOUCHED, average: $z, rms: $z, min: $z, min_index: 0, max: $z, max_index: 0 };
                    let mut d = vec![empty; n];
                    let r = F::$fun(v, d.as_mut_ptr(), n);
                    if r != 0 { Out::Err(named(r)) } else { Out::Num(d.iter().filter(|s| s.count != UNTOUCHED).flat_map(|s| stat2(s, &$g)).collect()) }
                } } }
                match &c.op[..] {
                    "stats_split" => sp!(real_statistics_split, 0.0, |x: T| (n64(x), 0.0)),
                    "stats_split_c" => sp!(complex_statistics_split, C::new(0.0, 0.0), |x: C| (n64(x.re), n64(x.im))),
                    "stats_split_prec" => sp!(real_statistics_split_prec, 0.0, |x: f64| (x, 0.0)),
                    _ => sp!(complex_statistics_split_prec, Complex::new(0.0, 0.0), |x: Complex<f64>| (x.re, x.im)),
                }
            }
            "apply_window" | "unapply_window" | "windowed_fft" | "windowed_sfft" | "windowed_ifft" | "windowed_sifft" => {
                let k = a[0] as i32;
                if k == 14 { return Out::Na; }
                if k >= 10 {
                    let k = if k == 13 && odd { 99 } else { k - 10 };
                    let r = match &c.op[..] { "apply_window" => F::apply_window(v, k), "unapply_window" => F::unapply_window(v, k), "windowed_fft" => F::windowed_fft(v, k),
                        "windowed_sfft" => F::windowed_sfft(v, k), "windowed_ifft" => F::windowed_ifft(v, k), _ => F::windowed_sifft(v, k) };
                    return self.done(t, r);
                }
                let w = Win::new(a);
                let s = WindowFunction::<T>::is_symmetric(&w);
                let d = &w as *const Win as D;
                let r = match &c.op[..] { "apply_window" => F::apply_custom_window(v, win_f, d, s), "unapply_window" => F::unapply_custom_window(v, win_f, d, s), "windowed_fft" => F::windowed_custom_fft(v, win_f, d, s),
                    "windowed_sfft" => F::windowed_custom_sfft(v, win_f, d, s), "windowed_ifft" => F::windowed_custom_ifft(v, win_f, d, s), _ => F::windowed_custom_sifft(v, win_f, d, s) };
                self.done(t, r)
            }
            "mfr" => { let r = match known(&a[2..]) { Some((k, ro)) => F::multiply_frequency_response(v, k, ro, q(0)), None => { let x = fre(&a[2..]); F::multiply_frequency_response_real(v, tab_i, &x.0 as *const FnR as D, x.1, q(0)) } }; self.done(t, r) }
            "mfr_c" => { let x = frec(&a[2..]); let r = F::multiply_frequency_response_complex(v, tab_c, &x.0 as *const FnC as D, x.1, q(0)); self.done(t, r) }
            "convolve" => { let r = match known(&a[3..]) { Some((k, ro)) => F::convolve(v, k, ro, q(0), a[2] as usize), None => { let x = imp(&a[3..]); F::convolve_real(v, tab_i, &x.0 as *const FnR as D, x.1, q(0), a[2] as usize) } }; self.done(t, r) }
            "convolve_c" => { let x = impc(&a[3..]); let r = F::convolve_complex(v, tab_c, &x.0 as *const FnC as D, x.1, q(0), a[2] as usize); self.done(t, r) }
            "interpolatef" => { let r = match known(&a[5..]) { Some((k, ro)) => F::interpolatef(v, k, ro, q(0), q(2), a[4] as usize), None => { let x = imp(&a[5..]); F::interpolatef_custom(v, tab_i, &x.0 as *const FnR as D, x.1, q(0), q(2), a[4] as usize) } }; self.done(t, r) }
            "interpolatei" => { let r = match known(&a[1..]) { Some((k, ro)) => F::interpolatei(v, k, ro, a[0] as i32), None => { let x = fre(&a[1..]); F::interpolatei_custom(v, tab_i, &x.0 as *const FnR as D, x.1, a[0] as i32) } }; self.done(t, r) }
            "interpolate" => { if a.len() <= 4 { return Out::Na; } let r = match known(&a[3..]) { Some((k, ro)) => F::interpolate(v, k, ro, a[0] as usize, q(1)), None => { let x = fre(&a[3..]); F::interpolate_custom(v, tab_i, &x.0 as *const FnR as D, x.1, a[0] as usize, q(1)) } }; self.done(t, r) }
            "interpft" => { let r = F::interpft(v, a[0] as usize); self.done(t, r) }
            "decimatei" => { let r = F::decimatei(v, a[0] as u32, a[1] as u32); self.done(t, r) }
            "interpolate_lin" => { let r = F::interpolate_lin(v, q(0), q(2)); self.done(t, r) }
            "interpolate_hermite" => { let r = F::interpolate_hermite(v, q(0), q(2)); self.done(t, r) }
            "write" => { let d: Vec<T> = a.iter().map(|z| f(*z)).collect(); let r = F::overwrite_data(v, d.as_ptr(), d.len()); self.slots[t].as_mut().unwrap().p = r.v; Self::void(r.code) }
            "set_real_imag" => { let r = F::set_real_imag(v, o[0], o[1]); self.done(t, r) }
            "set_mag_phase" => { let r = F::set_mag_phase(v, o[0], o[1]); self.done(t, r) }
            "get_real" => Self::void(F::get_real(v, o[0])),
            "get_imag" => Self::void(F::get_imag(v, o[0])),
            "get_magnitude" => Self::void(F::get_magnitude(v, o[0])),
            "get_magnitude_squared" => Self::void(F::get_magnitude_squared(v, o[0])),
            "get_phase" => Self::void(F::get_phase(v, o[0])),
            "get_real_imag" => Self::void(F::get_real_imag(v, o[0], o[1])),
            "get_mag_phase" => Self::void(F::get_mag_phase(v, o[0], o[1])),
            "split_into" => { let r = F::split_into(v, o.as_mut_ptr(), o.len()); for (k, p) in c.o.iter().zip(&o) { self.slots[*k].as_mut().unwrap().p = *p; } Self::void(r) }
            "merge" => { let r = F::merge(v, o.as_ptr(), o.len()); self.done(t, r) }
            "clone" => { let p = F::clone(v); let mc = self.slots[t].as_ref().unwrap().mc; if let Some(s) = self.slots[c.o[0]].take() { F::delete_vector(s.p); } self.slots[c.o[0]] = Some(Sl { p, mc }); Out::Ok }
            _ => Out::Na,
        } }
    }
}
impl World for W {
    fn name(&self) -> &'static str { NAME }
    fn is32(&self) -> bool { IS32 }
    fn storage(&self) -> &'static str { "vec" }
    fn grows(&self) -> &'static str { "yes" }
    fn init(&mut self, slot: usize, i: &Init) {
        let n = i.data.len();
        let slack = if i.cx { i.slack / 2 * 2 } else { i.slack };
        let all = n + slack;
        let (cx, fr) = (i.cx as i32, i.fr as i32);
        self.n += 1;
        unsafe {
            let p = if i.mc != MC1 { ffi::new_with_detailed_performance_options(cx, fr, 777.0, all, f(i.delta), i.mc[0], i.mc[1], i.mc[2], i.mc[3], i.mc[4]) }
                else if self.n % 3 == 0 { ffi::new_with_performance_options(cx, fr, 777.0, all, f(i.delta), i.mc[0]) }
                else if self.n % 3 == 1 { ffi::new_with_detailed_performance_options(cx, fr, 777.0, all, f(i.delta), i.mc[0], i.mc[1], i.mc[2], i.mc[3], i.mc[4]) }
                else { ffi::new(cx, fr, 777.0, all, f(i.delta)) };
            let mut p = p;
            if self.n % 2 == 0 { for (k, x) in i.data.iter().enumerate() { if k < ffi::get_len(p) { ffi::set_value(p, k, f(*x)); } } }
            else { let d: Vec<T> = i.data.iter().map(|x| f(*x)).collect(); p = ffi::overwrite_data(p, d.as_ptr(), d.len()).v; }
            ffi::set_len(p, n);
            self.slots[slot] = Some(Sl { p, mc: i.mc });
        }
    }
    fn call(&mut self, c: &Call) -> Out {
        let r = { let me = &mut *self; catch_unwind(AssertUnwindSafe(move || me.exec(c))) };
        match r { Ok(o) => o, Err(_) => Out::Panic("?".into()) }
    }
    fn clear(&mut self) { for x in self.slots.iter_mut() { if let Some(s) = x.take() { unsafe { ffi::delete_vector(s.p); } } } }
    fn snap(&self, slot: usize) -> Option<Snap> {
        let s = self.slots[slot].as_ref()?;
        let p = s.p;
        unsafe {
            let (cx, fr, len, alloc) = (ffi::is_complex(p), ffi::get_domain(p), ffi::get_len(p), ffi::get_allocated_len(p));
            // all ways to read the data
            let mut data = vec![];
            if len <= alloc { for k in 0..len {
                let x = match k % 5 { 1 => ffi::get_value(p, k), 2 if cx == 1 && len % 2 == 0 => { let z = *ffi::complex_data(p).add(k / 2); if k % 2 == 0 { z.re } else { z.im } } _ => *ffi::data(p).add(k) };
                data.push(n64(x));
            } }
            Some(Snap { empty: len == 0, ty: Ty::G, cx: cx == 1, fr: fr == 1, len: if cx | fr | 1 == 1 { len } else { 4711 }, pts: ffi::get_points(p), alloc, delta: n64(ffi::get_delta(p)), err: Self::marked(p), data, mc: s.mc })
        }
    }
    fn set_buf(&mut self, _kind: Buf, _dirty: usize) { }
    fn whole(&self, _slot: usize) -> Vec<f64> { vec![] }
}
