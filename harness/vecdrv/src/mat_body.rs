// Included once per matrix kind and number type (see mats.rs): executes calls on the real library.  Derived from world_body.rs.
use crate::core::*;
use crate::funcs::*;
use basic_dsp_vector::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::meta;
use std::panic::{catch_unwind, AssertUnwindSafe};
type RTv = RealTimeVec<S, T>; type CTv = ComplexTimeVec<S, T>; type RFv = RealFreqVec<S, T>; type CFv = ComplexFreqVec<S, T>; type Gv = GenDspVec<S, T>;
pub enum V { RT(MX<RTv>), CT(MX<CTv>), RF(MX<RFv>), CF(MX<CFv>), G(MX<Gv>) }
/// vectors
pub enum U { RT(RTv), CT(CTv), RF(RFv), CF(CFv), G(Gv) }
pub enum Slot { M(usize, V), U(U) }
use self::V::*;
use basic_dsp_matrix::*;

macro_rules! all { ($v:expr, $x:ident => $e:expr) => { match $v { RT($x) => $e, CT($x) => $e, RF($x) => $e, CF($x) => $e, G($x) => $e } } }
macro_rules! reals { ($v:expr, $x:ident => $e:expr) => { match $v { RT($x) => $e, RF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! cplx { ($v:expr, $x:ident => $e:expr) => { match $v { CT($x) => $e, CF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! times { ($v:expr, $x:ident => $e:expr) => { match $v { RT($x) => $e, CT($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! ctimes { ($v:expr, $x:ident => $e:expr) => { match $v { CT($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! freqs { ($v:expr, $x:ident => $e:expr) => { match $v { RF($x) => $e, CF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! cfreqs { ($v:expr, $x:ident => $e:expr) => { match $v { CF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! to_reals { ($v:expr, $x:ident => $e:expr) => { match $v { CT($x) => RT($e), CF($x) => RF($e), G($x) => G($e), other => { return (other, Out::Na) } } } }

macro_rules! uall { ($v:expr, $x:ident => $e:expr) => { match $v { U::RT($x) => $e, U::CT($x) => $e, U::RF($x) => $e, U::CF($x) => $e, U::G($x) => $e } } }
/// both operands have the same type; the second one is a matrix or a vector
macro_rules! same2 { ($v:expr, $w:expr, ($x:ident, $y:ident) => $e:expr) => { match ($v, $w) {
    (RT($x), Slot::M(_, RT($y))) => $e, (CT($x), Slot::M(_, CT($y))) => $e, (RF($x), Slot::M(_, RF($y))) => $e, (CF($x), Slot::M(_, CF($y))) => $e, (G($x), Slot::M(_, G($y))) => $e,
    (RT($x), Slot::U(U::RT($y))) => $e, (CT($x), Slot::U(U::CT($y))) => $e, (RF($x), Slot::U(U::RF($y))) => $e, (CF($x), Slot::U(U::CF($y))) => $e, (G($x), Slot::U(U::G($y))) => $e,
    _ => return Out::Na } } }
macro_rules! real_targets { ($v:expr, $w:expr, ($x:ident, $y:ident) => $e:expr) => { match ($v, $w) {
    (G($x), Slot::M(_, G($y))) => $e, _ => return Out::Na } } }
macro_rules! dots { ($v:expr, $w:expr, $o:ty, $m:ident, $tr:ident, $g:expr, $k1:ident, $k2:ident) => { match ($v, $w) {
    ($k1(x), Slot::M(_, $k1(y))) => { let r: ScalarResult<Vec<$o>> = x.$m(y); sres(r, $g) }
    ($k2(x), Slot::M(_, $k2(y))) => { let r: ScalarResult<Vec<$o>> = x.$m(y); sres(r, $g) }
    (G(x), Slot::M(_, G(y))) => { let r: ScalarResult<Vec<$o>> = <MX<Gv> as $tr<MX<Gv>, $o, T, meta::RealOrComplex, meta::TimeOrFreq>>::$m(x, y); sres(r, $g) }
    (G(x), Slot::U(U::G(y))) => { let r: ScalarResult<Sc<$o>> = <MX<Gv> as $tr<Gv, $o, T, meta::RealOrComplex, meta::TimeOrFreq>>::$m(x, y); sres(r, $g) }
    ($k1(x), Slot::U(U::$k1(y))) => { let r: ScalarResult<Sc<$o>> = x.$m(y); sres(r, $g) }
    ($k2(x), Slot::U(U::$k2(y))) => { let r: ScalarResult<Sc<$o>> = x.$m(y); sres(r, $g) }
    _ => return Out::Na } } }
pub struct W { slots: Vec<Option<Slot>>, buf: SingleBuffer<T> }
macro_rules! wb { ($self_:ident, $b:ident => $e:expr) => { { let $b = &mut $self_.buf; $e } } }
#[cfg(feature = "std")]
fn unmcs(m: &MultiCoreSettings) -> [usize; 5] { [m.core_limit, m.med_dual_core_threshold, m.med_multi_core_threshold, m.large_dual_core_threshold, m.large_multi_core_threshold] }
#[cfg(not(feature = "std"))]
fn unmcs(_: &MultiCoreSettings) -> [usize; 5] { [1, 0, 1, 0, 1] }
fn mcs(a: &[usize; 5]) -> MultiCoreSettings { MultiCoreSettings::with_thresholds(a[0], a[1], a[2], a[3], a[4]) }

fn res(r: VoidResult) -> Out { match r { Ok(()) => Out::Ok, Err(e) => Out::Err(format!("{:?}", e)) } }
fn f(x: f64) -> T { x as T }
fn n64(x: T) -> f64 { x as f64 }
fn cst(s: &Statistics<Complex<T>>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(n64(c.re)); v.push(n64(c.im)); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
fn rst(s: &Statistics<T>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(n64(*c)); v.push(0.0); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
fn cst64(s: &Statistics<Complex<f64>>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(c.re); v.push(c.im); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
fn rst64(s: &Statistics<f64>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(*c); v.push(0.0); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
/// the results of all rows, one after the other
fn sres<X, I: IntoIterator<Item = X>, F: Fn(&X) -> Vec<f64>>(r: Result<I, ErrorReason>, g: F) -> Out {
    match r { Ok(x) => Out::Num(x.into_iter().flat_map(|y| g(&y)).collect()), Err(e) => Out::Err(format!("{:?}", e)) }
}
fn nums<X, I: IntoIterator<Item = X>, F: Fn(&X) -> Vec<f64>>(r: I, g: F) -> Out { sres(Ok(r), g) }
fn pad(x: f64) -> PaddingOption { match x as i64 { 0 => PaddingOption::End, 1 => PaddingOption::Surround, _ => PaddingOption::Center } }

impl W {
    pub fn new() -> W { let mut s = vec![]; for _ in 0..160 { s.push(None); } W { slots: s, buf: SingleBuffer::new() } }

    /// operations which change a vector in place or only read it
    fn inplace(&mut self, v: &mut V, c: &Call) -> Out {
        let a = &c.a;
        let A = |i: usize| -> f64 { a[i] };
        let Q = |i: usize| -> f64 { a[i] / a[i + 1] };
        match &c.op[..] {
            "reverse" => { all!(v, x => x.reverse()); Out::Ok }
            "swap_halves" => { all!(v, x => x.swap_halves()); Out::Ok }
            "set_delta" => { all!(v, x => x.set_delta(f(A(0) / 4096.0))); Out::Ok }
            "resize" => res(all!(v, x => x.resize(A(0) as usize))),
            "diff" => { all!(v, x => x.diff()); Out::Ok }
            "diff_with_start" => { all!(v, x => x.diff_with_start()); Out::Ok }
            "cum_sum" => { all!(v, x => x.cum_sum()); Out::Ok }
            "scale" => { all!(v, x => x.scale(f(A(0)))); Out::Ok }
            "offset" => { all!(v, x => x.offset(f(A(0)))); Out::Ok }
            "scale_c" => { cplx!(v, x => x.scale(Complex::new(f(A(0)), f(A(1))))); Out::Ok }
            "offset_c" => { cplx!(v, x => x.offset(Complex::new(f(A(0)), f(A(1))))); Out::Ok }
            "sin" => { all!(v, x => x.sin()); Out::Ok }
            "cos" => { all!(v, x => x.cos()); Out::Ok }
            "tan" => { all!(v, x => x.tan()); Out::Ok }
            "asin" => { all!(v, x => x.asin()); Out::Ok }
            "acos" => { all!(v, x => x.acos()); Out::Ok }
            "atan" => { all!(v, x => x.atan()); Out::Ok }
            "sinh" => { all!(v, x => x.sinh()); Out::Ok }
            "cosh" => { all!(v, x => x.cosh()); Out::Ok }
            "tanh" => { all!(v, x => x.tanh()); Out::Ok }
            "asinh" => { all!(v, x => x.asinh()); Out::Ok }
            "acosh" => { all!(v, x => x.acosh()); Out::Ok }
            "atanh" => { all!(v, x => x.atanh()); Out::Ok }
            "sqrt" => { all!(v, x => x.sqrt()); Out::Ok }
            "square" => { all!(v, x => x.square()); Out::Ok }
            "root" => { all!(v, x => x.root(f(A(0) / A(1)))); Out::Ok }
            "powf" => { all!(v, x => x.powf(f(A(0) / A(1)))); Out::Ok }
            "ln" => { all!(v, x => x.ln()); Out::Ok }
            "exp" => { all!(v, x => x.exp()); Out::Ok }
            "log" => { all!(v, x => x.log(f(A(0) / A(1)))); Out::Ok }
            "expf" => { all!(v, x => x.expf(f(A(0) / A(1)))); Out::Ok }
            "abs" => { reals!(v, x => x.abs()); Out::Ok }
            "wrap" => { reals!(v, x => x.wrap(f(A(0)))); Out::Ok }
            "unwrap" => { reals!(v, x => ModuloOps::unwrap(x, f(A(0)))); Out::Ok }
            "conj" => { cplx!(v, x => x.conj()); Out::Ok }
            "mce" => { cplx!(v, x => x.multiply_complex_exponential(f(2.0 * std::f64::consts::PI * A(0) / A(2)), f(2.0 * std::f64::consts::PI * A(1) / A(2)))); Out::Ok }
            // x -> k*x + (i mod m) + arg
            "map" => { let (k, m) = (f(A(0)), A(1) as usize);
                reals!(v, x => x.map_inplace(f(A(2)), &|x: T, i: usize, arg: T| k * x + ((i % m) as T) + arg)); Out::Ok }
            "map_c" => { let (k, m) = (f(A(0)), A(1) as usize);
                cplx!(v, x => x.map_inplace(f(A(2)), &|x: Complex<T>, i: usize, arg: T| x * k + Complex::new((i % m) as T, arg))); Out::Ok }
            // aggregate with sum, max
            "aggr_sum" => { let m = A(1) as usize; let k = f(A(0));
                let r = reals!(v, x => x.map_aggregate(f(A(2)), &|x: T, i: usize, arg: T| k * x * ((1 + i % m) as T) + arg, &|x: T, y: T| x + y));
                sres(r, |x| vec![n64(*x)]) }
            "aggr_max" => { let m = A(1) as usize; let k = f(A(0));
                let r = reals!(v, x => x.map_aggregate(f(A(2)), &|x: T, i: usize, arg: T| k * x * ((1 + i % m) as T) + arg, &|x: T, y: T| if x > y { x } else { y }));
                sres(r, |x| vec![n64(*x)]) }
            "sum" => { let r: Sc<T> = reals!(v, x => x.sum()); nums(r, |x| vec![n64(*x)]) }
            "sum_sq" => { let r: Sc<T> = reals!(v, x => x.sum_sq()); nums(r, |x| vec![n64(*x)]) }
            "sum_prec" => { let r: Sc<f64> = reals!(v, x => x.sum_prec()); nums(r, |x| vec![*x]) }
            "sum_sq_prec" => { let r: Sc<f64> = reals!(v, x => x.sum_sq_prec()); nums(r, |x| vec![*x]) }
            "stats" => { let r: Sc<Statistics<T>> = reals!(v, x => StatisticsOps::<T>::statistics(x, )); nums(r, rst) }
            "stats_c" => { let r: Sc<Statistics<Complex<T>>> = cplx!(v, x => StatisticsOps::<Complex<T>>::statistics(x, )); nums(r, cst) }
            "stats_prec" => { let r: Sc<Statistics<f64>> = reals!(v, x => PreciseStatisticsOps::<f64>::statistics_prec(x, )); nums(r, rst64) }
            "stats_prec_c" => { let r: Sc<Statistics<Complex<f64>>> = cplx!(v, x => PreciseStatisticsOps::<Complex<f64>>::statistics_prec(x, )); nums(r, cst64) }
            "stats_split" => { let r: ScalarResult<Sc<StatsVec<Statistics<T>>>> = reals!(v, x => StatisticsSplitOps::<T>::statistics_split(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| rst(s)).collect()) }
            "stats_split_c" => { let r: ScalarResult<Sc<StatsVec<Statistics<Complex<T>>>>> = cplx!(v, x => StatisticsSplitOps::<Complex<T>>::statistics_split(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| cst(s)).collect()) }
            "stats_split_prec" => { let r: ScalarResult<Sc<StatsVec<Statistics<f64>>>> = reals!(v, x => PreciseStatisticsSplitOps::<f64>::statistics_split_prec(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| rst64(s)).collect()) }
            "stats_split_prec_c" => { let r: ScalarResult<Sc<StatsVec<Statistics<Complex<f64>>>>> = cplx!(v, x => PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| cst64(s)).collect()) }
            "apply_window" => { let w = win::<T>(a); times!(v, x => x.apply_window(w.as_ref())); Out::Ok }
            "unapply_window" => { let w = win::<T>(a); times!(v, x => x.unapply_window(w.as_ref())); Out::Ok }
            "mirror" => { wb!(self, b => cfreqs!(v, x => x.mirror(b))); Out::Ok }
            "fft_shift" => { cfreqs!(v, x => x.fft_shift()); Out::Ok }
            "ifft_shift" => { cfreqs!(v, x => x.ifft_shift()); Out::Ok }
            // a = ratio (num, den), table
            "mfr" => { let t = T::rf(&a[2..]); let t = &*t; freqs!(v, x => x.multiply_frequency_response(t, f(Q(0)))); Out::Ok }
            "mfr_c" => { let t = T::cf(&a[2..]); let t = &*t; cfreqs!(v, x => x.multiply_frequency_response(t, f(Q(0)))); Out::Ok }
            "convolve" | "convolve_c" => self.convolve_fun(v, c),
            // a = factor (num, den), delay (num, den), len, table
            "interpolatef" => { let t = T::ri(&a[5..]); let t = &*t; wb!(self, b => all!(v, x => x.interpolatef(b, t, f(Q(0)), f(Q(2)), A(4) as usize))); Out::Ok }
            "interpolatei" => { let t = T::rf(&a[1..]); let t = &*t; res(wb!(self, b => all!(v, x => x.interpolatei(b, t, A(0) as u32)))) }
            "interpolate" => { if a.len() > 4 { let t = T::rf(&a[3..]); let t = &*t; res(wb!(self, b => all!(v, x => x.interpolate(b, Some(t), A(0) as usize, f(Q(1)))))) }
                else { res(wb!(self, b => all!(v, x => x.interpolate(b, None, A(0) as usize, f(Q(1)))))) } }
            "interpft" => { wb!(self, b => all!(v, x => x.interpft(b, A(0) as usize))); Out::Ok }
            "decimatei" => { all!(v, x => x.decimatei(A(0) as u32, A(1) as u32)); Out::Ok }
            "interpolate_lin" => { wb!(self, b => reals!(v, x => x.interpolate_lin(b, f(Q(0)), f(Q(2))))); Out::Ok }
            "interpolate_hermite" => { wb!(self, b => reals!(v, x => x.interpolate_hermite(b, f(Q(0)), f(Q(2))))); Out::Ok }
            "write" => { all!(v, x => for w in x.rows_mut() { w.data_mut(..).copy_from_slice(&a.iter().map(|z| f(*z)).collect::<Vec<T>>()[..]) }); Out::Ok }
            _ => self.binary(v, c),
        }
    }

    fn binary(&mut self, v: &mut V, c: &Call) -> Out {
        macro_rules! op1 { () => { match self.slots[c.o[0]].as_ref() { Some(o) => o, None => return Out::Na } } }
        let a = &c.a;
        match &c.op[..] {
            "add" => res(same2!(v, op1!(), (x, y) => x.add(y))),
            "sub" => res(same2!(v, op1!(), (x, y) => x.sub(y))),
            "mul" => res(same2!(v, op1!(), (x, y) => x.mul(y))),
            "div" => res(same2!(v, op1!(), (x, y) => x.div(y))),
            "add_smaller" => res(same2!(v, op1!(), (x, y) => x.add_smaller(y))),
            "sub_smaller" => res(same2!(v, op1!(), (x, y) => x.sub_smaller(y))),
            "mul_smaller" => res(same2!(v, op1!(), (x, y) => x.mul_smaller(y))),
            "div_smaller" => res(same2!(v, op1!(), (x, y) => x.div_smaller(y))),
            "dot" => dots!(v, op1!(), T, dot_product, DotProductOps, |x: &T| vec![n64(*x)], RT, RF),
            "dot_prec" => dots!(v, op1!(), T, dot_product_prec, PreciseDotProductOps, |x: &T| vec![n64(*x)], RT, RF),
            "convolve_signal" => { let o = match self.slots[c.o[0]].as_ref() { Some(o) => o, None => return Out::Na }; let b = &mut self.buf;
                res(match (v, o) { (RT(x), Slot::U(U::RT(y))) => x.convolve_signal(b, y), (CT(x), Slot::U(U::CT(y))) => x.convolve_signal(b, y),
                    (G(x), Slot::U(U::G(y))) => x.convolve_signal(b, y), _ => return Out::Na }) }
            // o = the responses, row by row
            "convolve_mat" => {
                macro_rules! cm { ($x:ident, $k:ident) => { {
                    let mut refs = vec![]; for o in c.o.iter() { match self.slots[*o].as_ref() { Some(Slot::U(U::$k(y))) => refs.push(y), _ => return Out::Na } }
                    let n = c.a[0] as usize;
                    let rs: Vec<Vec<_>> = if n == 0 { vec![] } else { refs.chunks(n).map(|x| x.to_vec()).collect() };
                    responses!(rs, y => $x.convolve_signal(&mut self.buf, &y)) } } }
                res(match v { RT(x) => cm!(x, RT), CT(x) => cm!(x, CT), G(x) => cm!(x, G), _ => return Out::Na }) }
            "correlate" => { let o = match self.slots[c.o[0]].as_ref() { Some(o) => o, None => return Out::Na }; let b = &mut self.buf;
                res(match (v, o) { (G(x), Slot::M(_, G(y))) => x.correlate(b, y), _ => return Out::Na }) }
            "set_real_imag" | "set_mag_phase" => match (self.slots[c.o[0]].as_ref(), self.slots[c.o[1]].as_ref()) {
                (Some(Slot::M(_, p)), Some(Slot::M(_, q))) => {
                    macro_rules! sp { ($x:ident, $y:ident, $z:ident) => { res(if c.op == "set_real_imag" { $x.set_real_imag($y, $z) } else { $x.set_mag_phase($y, $z) }) } }
                    match (v, p, q) { (G(x), G(y), G(z)) => sp!(x, y, z), _ => Out::Na }
                }
                _ => Out::Na },
            "get_real" | "get_imag" | "get_magnitude" | "get_magnitude_squared" | "get_phase" => {
                let mut d = match self.slots[c.o[0]].take() { Some(d) => d, None => return Out::Na };
                let r = Self::getter(v, &mut d, &c.op);
                self.slots[c.o[0]] = Some(d);
                r
            }
            "get_real_imag" | "get_mag_phase" => {
                let mut d = match self.slots[c.o[0]].take() { Some(d) => d, None => return Out::Na };
                let mut e = match self.slots[c.o[1]].take() { Some(d) => d, None => return Out::Na };
                let r = Self::getter2(v, &mut d, &mut e, &c.op);
                self.slots[c.o[0]] = Some(d);
                self.slots[c.o[1]] = Some(e);
                r
            }
            _ => Out::Na,
        }
    }
    fn getter(v: &mut V, d: &mut Slot, op: &str) -> Out {
        macro_rules! g { ($m:ident) => { { real_targets!(v, d, (x, y) => x.$m(y)); Out::Ok } } }
        match op { "get_real" => g!(get_real), "get_imag" => g!(get_imag), "get_magnitude" => g!(get_magnitude),
            "get_magnitude_squared" => g!(get_magnitude_squared), _ => g!(get_phase) }
    }
    fn getter2(v: &mut V, d: &mut Slot, e: &mut Slot, op: &str) -> Out {
        let (d, e) = match (d, e) { (Slot::M(_, d), Slot::M(_, e)) => (d, e), _ => return Out::Na };
        match (v, d, e) {
            (G(x), G(y), G(z)) => if op == "get_real_imag" { x.get_real_imag(y, z) } else { x.get_mag_phase(y, z) },
            _ => return Out::Na,
        }
        Out::Ok
    }
    fn convolve_fun(&mut self, v: &mut V, c: &Call) -> Out {
        let a = &c.a;
        let r = f(a[0] / a[1]); let n = a[2] as usize;
        let b = &mut self.buf;
        if c.op == "convolve" {
            let t = T::ri(&a[3..]); let t = &*t;
            match v { RT(x) => x.convolve(b, t, r, n), CT(x) => x.convolve(b, t, r, n), G(x) => x.convolve(b, t, r, n), _ => return Out::Na }
        } else {
            let t = T::ci(&a[3..]); let t = &*t;
            match v { CT(x) => x.convolve(b, t, r, n), G(x) => x.convolve(b, t, r, n), _ => return Out::Na }
        }
        Out::Ok
    }
    /// operations which consume the vector
    fn consuming(&mut self, v: V, c: &Call) -> (V, Out) {
        let a = &c.a;
        macro_rules! tr { ($e:expr, $k:ident) => { match $e { Ok(x) => ($k(x), Out::Ok), Err((e, x)) => ($k(x), Out::Err(format!("{:?}", e))) } } }
        macro_rules! t2f { ($b:ident, $x:ident => $e:expr) => { match v { RT($x) => (CF($e), Out::Ok), CT($x) => (CF($e), Out::Ok), G($x) => (G($e), Out::Ok), o => (o, Out::Na) } } }
        macro_rules! f2t { ($b:ident, $x:ident => $e:expr) => { match v { CF($x) => (CT($e), Out::Ok), G($x) => (G($e), Out::Ok), o => (o, Out::Na) } } }
        match &c.op[..] {
            "magnitude" => (to_reals!(v, x => x.magnitude()), Out::Ok),
            "magnitude_squared" => (to_reals!(v, x => x.magnitude_squared()), Out::Ok),
            "to_real" => (to_reals!(v, x => x.to_real()), Out::Ok),
            "to_imag" => (to_reals!(v, x => x.to_imag()), Out::Ok),
            "phase" => (to_reals!(v, x => x.phase()), Out::Ok),
            "magnitude_b" => wb!(self, b => (to_reals!(v, x => x.magnitude_b(b)), Out::Ok)),
            "magnitude_squared_b" => wb!(self, b => (to_reals!(v, x => x.magnitude_squared_b(b)), Out::Ok)),
            "to_real_b" => wb!(self, b => (to_reals!(v, x => x.to_real_b(b)), Out::Ok)),
            "to_imag_b" => wb!(self, b => (to_reals!(v, x => x.to_imag_b(b)), Out::Ok)),
            "phase_b" => wb!(self, b => (to_reals!(v, x => x.phase_b(b)), Out::Ok)),
            "to_complex" => match v { RT(x) => tr!(x.to_complex(), CT), RF(x) => tr!(x.to_complex(), CF), G(x) => tr!(x.to_complex(), G), o => (o, Out::Na) },
            "to_complex_b" => wb!(self, b => match v { RT(x) => (CT(x.to_complex_b(b)), Out::Ok), RF(x) => (CF(x.to_complex_b(b)), Out::Ok), G(x) => (G(x.to_complex_b(b)), Out::Ok), o => (o, Out::Na) }),
            "plain_fft" => wb!(self, b => t2f!(b, x => x.plain_fft(b))),
            "fft" => wb!(self, b => t2f!(b, x => x.fft(b))),
            "windowed_fft" => { let w = win::<T>(a); wb!(self, b => t2f!(b, x => x.windowed_fft(b, w.as_ref()))) }
            "plain_ifft" => wb!(self, b => f2t!(b, x => x.plain_ifft(b))),
            "ifft" => wb!(self, b => f2t!(b, x => x.ifft(b))),
            "windowed_ifft" => { let w = win::<T>(a); wb!(self, b => f2t!(b, x => x.windowed_ifft(b, w.as_ref()))) }
            "plain_sfft" => wb!(self, b => match v { RT(x) => tr!(x.plain_sfft(b), CF), G(x) => tr!(x.plain_sfft(b), G), o => (o, Out::Na) }),
            "sfft" => wb!(self, b => match v { RT(x) => tr!(x.sfft(b), CF), G(x) => tr!(x.sfft(b), G), o => (o, Out::Na) }),
            "windowed_sfft" => { let w = win::<T>(a); wb!(self, b => match v { RT(x) => tr!(x.windowed_sfft(b, w.as_ref()), CF), G(x) => tr!(x.windowed_sfft(b, w.as_ref()), G), o => (o, Out::Na) }) }
            "plain_sifft" => wb!(self, b => match v { CF(x) => tr!(x.plain_sifft(b), RT), G(x) => tr!(x.plain_sifft(b), G), o => (o, Out::Na) }),
            "sifft" => wb!(self, b => match v { CF(x) => tr!(x.sifft(b), RT), G(x) => tr!(x.sifft(b), G), o => (o, Out::Na) }),
            "windowed_sifft" => { let w = win::<T>(a); wb!(self, b => match v { CF(x) => tr!(x.windowed_sifft(b, w.as_ref()), RT), G(x) => tr!(x.windowed_sifft(b, w.as_ref()), G), o => (o, Out::Na) }) }
            "prepare_argument" => wb!(self, b => match v { CT(x) => (CF(x.prepare_argument(b)), Out::Ok), G(x) => (G(x.prepare_argument(b)), Out::Ok), o => (o, Out::Na) }),
            "prepare_argument_padded" => wb!(self, b => match v { CT(x) => (CF(x.prepare_argument_padded(b)), Out::Ok), G(x) => (G(x.prepare_argument_padded(b)), Out::Ok), o => (o, Out::Na) }),
            // conversions between the static types and the generic type
            "to_gen" => match v { RT(x) => (G(MX::<Gv>::rededicate_from_force(x)), Out::Ok), CT(x) => (G(MX::<Gv>::rededicate_from_force(x)), Out::Ok), RF(x) => (G(MX::<Gv>::rededicate_from_force(x)), Out::Ok), CF(x) => (G(MX::<Gv>::rededicate_from_force(x)), Out::Ok), o => (o, Out::Na) },
            "to_rt_force" => (all!(v, x => RT(MX::<RTv>::rededicate_from_force(x))), Out::Ok),
            "to_ct_force" => (all!(v, x => CT(MX::<CTv>::rededicate_from_force(x))), Out::Ok),
            "to_rf_force" => (all!(v, x => RF(MX::<RFv>::rededicate_from_force(x))), Out::Ok),
            "to_cf_force" => (all!(v, x => CF(MX::<CFv>::rededicate_from_force(x))), Out::Ok),
            "runtime" => match v { G(x) => (G(MX::<Gv>::rededicate_with_runtime_data(x, a[0] != 0.0, if a[1] != 0.0 { DataDomain::Frequency } else { DataDomain::Time })), Out::Ok), o => (o, Out::Na) },
            _ => { let mut v = v; let o = self.inplace(&mut v, c); (v, o) }
        }
    }
}


impl W {
    /// vectors t .. t + n - 1 become a matrix; how = 0: of vectors, 1 ..: of their plain data
    fn build(&mut self, c: &Call) -> Out {
        let (n, how, cx, fr) = (c.a[0] as usize, c.a[1] as usize, c.a[2] != 0.0, c.a[3] != 0.0);
        if !fits(n) { return Out::Na; }
        for k in 0..n { match self.slots[c.t + k] { Some(Slot::U(_)) => {} _ => return Out::Na } }
        let us: Vec<U> = (0..n).map(|k| match self.slots[c.t + k].take() { Some(Slot::U(u)) => u, _ => unreachable!() }).collect();
        let m = if how == 0 {
            macro_rules! mk { ($k:ident) => { { let mut l = vec![]; for u in us { match u { U::$k(x) => l.push(x), _ => return Out::Na } } $k(rows(l).to_mat()) } } }
            match us.get(0) { Some(U::RT(_)) => mk!(RT), Some(U::CT(_)) => mk!(CT), Some(U::RF(_)) => mk!(RF), Some(U::CF(_)) => mk!(CF), _ => mk!(G) }
        } else {
            let d: Vec<S> = us.into_iter().map(|u| uall!(u, x => { let n = x.len(); let mut d = x.data; d.truncate(n); d })).collect();
            let dom = if fr { DataDomain::Frequency } else { DataDomain::Time };
            match how { 1 => G(rows(d).to_gen_dsp_mat(cx, dom)), 2 => RT(rows(d).to_real_time_mat()), 3 => RF(rows(d).to_real_freq_mat()),
                _ => CT(rows(d).to_complex_time_mat()) }
        };
        self.slots[c.t] = Some(Slot::M(n, m));
        Out::Ok
    }
    /// the rows become vectors again
    fn dissolve(&mut self, c: &Call) -> Out {
        let m = match self.slots[c.t].take() { Some(Slot::M(_, m)) => m, o => { self.slots[c.t] = o; return Out::Na } };
        let l;
        macro_rules! back { ($x:ident, $k:ident) => { { let (r, n) = $x.get(); l = n; for (k, v) in list(r).into_iter().enumerate() { self.slots[c.t + k] = Some(Slot::U(U::$k(v))); } } } }
        match m { RT(x) => back!(x, RT), CT(x) => back!(x, CT), RF(x) => back!(x, RF), CF(x) => back!(x, CF), G(x) => back!(x, G) }
        Out::Num(vec![l as f64])
    }
}
impl World for W {
    fn name(&self) -> &'static str { NAME }
    fn is32(&self) -> bool { IS32 }
    fn storage(&self) -> &'static str { "vec" }
    fn grows(&self) -> &'static str { "yes" }
    fn init(&mut self, slot: usize, i: &Init) {
        let mut st: Vec<T> = i.data.iter().map(|x| *x as T).collect();
        for k in 0..i.slack { st.push((777.0 + k as f64) as T); }
        let n = i.data.len();
        let dom = if i.fr { DataDomain::Frequency } else { DataDomain::Time };
        let mut v = match i.ty {
            Ty::RT => U::RT(st.to_real_time_vec()), Ty::CT => U::CT(st.to_complex_time_vec()),
            Ty::RF => U::RF(st.to_real_freq_vec()), Ty::CF => U::CF(st.to_complex_freq_vec()),
            Ty::G => U::G(st.to_gen_dsp_vec(i.cx, dom)),
        };
        uall!(&mut v, x => { let _ = x.resize(n); x.set_delta(f(i.delta)); x.set_multicore_settings(mcs(&i.mc)); });
        self.slots[slot] = Some(Slot::U(v));
    }
    fn call(&mut self, c: &Call) -> Out {
        let mut d = c.clone();
        d.op = c.op.trim_start_matches("m.").to_string();
        let t = c.t;
        let v = if d.op == "build" || d.op == "dissolve" { None } else { match self.slots[t].take() { Some(Slot::M(n, m)) => Some((n, m)), o => { self.slots[t] = o; return Out::Na } } };
        let r = { let me = &mut *self; let d = &d; catch_unwind(AssertUnwindSafe(move || match v {
            None => if d.op == "build" { (None, me.build(d)) } else { (None, me.dissolve(d)) },
            Some((n, m)) => { let (m, o) = me.consuming(m, d); (Some((n, m)), o) } })) };
        match r {
            Ok((v, o)) => { if let Some((n, m)) = v { self.slots[t] = Some(Slot::M(n, m)); } o }
            Err(e) => Out::Panic(match e.downcast_ref::<String>() { Some(s) => s.clone(), None => match e.downcast_ref::<&str>() { Some(s) => s.to_string(), None => "?".into() } }),
        }
    }
    fn clear(&mut self) { for x in self.slots.iter_mut() { *x = None; } }
    fn snap(&self, slot: usize) -> Option<Snap> {
        macro_rules! sn { ($ty:expr, $x:expr, $er:expr) => { { let x = $x; let m = x.get_multicore_settings();
            Some(Snap { empty: x.is_empty(), ty: $ty, cx: x.is_complex(), fr: x.domain() == DataDomain::Frequency, len: x.len(), pts: x.points(), alloc: x.alloc_len(),
                delta: n64(x.delta()), err: $er, data: if x.len() <= x.alloc_len() { x.data(..).iter().map(|y| n64(*y)).collect() } else { vec![] }, mc: unmcs(&m) }) } } }
        for k in (0..=slot).rev() {
            match &self.slots[k] {
                Some(Slot::U(u)) if k == slot => return match u { U::RT(x) => sn!(Ty::RT, x, false), U::CT(x) => sn!(Ty::CT, x, false), U::RF(x) => sn!(Ty::RF, x, false), U::CF(x) => sn!(Ty::CF, x, false),
                    U::G(x) => sn!(Ty::G, x, x.is_erroneous()) },
                Some(Slot::M(n, m)) if slot < k + n => { let i = slot - k;
                    return match m { RT(x) => sn!(Ty::RT, x.rows().get(i)?, false), CT(x) => sn!(Ty::CT, x.rows().get(i)?, false), RF(x) => sn!(Ty::RF, x.rows().get(i)?, false),
                        CF(x) => sn!(Ty::CF, x.rows().get(i)?, false), G(x) => sn!(Ty::G, x.rows().get(i)?, x.rows()[i].is_erroneous()) } }
                Some(_) => return None,
                None => {}
            }
        }
        None
    }
    fn set_buf(&mut self, _kind: Buf, dirty: usize) {
        self.buf = SingleBuffer::new();
        let mut w = self.buf.borrow(dirty); for x in w.to_slice_mut() { *x = 5555.0; }
    }
    fn whole(&self, _slot: usize) -> Vec<f64> { vec![] }
    fn rows(&self, slot: usize) -> usize { match &self.slots[slot] { Some(Slot::M(n, _)) => *n, _ => 0 } }
    fn summary(&self, slot: usize) -> Vec<f64> {
        match &self.slots[slot] { Some(Slot::M(_, m)) => all!(m, x => vec![x.col_len() as f64, x.row_len() as f64, x.row_points() as f64, n64(x.delta()) * 4096.0,
            x.is_complex() as usize as f64, (x.domain() == DataDomain::Frequency) as usize as f64]), _ => vec![] }
    }
}
