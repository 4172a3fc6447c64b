// Included once per storage type and number type (see worlds.rs): executes calls on the real library.
use crate::core::*;
use crate::funcs::*;
use basic_dsp_vector::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::meta;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub enum V {
    RT(RealTimeVec<S, T>), CT(ComplexTimeVec<S, T>), RF(RealFreqVec<S, T>), CF(ComplexFreqVec<S, T>), G(GenDspVec<S, T>),
}
use self::V::*;
type GOp = GenDspVec<S, T>;

macro_rules! all { ($v:expr, $x:ident => $e:expr) => { match $v { RT($x) => $e, CT($x) => $e, RF($x) => $e, CF($x) => $e, G($x) => $e } } }
macro_rules! reals { ($v:expr, $x:ident => $e:expr) => { match $v { RT($x) => $e, RF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! cplx { ($v:expr, $x:ident => $e:expr) => { match $v { CT($x) => $e, CF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! times { ($v:expr, $x:ident => $e:expr) => { match $v { RT($x) => $e, CT($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! ctimes { ($v:expr, $x:ident => $e:expr) => { match $v { CT($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! freqs { ($v:expr, $x:ident => $e:expr) => { match $v { RF($x) => $e, CF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! cfreqs { ($v:expr, $x:ident => $e:expr) => { match $v { CF($x) => $e, G($x) => $e, _ => return Out::Na } } }
macro_rules! to_reals { ($v:expr, $x:ident => $e:expr) => { match $v { CT($x) => RT($e), CF($x) => RF($e), G($x) => G($e), other => { return (other, Out::Na) } } } }
/// both operands have the same type
macro_rules! same2 { ($v:expr, $w:expr, ($x:ident, $y:ident) => $e:expr) => { match ($v, $w) {
    (RT($x), RT($y)) => $e, (CT($x), CT($y)) => $e, (RF($x), RF($y)) => $e, (CF($x), CF($y)) => $e, (G($x), G($y)) => $e, _ => return Out::Na } } }
macro_rules! cplx2 { ($v:expr, $w:expr, ($x:ident, $y:ident) => $e:expr) => { match ($v, $w) {
    (CT($x), CT($y)) => $e, (CF($x), CF($y)) => $e, (G($x), G($y)) => $e, _ => return Out::Na } } }
macro_rules! same2_mixed { ($v:expr, $w:expr, ($x:ident, $y:ident) => $e:expr) => { match ($v, $w) {
    (RT($x), RT($y)) => $e, (CT($x), CT($y)) => $e, (RF($x), RF($y)) => $e, (CF($x), CF($y)) => $e, (G($x), G($y)) => $e,
    (G($x), CT($y)) => $e, (CT($x), G($y)) => $e, (G($x), RT($y)) => $e, (RT($x), G($y)) => $e,
    _ => return Out::Na } } }
macro_rules! real_targets { ($v:expr, $w:expr, ($x:ident, $y:ident) => $e:expr) => { match ($v, $w) {
    (CT($x), RT($y)) => $e, (CF($x), RF($y)) => $e, (G($x), G($y)) => $e, _ => return Out::Na } } }

enum B { Single(SB), Fixed(FixedLenBuffer<S, T>), No }

pub struct W { slots: Vec<Option<V>>, buf: B }
macro_rules! wb { ($self_:ident, $b:ident => $e:expr) => { match &mut $self_.buf {
    B::Single($b) => $e,
    B::Fixed($b) => $e,
    B::No => { let mut nb = no_buffer(); let $b = &mut nb; $e },
} } }

#[cfg(feature = "std")]
fn unmcs(m: &MultiCoreSettings) -> [usize; 5] { [m.core_limit, m.med_dual_core_threshold, m.med_multi_core_threshold, m.large_dual_core_threshold, m.large_multi_core_threshold] }
#[cfg(not(feature = "std"))]
fn unmcs(_: &MultiCoreSettings) -> [usize; 5] { [1, 0, 1, 0, 1] }
fn mcs(a: &[usize; 5]) -> MultiCoreSettings { MultiCoreSettings::with_thresholds(a[0], a[1], a[2], a[3], a[4]) }

fn res(r: VoidResult) -> Out { match r { Ok(()) => Out::Ok, Err(e) => Out::Err(format!("{:?}", e)) } }
fn f(x: f64) -> T { x as T }
fn n64(x: T) -> f64 { x as f64 }
fn cst(s: &Statistics<Complex<T>>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(n64(c.re)); v.push(n64(c.im)); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
fn rst(s: &Statistics<T>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(n64(*c)); v.push(0.0); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
fn cst64(s: &Statistics<Complex<f64>>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(c.re); v.push(c.im); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
fn rst64(s: &Statistics<f64>) -> Vec<f64> {
    let mut v = vec![];
    for c in [s.sum, s.average, s.rms, s.min, s.max].iter() { v.push(*c); v.push(0.0); }
    v.push(s.count as f64); v.push(s.min_index as f64); v.push(s.max_index as f64); v
}
fn sres<X, F: Fn(X) -> Vec<f64>>(r: Result<X, ErrorReason>, g: F) -> Out {
    match r { Ok(x) => Out::Num(g(x)), Err(e) => Out::Err(format!("{:?}", e)) }
}
fn pad(x: f64) -> PaddingOption { match x as i64 { 0 => PaddingOption::End, 1 => PaddingOption::Surround, _ => PaddingOption::Center } }

impl W {
    pub fn new() -> W { let mut s = vec![]; for _ in 0..40 { s.push(None); } W { slots: s, buf: B::Fixed(FixedLenBuffer::new(mkst(vec![0.0; 4096], 0))) } }

    /// operations which change a vector in place or only read it
    fn inplace(&mut self, v: &mut V, c: &Call) -> Out {
        let a = &c.a;
        let A = |i: usize| -> f64 { a[i] };
        let Q = |i: usize| -> f64 { a[i] / a[i + 1] };
        match &c.op[..] {
            "reverse" => { all!(v, x => x.reverse()); Out::Ok }
            "swap_halves" => { all!(v, x => x.swap_halves()); Out::Ok }
            "set_delta" => { all!(v, x => x.set_delta(f(A(0) / 4096.0))); Out::Ok }
            "resize" => res(all!(v, x => x.resize(A(0) as usize))),
            "resize_b" => res(wb!(self, b => all!(v, x => x.resize_b(b, A(0) as usize)))),
            "zero_pad" => res(all!(v, x => x.zero_pad(A(0) as usize, pad(A(1))))),
            "zero_pad_b" => res(wb!(self, b => all!(v, x => x.zero_pad_b(b, A(0) as usize, pad(A(1)))))),
            "zero_interleave" => res(all!(v, x => x.zero_interleave(A(0) as u32))),
            "zero_interleave_b" => { wb!(self, b => all!(v, x => x.zero_interleave_b(b, A(0) as u32))); Out::Ok }
            "diff" => { all!(v, x => x.diff()); Out::Ok }
            "diff_with_start" => { all!(v, x => x.diff_with_start()); Out::Ok }
            "cum_sum" => { all!(v, x => x.cum_sum()); Out::Ok }
            "scale" => { all!(v, x => x.scale(f(A(0)))); Out::Ok }
            "offset" => { all!(v, x => x.offset(f(A(0)))); Out::Ok }
            "scale_c" => { cplx!(v, x => x.scale(Complex::new(f(A(0)), f(A(1))))); Out::Ok }
            "offset_c" => { cplx!(v, x => x.offset(Complex::new(f(A(0)), f(A(1))))); Out::Ok }
            "sin" => { all!(v, x => x.sin()); Out::Ok }
            "cos" => { all!(v, x => x.cos()); Out::Ok }
            "tan" => { all!(v, x => x.tan()); Out::Ok }
            "asin" => { all!(v, x => x.asin()); Out::Ok }
            "acos" => { all!(v, x => x.acos()); Out::Ok }
            "atan" => { all!(v, x => x.atan()); Out::Ok }
            "sinh" => { all!(v, x => x.sinh()); Out::Ok }
            "cosh" => { all!(v, x => x.cosh()); Out::Ok }
            "tanh" => { all!(v, x => x.tanh()); Out::Ok }
            "asinh" => { all!(v, x => x.asinh()); Out::Ok }
            "acosh" => { all!(v, x => x.acosh()); Out::Ok }
            "atanh" => { all!(v, x => x.atanh()); Out::Ok }
            "sqrt" => { all!(v, x => x.sqrt()); Out::Ok }
            "square" => { all!(v, x => x.square()); Out::Ok }
            "root" => { all!(v, x => x.root(f(A(0) / A(1)))); Out::Ok }
            "powf" => { all!(v, x => x.powf(f(A(0) / A(1)))); Out::Ok }
            "ln" => { all!(v, x => x.ln()); Out::Ok }
            "exp" => { all!(v, x => x.exp()); Out::Ok }
            "log" => { all!(v, x => x.log(f(A(0) / A(1)))); Out::Ok }
            "expf" => { all!(v, x => x.expf(f(A(0) / A(1)))); Out::Ok }
            "abs" => {
                // also at the ends of the range of the numbers
                let e = a.get(0).map(|x| *x as i32).unwrap_or(0) * (if std::mem::size_of::<T>() == 4 { 100 } else { 600 });
                if e != 0 { all!(v, x => { for y in x.data_mut(..) { *y = *y * f((2.0f64).powi(e)); } }); }
                reals!(v, x => x.abs());
                if e != 0 { all!(v, x => { for y in x.data_mut(..) { *y = *y * f((2.0f64).powi(-e)); } }); }
                Out::Ok
            }
            "wrap" => { reals!(v, x => x.wrap(f(A(0)))); Out::Ok }
            "unwrap" => { reals!(v, x => ModuloOps::unwrap(x, f(A(0)))); Out::Ok }
            "ln_approx" => { reals!(v, x => x.ln_approx()); Out::Ok }
            "exp_approx" => { reals!(v, x => x.exp_approx()); Out::Ok }
            "sin_approx" => { reals!(v, x => x.sin_approx()); Out::Ok }
            "cos_approx" => { reals!(v, x => x.cos_approx()); Out::Ok }
            "log_approx" => { reals!(v, x => x.log_approx(f(A(0) / A(1)))); Out::Ok }
            "expf_approx" => { reals!(v, x => x.expf_approx(f(A(0) / A(1)))); Out::Ok }
            "powf_approx" => { reals!(v, x => x.powf_approx(f(A(0) / A(1)))); Out::Ok }
            "conj" => { cplx!(v, x => x.conj()); Out::Ok }
            "mce" => { cplx!(v, x => x.multiply_complex_exponential(f(2.0 * std::f64::consts::PI * A(0) / A(2)), f(2.0 * std::f64::consts::PI * A(1) / A(2)))); Out::Ok }
            // x -> k*x + (i mod m) + arg
            "map" => { let (k, m) = (f(A(0)), A(1) as usize);
                reals!(v, x => x.map_inplace(f(A(2)), &|x: T, i: usize, arg: T| k * x + ((i % m) as T) + arg)); Out::Ok }
            "map_c" => { let (k, m) = (f(A(0)), A(1) as usize);
                cplx!(v, x => x.map_inplace(f(A(2)), &|x: Complex<T>, i: usize, arg: T| x * k + Complex::new((i % m) as T, arg))); Out::Ok }
            // aggregate with sum, max
            "aggr_sum" => { let m = A(1) as usize; let k = f(A(0));
                let r = reals!(v, x => x.map_aggregate(f(A(2)), &|x: T, i: usize, arg: T| k * x * ((1 + i % m) as T) + arg, &|x: T, y: T| x + y));
                sres(r, |x| vec![n64(x)]) }
            "aggr_max" => { let m = A(1) as usize; let k = f(A(0));
                let r = reals!(v, x => x.map_aggregate(f(A(2)), &|x: T, i: usize, arg: T| k * x * ((1 + i % m) as T) + arg, &|x: T, y: T| if x > y { x } else { y }));
                sres(r, |x| vec![n64(x)]) }
            "aggr_sum_c" => { let m = A(1) as usize; let k = f(A(0));
                let r = cplx!(v, x => x.map_aggregate(f(A(2)), &|x: Complex<T>, i: usize, arg: T| x * (k * ((1 + i % m) as T)) + arg, &|x: Complex<T>, y: Complex<T>| x + y));
                sres(r, |x| vec![n64(x.re), n64(x.im)]) }
            "sum" => { let r: T = reals!(v, x => x.sum()); Out::Num(vec![n64(r)]) }
            "sum_sq" => { let r: T = reals!(v, x => x.sum_sq()); Out::Num(vec![n64(r)]) }
            "sum_c" => { let r: Complex<T> = cplx!(v, x => x.sum()); Out::Num(vec![n64(r.re), n64(r.im)]) }
            "sum_sq_c" => { let r: Complex<T> = cplx!(v, x => x.sum_sq()); Out::Num(vec![n64(r.re), n64(r.im)]) }
            "sum_prec" => { let r: f64 = reals!(v, x => x.sum_prec()); Out::Num(vec![r]) }
            "sum_sq_prec" => { let r: f64 = reals!(v, x => x.sum_sq_prec()); Out::Num(vec![r]) }
            "sum_prec_c" => { let r: Complex<f64> = cplx!(v, x => x.sum_prec()); Out::Num(vec![r.re, r.im]) }
            "sum_sq_prec_c" => { let r: Complex<f64> = cplx!(v, x => x.sum_sq_prec()); Out::Num(vec![r.re, r.im]) }
            "stats" => { let r: Statistics<T> = reals!(v, x => StatisticsOps::<T>::statistics(x, )); Out::Num(rst(&r)) }
            "stats_c" => { let r: Statistics<Complex<T>> = cplx!(v, x => StatisticsOps::<Complex<T>>::statistics(x, )); Out::Num(cst(&r)) }
            "stats_prec" => { let r: Statistics<f64> = reals!(v, x => PreciseStatisticsOps::<f64>::statistics_prec(x, )); Out::Num(rst64(&r)) }
            "stats_prec_c" => { let r: Statistics<Complex<f64>> = cplx!(v, x => PreciseStatisticsOps::<Complex<f64>>::statistics_prec(x, )); Out::Num(cst64(&r)) }
            "stats_split" => { let r: ScalarResult<StatsVec<Statistics<T>>> = reals!(v, x => StatisticsSplitOps::<T>::statistics_split(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| rst(s)).collect()) }
            "stats_split_c" => { let r: ScalarResult<StatsVec<Statistics<Complex<T>>>> = cplx!(v, x => StatisticsSplitOps::<Complex<T>>::statistics_split(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| cst(s)).collect()) }
            "stats_split_prec" => { let r: ScalarResult<StatsVec<Statistics<f64>>> = reals!(v, x => PreciseStatisticsSplitOps::<f64>::statistics_split_prec(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| rst64(s)).collect()) }
            "stats_split_prec_c" => { let r: ScalarResult<StatsVec<Statistics<Complex<f64>>>> = cplx!(v, x => PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(x, A(0) as usize));
                sres(r, |x| x.iter().flat_map(|s| cst64(s)).collect()) }
            // the first element is replaced by a value which leaves no room for the others; it is subtracted from the results
            "prec_big" | "prec_big_c" => {
                let big = 9007199254740992.0f64;
                all!(v, x => if x.len() > 0 { x.data_mut(..)[0] = f(big); });
                let mut r = match (&c.op[..], A(0) as i64) {
                    ("prec_big", 0) => { let r: f64 = reals!(v, x => x.sum_prec()); vec![r, 0.0] }
                    ("prec_big", 1) => { let r: Statistics<f64> = reals!(v, x => PreciseStatisticsOps::<f64>::statistics_prec(x, )); vec![r.sum, 0.0] }
                    ("prec_big", _) => { let r: ScalarResult<StatsVec<Statistics<f64>>> = reals!(v, x => PreciseStatisticsSplitOps::<f64>::statistics_split_prec(x, A(1) as usize));
                        match r { Ok(r) => r.iter().flat_map(|s| vec![s.sum, 0.0]).collect(), Err(_) => vec![] } }
                    (_, 0) => { let r: Complex<f64> = cplx!(v, x => x.sum_prec()); vec![r.re, r.im] }
                    (_, 1) => { let r: Statistics<Complex<f64>> = cplx!(v, x => PreciseStatisticsOps::<Complex<f64>>::statistics_prec(x, )); vec![r.sum.re, r.sum.im] }
                    _ => { let r: ScalarResult<StatsVec<Statistics<Complex<f64>>>> = cplx!(v, x => PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(x, A(1) as usize));
                        match r { Ok(r) => r.iter().flat_map(|s| vec![s.sum.re, s.sum.im]).collect(), Err(_) => vec![] } }
                };
                if r.len() > 0 { r[0] -= big; }
                all!(v, x => if x.len() > 0 { x.data_mut(..)[0] = f(0.0); });
                Out::Num(r) }
            // copies of the vector behind an element whose square leaves no room for the other squares
            #[cfg(feature = "std")]
            "prec_wide" | "prec_wide_c" => {
                let big = if IS32 { 32768.0f64 } else { 536870912.0f64 };
                let cx = c.op.ends_with("_c");
                let mut d = vec![f(big)]; if cx { d.push(f(0.0)); }
                let once: Vec<T> = all!(v, x => x.data(..).to_vec());
                for _ in 0..A(1) as usize { d.extend_from_slice(&once); }
                let n = (d.len() / if cx { 2 } else { 1 }) as f64;
                let mut r = if cx {
                    let x = d.clone().to_complex_time_vec();
                    match A(0) as i64 {
                        1 => { let r: Complex<f64> = x.sum_sq_prec(); vec![r.re, r.im] }
                        2 => { let r: Statistics<Complex<f64>> = PreciseStatisticsOps::<Complex<f64>>::statistics_prec(&x, ); let r = r.rms * r.rms * n; vec![r.re, r.im] }
                        _ => { let y = d.to_complex_time_vec(); match x.dot_product_prec(&y) { Ok(r) => vec![n64(r.re), n64(r.im)], Err(_) => vec![] } }
                    }
                } else {
                    let x = d.clone().to_real_time_vec();
                    match A(0) as i64 {
                        1 => { let r: f64 = x.sum_sq_prec(); vec![r] }
                        2 => { let r: Statistics<f64> = PreciseStatisticsOps::<f64>::statistics_prec(&x, ); vec![r.rms * r.rms * n] }
                        _ => { let y = d.to_real_time_vec(); match x.dot_product_prec(&y) { Ok(r) => vec![n64(r)], Err(_) => vec![] } }
                    }
                };
                if r.len() > 0 { r[0] -= big * big; }
                Out::Num(r) }
            "apply_window" => { let w = win::<T>(a); times!(v, x => x.apply_window(w.as_ref())); Out::Ok }
            "unapply_window" => { let w = win::<T>(a); times!(v, x => x.unapply_window(w.as_ref())); Out::Ok }
            "mirror" => { wb!(self, b => cfreqs!(v, x => x.mirror(b))); Out::Ok }
            "fft_shift" => { cfreqs!(v, x => x.fft_shift()); Out::Ok }
            "ifft_shift" => { cfreqs!(v, x => x.ifft_shift()); Out::Ok }
            // a = ratio (num, den), table
            "mfr" => { let t = T::rf(&a[2..]); let t = &*t; freqs!(v, x => x.multiply_frequency_response(t, f(Q(0)))); Out::Ok }
            "mfr_c" => { let t = T::cf(&a[2..]); let t = &*t; cfreqs!(v, x => x.multiply_frequency_response(t, f(Q(0)))); Out::Ok }
            "convolve" | "convolve_c" => self.convolve_fun(v, c),
            // a = factor (num, den), delay (num, den), len, table
            "interpolatef" => { let t = T::ri(&a[5..]); let t = &*t; wb!(self, b => all!(v, x => x.interpolatef(b, t, f(Q(0)), f(Q(2)), A(4) as usize))); Out::Ok }
            "interpolatei" => { let t = T::rf(&a[1..]); let t = &*t; res(wb!(self, b => all!(v, x => x.interpolatei(b, t, A(0) as u32)))) }
            "interpolate" => { if a.len() > 4 { let t = T::rf(&a[3..]); let t = &*t; res(wb!(self, b => all!(v, x => x.interpolate(b, Some(t), A(0) as usize, f(Q(1)))))) }
                else { res(wb!(self, b => all!(v, x => x.interpolate(b, None, A(0) as usize, f(Q(1)))))) } }
            "interpft" => { wb!(self, b => all!(v, x => x.interpft(b, A(0) as usize))); Out::Ok }
            "decimatei" => { all!(v, x => x.decimatei(A(0) as u32, A(1) as u32)); Out::Ok }
            "interpolate_lin" => { wb!(self, b => reals!(v, x => x.interpolate_lin(b, f(Q(0)), f(Q(2))))); Out::Ok }
            "interpolate_hermite" => { wb!(self, b => reals!(v, x => x.interpolate_hermite(b, f(Q(0)), f(Q(2))))); Out::Ok }
            "write" => { all!(v, x => { x.data_mut(..).copy_from_slice(&a.iter().map(|z| f(*z)).collect::<Vec<T>>()[..]) }); Out::Ok }
            "set_mc" => { if !cfg!(feature = "std") { return Out::Na; } let m = [A(0) as usize, A(1) as usize, A(2) as usize, A(3) as usize, A(4) as usize]; all!(v, x => x.set_multicore_settings(mcs(&m))); Out::Ok }
            _ => self.binary(v, c),
        }
    }

    fn binary(&mut self, v: &mut V, c: &Call) -> Out {
        macro_rules! op1 { () => { match self.slots[c.o[0]].as_ref() { Some(o) => o, None => return Out::Na } } }
        let a = &c.a;
        match &c.op[..] {
            "add" => res(same2_mixed!(v, op1!(), (x, y) => x.add(y))),
            "sub" => res(same2_mixed!(v, op1!(), (x, y) => x.sub(y))),
            "mul" => res(same2_mixed!(v, op1!(), (x, y) => x.mul(y))),
            "div" => res(same2_mixed!(v, op1!(), (x, y) => x.div(y))),
            "add_smaller" => res(same2!(v, op1!(), (x, y) => x.add_smaller(y))),
            "sub_smaller" => res(same2!(v, op1!(), (x, y) => x.sub_smaller(y))),
            "mul_smaller" => res(same2!(v, op1!(), (x, y) => x.mul_smaller(y))),
            "div_smaller" => res(same2!(v, op1!(), (x, y) => x.div_smaller(y))),
            "dot" => { let r: ScalarResult<T> = match (v, op1!()) { (RT(x), RT(y)) => x.dot_product(y), (RF(x), RF(y)) => x.dot_product(y),
                    (G(x), G(y)) => <GOp as DotProductOps<GOp, T, T, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product(x, y), _ => return Out::Na }; sres(r, |x| vec![n64(x)]) }
            "dot_c" => { let r: ScalarResult<Complex<T>> = match (v, op1!()) { (CT(x), CT(y)) => x.dot_product(y), (CF(x), CF(y)) => x.dot_product(y),
                    (G(x), G(y)) => <GOp as DotProductOps<GOp, Complex<T>, T, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product(x, y), _ => return Out::Na }; sres(r, |x| vec![n64(x.re), n64(x.im)]) }
            "dot_prec" => { let r: ScalarResult<T> = match (v, op1!()) { (RT(x), RT(y)) => x.dot_product_prec(y), (RF(x), RF(y)) => x.dot_product_prec(y),
                    (G(x), G(y)) => <GOp as PreciseDotProductOps<GOp, T, T, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product_prec(x, y), _ => return Out::Na }; sres(r, |x| vec![n64(x)]) }
            "dot_prec_c" => { let r: ScalarResult<Complex<T>> = match (v, op1!()) { (CT(x), CT(y)) => x.dot_product_prec(y), (CF(x), CF(y)) => x.dot_product_prec(y),
                    (G(x), G(y)) => <GOp as PreciseDotProductOps<GOp, Complex<T>, T, meta::RealOrComplex, meta::TimeOrFreq>>::dot_product_prec(x, y), _ => return Out::Na }; sres(r, |x| vec![n64(x.re), n64(x.im)]) }
            "convolve_signal" => self.convolve_sig(v, c),
            "correlate" => { let o = match self.slots[c.o[0]].as_ref() { Some(o) => o, None => return Out::Na };
                res(match &mut self.buf {
                    B::Single(b) => match (v, o) { (CT(x), CF(y)) => x.correlate(b, y), (G(x), G(y)) => x.correlate(b, y), _ => return Out::Na },
                    B::Fixed(b) => match (v, o) { (CT(x), CF(y)) => x.correlate(b, y), (G(x), G(y)) => x.correlate(b, y), _ => return Out::Na },
                    B::No => { let mut nb = no_buffer(); let b = &mut nb; match (v, o) { (CT(x), CF(y)) => x.correlate(b, y), (G(x), G(y)) => x.correlate(b, y), _ => return Out::Na } }
                }) }
            "set_real_imag" | "set_mag_phase" => match (self.slots[c.o[0]].as_ref(), self.slots[c.o[1]].as_ref()) { (Some(p), Some(q)) => set_pair(&c.op, v, p, q), _ => Out::Na },
            "get_real" | "get_imag" | "get_magnitude" | "get_magnitude_squared" | "get_phase" => {
                let mut d = match self.slots[c.o[0]].take() { Some(d) => d, None => return Out::Na };
                let r = Self::getter(v, &mut d, &c.op);
                self.slots[c.o[0]] = Some(d);
                r
            }
            "get_real_imag" | "get_mag_phase" => {
                let mut d = match self.slots[c.o[0]].take() { Some(d) => d, None => return Out::Na };
                let mut e = match self.slots[c.o[1]].take() { Some(d) => d, None => return Out::Na };
                let r = Self::getter2(v, &mut d, &mut e, &c.op);
                self.slots[c.o[0]] = Some(d);
                self.slots[c.o[1]] = Some(e);
                r
            }
            "split_into" => {
                // the library wants vectors of the same type
                for o in &c.o { match self.slots[*o].as_ref() { Some(d) if !std::mem::discriminant(d).eq(&std::mem::discriminant(&*v)) => return Out::Na, _ => {} } }
                let mut ts: Vec<V> = vec![];
                for o in &c.o { match self.slots[*o].take() { Some(d) => ts.push(d), None => return Out::Na } }
                macro_rules! spl { ($x:ident, $k:ident) => { {
                    let mut refs = vec![]; for t in ts.iter_mut() { match t { $k(y) => refs.push(y), _ => {} } }
                    res($x.split_into(&mut refs[..])) } } }
                let r = match v { RT(x) => spl!(x, RT), CT(x) => spl!(x, CT), RF(x) => spl!(x, RF), CF(x) => spl!(x, CF), G(x) => spl!(x, G) };
                for (o, t) in c.o.iter().zip(ts) { self.slots[*o] = Some(t); }
                r
            }
            "merge" => {
                for o in &c.o { match self.slots[*o].as_ref() { Some(d) if !std::mem::discriminant(d).eq(&std::mem::discriminant(&*v)) => return Out::Na, _ => {} } }
                macro_rules! mrg { ($x:ident, $k:ident) => { {
                    let mut refs = vec![]; for o in c.o.iter() { match self.slots[*o].as_ref() { Some($k(y)) => refs.push(y), _ => {} } }
                    res($x.merge(&refs[..])) } } }
                match v { RT(x) => mrg!(x, RT), CT(x) => mrg!(x, CT), RF(x) => mrg!(x, RF), CF(x) => mrg!(x, CF), G(x) => mrg!(x, G) }
            }
            _ => Out::Na,
        }
    }

    fn getter(v: &mut V, d: &mut V, op: &str) -> Out {
        macro_rules! g { ($m:ident) => { { real_targets!(v, d, (x, y) => x.$m(y)); Out::Ok } } }
        match op { "get_real" => g!(get_real), "get_imag" => g!(get_imag), "get_magnitude" => g!(get_magnitude),
            "get_magnitude_squared" => g!(get_magnitude_squared), _ => g!(get_phase) }
    }
    fn getter2(v: &mut V, d: &mut V, e: &mut V, op: &str) -> Out {
        match (v, d, e) {
            (CT(x), RT(y), RT(z)) => if op == "get_real_imag" { x.get_real_imag(y, z) } else { x.get_mag_phase(y, z) },
            (CF(x), RF(y), RF(z)) => if op == "get_real_imag" { x.get_real_imag(y, z) } else { x.get_mag_phase(y, z) },
            (G(x), G(y), G(z)) => if op == "get_real_imag" { x.get_real_imag(y, z) } else { x.get_mag_phase(y, z) },
            _ => return Out::Na,
        }
        Out::Ok
    }

    /// operations which consume the vector
    fn consuming(&mut self, v: V, c: &Call) -> (V, Out) {
        let a = &c.a;
        macro_rules! tr { ($e:expr, $k:ident) => { match $e { Ok(x) => ($k(x), Out::Ok), Err((e, x)) => ($k(x), Out::Err(format!("{:?}", e))) } } }
        macro_rules! t2f { ($b:ident, $x:ident => $e:expr) => { match v { RT($x) => (CF($e), Out::Ok), CT($x) => (CF($e), Out::Ok), G($x) => (G($e), Out::Ok), o => (o, Out::Na) } } }
        macro_rules! f2t { ($b:ident, $x:ident => $e:expr) => { match v { CF($x) => (CT($e), Out::Ok), G($x) => (G($e), Out::Ok), o => (o, Out::Na) } } }
        match &c.op[..] {
            "magnitude" => (to_reals!(v, x => x.magnitude()), Out::Ok),
            "magnitude_squared" => (to_reals!(v, x => x.magnitude_squared()), Out::Ok),
            "to_real" => (to_reals!(v, x => x.to_real()), Out::Ok),
            "to_imag" => (to_reals!(v, x => x.to_imag()), Out::Ok),
            "phase" => (to_reals!(v, x => x.phase()), Out::Ok),
            "magnitude_b" => wb!(self, b => (to_reals!(v, x => x.magnitude_b(b)), Out::Ok)),
            "magnitude_squared_b" => wb!(self, b => (to_reals!(v, x => x.magnitude_squared_b(b)), Out::Ok)),
            "to_real_b" => wb!(self, b => (to_reals!(v, x => x.to_real_b(b)), Out::Ok)),
            "to_imag_b" => wb!(self, b => (to_reals!(v, x => x.to_imag_b(b)), Out::Ok)),
            "phase_b" => wb!(self, b => (to_reals!(v, x => x.phase_b(b)), Out::Ok)),
            "to_complex" => match v { RT(x) => tr!(x.to_complex(), CT), RF(x) => tr!(x.to_complex(), CF), G(x) => tr!(x.to_complex(), G), o => (o, Out::Na) },
            "to_complex_b" => wb!(self, b => match v { RT(x) => (CT(x.to_complex_b(b)), Out::Ok), RF(x) => (CF(x.to_complex_b(b)), Out::Ok), G(x) => (G(x.to_complex_b(b)), Out::Ok), o => (o, Out::Na) }),
            "plain_fft" => wb!(self, b => t2f!(b, x => x.plain_fft(b))),
            "fft" => wb!(self, b => t2f!(b, x => x.fft(b))),
            "windowed_fft" => { let w = win::<T>(a); wb!(self, b => t2f!(b, x => x.windowed_fft(b, w.as_ref()))) }
            "plain_ifft" => wb!(self, b => f2t!(b, x => x.plain_ifft(b))),
            "ifft" => wb!(self, b => f2t!(b, x => x.ifft(b))),
            "windowed_ifft" => { let w = win::<T>(a); wb!(self, b => f2t!(b, x => x.windowed_ifft(b, w.as_ref()))) }
            "plain_sfft" => wb!(self, b => match v { RT(x) => tr!(x.plain_sfft(b), CF), G(x) => tr!(x.plain_sfft(b), G), o => (o, Out::Na) }),
            "sfft" => wb!(self, b => match v { RT(x) => tr!(x.sfft(b), CF), G(x) => tr!(x.sfft(b), G), o => (o, Out::Na) }),
            "windowed_sfft" => { let w = win::<T>(a); wb!(self, b => match v { RT(x) => tr!(x.windowed_sfft(b, w.as_ref()), CF), G(x) => tr!(x.windowed_sfft(b, w.as_ref()), G), o => (o, Out::Na) }) }
            "plain_sifft" => wb!(self, b => match v { CF(x) => tr!(x.plain_sifft(b), RT), G(x) => tr!(x.plain_sifft(b), G), o => (o, Out::Na) }),
            "sifft" => wb!(self, b => match v { CF(x) => tr!(x.sifft(b), RT), G(x) => tr!(x.sifft(b), G), o => (o, Out::Na) }),
            "windowed_sifft" => { let w = win::<T>(a); wb!(self, b => match v { CF(x) => tr!(x.windowed_sifft(b, w.as_ref()), RT), G(x) => tr!(x.windowed_sifft(b, w.as_ref()), G), o => (o, Out::Na) }) }
            "prepare_argument" => wb!(self, b => match v { CT(x) => (CF(x.prepare_argument(b)), Out::Ok), G(x) => (G(x.prepare_argument(b)), Out::Ok), o => (o, Out::Na) }),
            "prepare_argument_padded" => wb!(self, b => match v { CT(x) => (CF(x.prepare_argument_padded(b)), Out::Ok), G(x) => (G(x.prepare_argument_padded(b)), Out::Ok), o => (o, Out::Na) }),
            // conversions between the static types and the generic type
            "to_gen" => match v { RT(x) => (G(x.rededicate()), Out::Ok), CT(x) => (G(x.rededicate()), Out::Ok), RF(x) => (G(x.rededicate()), Out::Ok), CF(x) => (G(x.rededicate()), Out::Ok), o => (o, Out::Na) },
            "to_rt" => match v { G(x) => (RT(x.rededicate()), Out::Ok), CT(x) => (RT(x.rededicate()), Out::Ok), CF(x) => (RT(x.rededicate()), Out::Ok), o => (o, Out::Na) },
            "to_ct" => match v { G(x) => (CT(x.rededicate()), Out::Ok), RT(x) => (CT(x.rededicate()), Out::Ok), CF(x) => (CT(x.rededicate()), Out::Ok), o => (o, Out::Na) },
            "to_rf" => match v { G(x) => (RF(x.rededicate()), Out::Ok), CF(x) => (RF(x.rededicate()), Out::Ok), o => (o, Out::Na) },
            "to_cf" => match v { G(x) => (CF(x.rededicate()), Out::Ok), o => (o, Out::Na) },
            "to_rt_force" => match v { G(x) => (RT(RealTimeVec::rededicate_from_force(x)), Out::Ok), o => (o, Out::Na) },
            "to_ct_force" => match v { G(x) => (CT(ComplexTimeVec::rededicate_from_force(x)), Out::Ok), o => (o, Out::Na) },
            "to_cf_force" => match v { G(x) => (CF(ComplexFreqVec::rededicate_from_force(x)), Out::Ok), o => (o, Out::Na) },
            "to_rf_force" => match v { G(x) => (RF(RealFreqVec::rededicate_from_force(x)), Out::Ok), o => (o, Out::Na) },
            "runtime" => match v { G(x) => (G(GenDspVec::rededicate_with_runtime_data(x, a[0] != 0.0, if a[1] != 0.0 { DataDomain::Frequency } else { DataDomain::Time })), Out::Ok), o => (o, Out::Na) },
            _ => { let mut v = v; let o = self.inplace(&mut v, c); (v, o) }
        }
    }
}

impl World for W {
    fn name(&self) -> &'static str { NAME }
    fn is32(&self) -> bool { IS32 }
    fn storage(&self) -> &'static str { STORAGE }
    fn grows(&self) -> &'static str { GROWS }
    fn init(&mut self, slot: usize, i: &Init) {
        let mut all: Vec<T> = i.data.iter().map(|x| *x as T).collect();
        for k in 0..i.slack { all.push((777.0 + k as f64) as T); }
        let st = mkst(all, i.align);
        let n = i.data.len();
        let dom = if i.fr { DataDomain::Frequency } else { DataDomain::Time };
        let mut v = match i.ty {
            Ty::RT => RT(st.to_real_time_vec()), Ty::CT => CT(st.to_complex_time_vec()),
            Ty::RF => RF(st.to_real_freq_vec()), Ty::CF => CF(st.to_complex_freq_vec()),
            Ty::G => G(st.to_gen_dsp_vec(i.cx, dom)),
        };
        all!(&mut v, x => { let _ = x.resize(n); x.set_delta(f(i.delta)); x.set_multicore_settings(mcs(&i.mc)); });
        self.slots[slot] = Some(v);
    }
    fn call(&mut self, c: &Call) -> Out {
        let v = match self.slots[c.t].take() { Some(v) => v, None => return Out::Na };
        let slots_t = c.t;
        let r = { let me = &mut *self; catch_unwind(AssertUnwindSafe(move || me.consuming(v, c))) };
        match r {
            Ok((v, o)) => { self.slots[slots_t] = Some(v); o }
            Err(e) => Out::Panic(match e.downcast_ref::<String>() { Some(s) => s.clone(), None => match e.downcast_ref::<&str>() { Some(s) => s.to_string(), None => "?".into() } }),
        }
    }
    fn clear(&mut self) { for x in self.slots.iter_mut() { *x = None; } }
    fn snap(&self, slot: usize) -> Option<Snap> {
        let v = self.slots[slot].as_ref()?;
        let (ty, er) = match v { RT(_) => (Ty::RT, false), CT(_) => (Ty::CT, false), RF(_) => (Ty::RF, false), CF(_) => (Ty::CF, false), G(x) => (Ty::G, x.is_erroneous()) };
        Some(all!(v, x => { let m = x.get_multicore_settings();
            Snap { empty: x.is_empty(), ty, cx: x.is_complex(), fr: x.domain() == DataDomain::Frequency, len: x.len(), pts: x.points(), alloc: x.alloc_len(),
            delta: n64(x.delta()), err: er, data: if x.len() <= x.alloc_len() { x.data(..).iter().map(|y| n64(*y)).collect() } else { vec![] },
            mc: unmcs(&m) } }))
    }
    fn set_buf(&mut self, kind: Buf, dirty: usize) {
        self.buf = match kind {
            Buf::Single => { let mut b = single_buffer(); dirty_single(&mut b, dirty); B::Single(b) }
            Buf::Fixed => B::Fixed(FixedLenBuffer::new(mkst(vec![5555.0; dirty.max(1)], 0))),
            Buf::No => B::No,
        };
    }
    fn whole(&self, slot: usize) -> Vec<f64> {
        match self.slots[slot].as_ref() { Some(v) => all!(v, x => x.data.to_slice().iter().map(|y| n64(*y)).collect()), None => vec![] }
    }
}
