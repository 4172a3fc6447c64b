use crate::core::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
    pub struct W;
    struct A { cont: usize, how: usize, cx: bool, fr: bool, n: usize, m: usize, dl: f64, route: usize, i: usize, j: usize }
    fn f(x: T) -> f64 { x as f64 }
    fn flat(x: &[Complex<T>]) -> Vec<f64> { x.iter().flat_map(|c| vec![f(c.re), f(c.im)]).collect() }
    fn plain(x: &[T]) -> Vec<f64> { x.iter().map(|c| f(*c)).collect() }
    fn head<S: ToSlice<T>, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>) -> Vec<f64> {
        vec![if v.is_complex() { 1.0 } else { 0.0 }, if v.domain() == DataDomain::Frequency { 1.0 } else { 0.0 }, v.len() as f64, v.points() as f64, f(v.delta()) * 4096.0,
             if v.alloc_len() >= v.len() && v.is_empty() == (v.len() == 0) { 1.0 } else { 0.0 }]
    }
    /// read routes for every vector
    fn read<S: ToSlice<T>, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>, a: &A) -> Option<Vec<f64>> {
        Some(match a.route { 0 => plain(v.data(..)), 1 => vec![f(*v.data(a.i))], 2 => plain(v.data(a.i..)), 3 => plain(v.data(..a.j)), 4 => plain(v.data(a.i..a.j)), _ => return None })
    }
    fn readc<S: ToSlice<T>, N: ComplexNumberSpace, D: Domain>(v: &DspVec<S, T, N, D>, a: &A) -> Option<Vec<f64>> {
        Some(match a.route { 5 => flat(v.datac(..)), 6 => flat(&[*v.datac(a.i)]), 7 => flat(v.datac(a.i..)), 8 => flat(v.datac(..a.j)), 9 => flat(v.datac(a.i..a.j)), _ => return None })
    }
    fn ixr<S: ToSlice<T>, D: Domain>(v: &DspVec<S, T, meta::Real, D>, a: &A) -> Option<Vec<f64>> {
        Some(match a.route { 10 => plain(&v[..]), 11 => vec![f(v[a.i])], 12 => plain(&v[a.i..]), 13 => plain(&v[..a.j]), 14 => plain(&v[a.i..a.j]), _ => return None })
    }
    fn ixc<S: ToSlice<T>, D: Domain>(v: &DspVec<S, T, meta::Complex, D>, a: &A) -> Option<Vec<f64>> {
        Some(match a.route { 10 => flat(&v[..]), 11 => flat(&[v[a.i]]), 12 => flat(&v[a.i..]), 13 => flat(&v[..a.j]), 14 => flat(&v[a.i..a.j]), _ => return None })
    }
    fn mark(x: &mut [T]) { for (k, y) in x.iter_mut().enumerate() { *y = (100 + k) as T; } }
    fn markc(x: &mut [Complex<T>]) { for (k, y) in x.iter_mut().enumerate() { *y = Complex::new((100 + 2 * k) as T, (101 + 2 * k) as T); } }
    fn write<S: ToSliceMut<T>, N: NumberSpace, D: Domain>(v: &mut DspVec<S, T, N, D>, a: &A) -> Option<Vec<f64>> {
        match a.route { 20 => mark(v.data_mut(..)), 21 => *v.data_mut(a.i) = 100.0, 22 => mark(v.data_mut(a.i..)), 23 => mark(v.data_mut(..a.j)), 24 => mark(v.data_mut(a.i..a.j)), _ => return None }
        Some(plain(v.data(..)))
    }
    fn writec<S: ToSliceMut<T>, N: ComplexNumberSpace, D: Domain>(v: &mut DspVec<S, T, N, D>, a: &A) -> Option<Vec<f64>> {
        match a.route { 25 => markc(v.datac_mut(..)), 26 => *v.datac_mut(a.i) = Complex::new(100.0, 101.0), 27 => markc(v.datac_mut(a.i..)), 28 => markc(v.datac_mut(..a.j)), 29 => markc(v.datac_mut(a.i..a.j)), _ => return None }
        Some(plain(v.data(..)))
    }
    fn wixr<S: ToSliceMut<T>, D: Domain>(v: &mut DspVec<S, T, meta::Real, D>, a: &A) -> Option<Vec<f64>> {
        match a.route { 30 => mark(&mut v[..]), 31 => v[a.i] = 100.0, 32 => mark(&mut v[a.i..]), 33 => mark(&mut v[..a.j]), 34 => mark(&mut v[a.i..a.j]), _ => return None }
        Some(plain(v.data(..)))
    }
    fn wixc<S: ToSliceMut<T>, D: Domain>(v: &mut DspVec<S, T, meta::Complex, D>, a: &A) -> Option<Vec<f64>> {
        match a.route { 30 => markc(&mut v[..]), 31 => v[a.i] = Complex::new(100.0, 101.0), 32 => markc(&mut v[a.i..]), 33 => markc(&mut v[..a.j]), 34 => markc(&mut v[a.i..a.j]), _ => return None }
        Some(plain(v.data(..)))
    }
    fn raw<S: ToSlice<T>, N: NumberSpace, D: Domain>(v: DspVec<S, T, N, D>) -> Vec<f64> {
        let (s, n) = v.getf(); let mut r = vec![n as f64]; r.extend(plain(&s.to_slice()[..n])); r
    }
    /// the clone of a vector, and a vector which took over the contents of another one
    fn cloned<S: ToSlice<T> + Clone, N: NumberSpace, D: Domain>(v: DspVec<S, T, N, D>, a: &A) -> Vec<f64> {
        let mut w = v.clone();
        if a.route == 19 { let _ = w.resize(0); w.set_delta(99.0); w.clone_from(&v); }
        drop(v);
        let mut r = head(&w); r.extend(plain(w.data(..))); r
    }
    fn remeta<S: ToSlice<T>, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>, a: &A) -> Vec<f64> {
        let m = v.get_meta_data();
        let d: Vec<T> = (0..a.i).map(|k| (k + 50) as T).collect();
        let w = d.to_dsp_vec(&m);
        let mut r = head(&w); r.extend(plain(w.data(..))); r
    }
    macro_rules! clone_yes { ($v:ident, $a:ident) => { if $a.route == 18 || $a.route == 19 { Some(cloned($v, &$a)) } else { None } } }
    macro_rules! clone_no { ($v:ident, $a:ident) => { { let _ = $v; None } } }
    // what can be done with a vector depends on its type and its storage
    macro_rules! get_any { ($v:ident, $a:ident) => { { let (s, n) = $v.get(); let mut r = vec![n as f64]; r.extend(plain(&s[..n])); Some(r) } } }
    macro_rules! get_c { ($v:ident, $a:ident) => { { let (s, n) = $v.get(); let mut r = vec![n as f64]; r.extend(flat(&s[..n])); Some(r) } } }
    macro_rules! get_no { ($v:ident, $a:ident) => { { let _ = $v; None } } }
    macro_rules! into_r { ($v:ident, $a:ident) => { { let s: Vec<T> = $v.into(); let mut r = vec![s.len() as f64]; r.extend(plain(&s)); Some(r) } } }
    macro_rules! into_c { ($v:ident, $a:ident) => { { let s: Vec<Complex<T>> = $v.into(); let mut r = vec![s.len() as f64]; r.extend(flat(&s)); Some(r) } } }
    macro_rules! go { ($v:expr, $a:ident, [$($rd:ident),*], [$($wr:ident),*], $get:ident, $into:ident, $clone:ident) => { {
        #[allow(unused_mut)] let mut v = $v;
        if $a.m == 1 && $a.cont != 8 { let n = v.len(); let _ = v.resize(if v.is_complex() { n / 4 * 2 } else { n / 2 }); }
        let h = head(&v);
        $(if let Some(r) = $rd(&v, &$a) { return done(h, r); })*
        $(if let Some(r) = $wr(&mut v, &$a) { return done(h, r); })*
        let r: Option<Vec<f64>> = match $a.route { 15 => Some(raw(v)), 16 => $get!(v, $a), 17 => $into!(v, $a), 35 => Some(remeta(&v, &$a)), 36 => Some(single(&v)), _ => $clone!(v, $a) };
        match r { Some(r) => done(h, r), None => Out::Na }
    } } }
    fn done(mut h: Vec<f64>, r: Vec<f64>) -> Out { h.extend(r); Out::Num(h) }
    fn dom(a: &A) -> DataDomain { if a.fr { DataDomain::Frequency } else { DataDomain::Time } }
    // all ways to create a vector from container c
    macro_rules! make { ($c:expr, $a:ident, $mk:ident, $w:ident, $get:ident, $intor:ident, $intoc:ident, $getc:ident, $clone:ident) => { {
        let c = $c;
        match ($a.how, $a.cx, $a.fr) {
            (0, _, _) => $mk!(gen, c.to_gen_dsp_vec($a.cx, dom(&$a)), $a, $get, $clone),
            (1, false, false) => { let mut p = vec![0.0 as T].to_real_time_vec(); p.set_delta($a.dl as T); let m = p.get_meta_data(); $mk!(r, c.to_dsp_vec(&m), $a, $get, $intor, $clone) }
            (1, false, true) => { let mut p = vec![0.0 as T].to_real_freq_vec(); p.set_delta($a.dl as T); let m = p.get_meta_data(); $mk!(r, c.to_dsp_vec(&m), $a, $get, $intor, $clone) }
            (1, true, false) => { let mut p = vec![0.0 as T; 2].to_complex_time_vec(); p.set_delta($a.dl as T); let m = p.get_meta_data(); $mk!(c, c.to_dsp_vec(&m), $a, $getc, $intoc, $clone) }
            (1, true, true) => { let mut p = vec![0.0 as T; 2].to_complex_freq_vec(); p.set_delta($a.dl as T); let m = p.get_meta_data(); $mk!(c, c.to_dsp_vec(&m), $a, $getc, $intoc, $clone) }
            (4, _, _) => { let mut p = vec![0.0 as T; 2].to_gen_dsp_vec($a.cx, dom(&$a)); p.set_delta($a.dl as T); let m = p.get_meta_data(); $mk!(gen, c.to_dsp_vec(&m), $a, $get, $clone) }
            (2, false, false) => $mk!(r, c.to_real_time_vec(), $a, $get, $intor, $clone),
            (2, false, true) => $mk!(r, c.to_real_freq_vec(), $a, $get, $intor, $clone),
            (2, true, false) => $mk!(c, c.to_complex_time_vec(), $a, $getc, $intoc, $clone),
            (2, true, true) => $mk!(c, c.to_complex_freq_vec(), $a, $getc, $intoc, $clone),
            (3, false, false) => $mk!(r, RealTimeVec::from(c), $a, $get, $intor, $clone),
            (3, false, true) => $mk!(r, RealFreqVec::from(c), $a, $get, $intor, $clone),
            (3, true, false) => $mk!(c, ComplexTimeVec::from(c), $a, $getc, $intoc, $clone),
            (3, true, true) => $mk!(c, ComplexFreqVec::from(c), $a, $getc, $intoc, $clone),
            _ => par!(c, $a),
        }
    } } }
    // the multi-threaded variants of the conversions
    #[cfg(not(feature = "std"))]
    macro_rules! par { ($c:expr, $a:ident) => { { let _ = $c; Out::Na } } }
    #[cfg(feature = "std")]
    macro_rules! par { ($c:expr, $a:ident) => { {
        let c = $c; let d = $a.dl as T;
        match ($a.how, $a.cx, $a.fr) {
            (5, _, _) => parallel(c.to_gen_dsp_vec_par($a.cx, dom(&$a)), &$a),
            (6, false, false) => { let mut p = vec![0.0 as T].to_real_time_vec(); p.set_delta(d); parallel(c.to_dsp_vec_par(&p.get_meta_data()), &$a) }
            (6, false, true) => { let mut p = vec![0.0 as T].to_real_freq_vec(); p.set_delta(d); parallel(c.to_dsp_vec_par(&p.get_meta_data()), &$a) }
            (6, true, false) => { let mut p = vec![0.0 as T; 2].to_complex_time_vec(); p.set_delta(d); parallel(c.to_dsp_vec_par(&p.get_meta_data()), &$a) }
            (6, true, true) => { let mut p = vec![0.0 as T; 2].to_complex_freq_vec(); p.set_delta(d); parallel(c.to_dsp_vec_par(&p.get_meta_data()), &$a) }
            (7, false, false) => parallel(c.to_real_time_vec_par(), &$a),
            (7, false, true) => parallel(c.to_real_freq_vec_par(), &$a),
            (7, true, false) => parallel(c.to_complex_time_vec_par(), &$a),
            (7, true, true) => parallel(c.to_complex_freq_vec_par(), &$a),
            (8, _, _) => { let mut p = vec![0.0 as T; 2].to_gen_dsp_vec($a.cx, dom(&$a)); p.set_delta(d); parallel(c.to_dsp_vec_par(&p.get_meta_data()), &$a) }
            _ => Out::Na,
        }
    } } }
    #[cfg(feature = "std")]
    fn same(x: &MultiCoreSettings, y: &MultiCoreSettings) -> bool {
        x.core_limit == y.core_limit && x.med_dual_core_threshold == y.med_dual_core_threshold && x.med_multi_core_threshold == y.med_multi_core_threshold
            && x.large_dual_core_threshold == y.large_dual_core_threshold && x.large_multi_core_threshold == y.large_multi_core_threshold
    }
    #[cfg(feature = "std")]
    fn parallel<S: ToSlice<T>, N: NumberSpace, D: Domain>(v: DspVec<S, T, N, D>, a: &A) -> Out {
        let h = head(&v);
        if let Some(r) = read(&v, a) { return done(h, r); }
        if a.route == 15 { return done(h, raw(v)); }
        if a.route != 36 { return Out::Na; }
        let m = v.get_multicore_settings();
        let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
        let ok = same(m, &MultiCoreSettings::parallel()) && m.core_limit >= 1 && (cores == 1 || m.core_limit > 1) && m.core_limit <= cores.max(2);
        done(h, vec![if ok { 1.0 } else { 0.0 }])
    }
    /// vectors spawn no threads unless they are told to
    #[cfg(feature = "std")]
    fn single<S: ToSlice<T>, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>) -> Vec<f64> {
        let m = v.get_multicore_settings();
        let ok = m.core_limit == 1 && same(m, &MultiCoreSettings::single_threaded()) && same(m, &MultiCoreSettings::default()) && same(m, &MultiCoreSettings::new(1));
        vec![if ok { 1.0 } else { 0.0 }]
    }
    #[cfg(not(feature = "std"))]
    fn single<S: ToSlice<T>, N: NumberSpace, D: Domain>(_v: &DspVec<S, T, N, D>) -> Vec<f64> { vec![1.0] }
    macro_rules! mkw {
        (gen, $v:expr, $a:ident, $get:ident, $clone:ident) => { go!($v, $a, [read, readc], [write, writec], get_no, get_no, $clone) };
        (r, $v:expr, $a:ident, $get:ident, $into:ident, $clone:ident) => { go!($v, $a, [read, ixr], [write, wixr], $get, $into, $clone) };
        (c, $v:expr, $a:ident, $get:ident, $into:ident, $clone:ident) => { go!($v, $a, [read, readc, ixc], [write, writec, wixc], $get, $into, $clone) };
    }
    macro_rules! mkr {
        (gen, $v:expr, $a:ident, $get:ident, $clone:ident) => { go!($v, $a, [read, readc], [], get_no, get_no, $clone) };
        (r, $v:expr, $a:ident, $get:ident, $into:ident, $clone:ident) => { go!($v, $a, [read, ixr], [], $get, $into, $clone) };
        (c, $v:expr, $a:ident, $get:ident, $into:ident, $clone:ident) => { go!($v, $a, [read, readc, ixc], [], $get, $into, $clone) };
    }
    fn work(a: A) -> Out {
        let plain: Vec<T> = (0..a.n).map(|k| (k + 1) as T).collect();
        let cvec: Vec<Complex<T>> = (0..a.n).map(|k| Complex::new((2 * k + 1) as T, (2 * k + 2) as T)).collect();
        match a.cont {
            0 => { let mut c = Vec::with_capacity(a.n + if a.m > 1 { a.m } else { 0 }); c.extend(plain); make!(c, a, mkw, w, get_any, into_r, into_c, get_c, clone_yes) }
            1 => { let mut c: Vec<Complex<T>> = Vec::with_capacity(a.n + if a.m > 1 { a.m } else { 0 }); c.extend(cvec);
                   match (a.how, a.cx, a.fr) { (2, true, false) => mkw!(c, c.to_complex_time_vec(), a, get_c, into_c, clone_yes), (2, true, true) => mkw!(c, c.to_complex_freq_vec(), a, get_c, into_c, clone_yes), _ => Out::Na } }
            2 => make!(plain.into_boxed_slice(), a, mkw, w, get_any, get_no, get_no, get_no, clone_yes),
            3 => make!(&plain[..], a, mkr, w, get_any, get_no, get_no, get_c, clone_yes),
            4 => { let mut plain = plain; make!(&mut plain[..], a, mkw, w, get_any, get_no, get_no, get_c, clone_no) }
            5 => { let c = &cvec[..]; match (a.how, a.cx, a.fr) { (2, true, false) => mkr!(c, c.to_complex_time_vec(), a, get_c, get_no, clone_yes), (2, true, true) => mkr!(c, c.to_complex_freq_vec(), a, get_c, get_no, clone_yes), _ => Out::Na } }
            6 => { let mut cvec = cvec; let c = &mut cvec[..]; match (a.how, a.cx, a.fr) { (2, true, false) => mkw!(c, c.to_complex_time_vec(), a, get_c, get_no, clone_no), (2, true, true) => mkw!(c, c.to_complex_freq_vec(), a, get_c, get_no, clone_no), _ => Out::Na } }
            7 => { let c: arrayvec::ArrayVec<T, 64> = plain.into_iter().take(64).collect(); make!(c, a, mkw, w, get_any, get_no, get_no, get_no, clone_yes) }
            8 => { let other: Vec<T> = (0..a.m).map(|k| -((k + 1) as T)).collect();
                   if !a.cx || a.how != 2 { return Out::Na; }
                   if a.fr { match plain.interleave_to_complex_freq_vec(&other) { Ok(v) => mkw!(c, v, a, get_c, into_c, clone_yes), Err(e) => Out::Err(format!("{:?}", e)) } }
                   else { match plain.interleave_to_complex_time_vec(&other) { Ok(v) => mkw!(c, v, a, get_c, into_c, clone_yes), Err(e) => Out::Err(format!("{:?}", e)) } } }
            _ => Out::Na,
        }
    }
    impl World for W {
        fn name(&self) -> &'static str { NAME }
        fn is32(&self) -> bool { IS32 }
        fn storage(&self) -> &'static str { "ctor" }
        fn grows(&self) -> &'static str { "any" }
        fn init(&mut self, _slot: usize, _i: &Init) {}
        fn call(&mut self, c: &Call) -> Out {
            if c.op == "fn" || c.op == "fntable" {
                let a = c.a.clone(); let v = c.op == "fn";
                return match catch_unwind(AssertUnwindSafe(move || if v { Some(crate::funcs::value::<T>(&a)) } else { <T as crate::funcs::Fns>::convert(a[0] as usize, a[1] as usize, &a[2..]) })) {
                    Ok(Some(x)) => Out::Num(x), Ok(None) => Out::Na, Err(_) => Out::Panic("panic".into()) };
            }
            if c.op != "ctor" { return Out::Na; }
            let b: Vec<usize> = c.a.iter().map(|x| *x as usize).collect();
            let a = A { cont: b[0], how: b[1], cx: b[2] != 0, fr: b[3] != 0, n: b[4], m: b[5], dl: c.a[6] / 4096.0, route: b[7], i: b[8], j: b[9] };
            match catch_unwind(AssertUnwindSafe(move || work(a))) { Ok(o) => o, Err(_) => Out::Panic("panic".into()) }
        }
        fn snap(&self, _slot: usize) -> Option<Snap> { None }
        fn clear(&mut self) {}
        fn set_buf(&mut self, _kind: Buf, _dirty: usize) {}
        fn whole(&self, _slot: usize) -> Vec<f64> { vec![] }
    }
