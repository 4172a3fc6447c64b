//! User supplied window, impulse response and frequency response functions with exactly known values.
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use std::sync::Mutex;

pub struct Win { pub kind: usize, pub k: usize, pub m: usize, pub log: Option<Mutex<Vec<(u64, usize, usize)>>> }
impl Win {
    pub fn new(a: &[f64]) -> Win { Win { kind: a[0] as usize, k: a[1] as usize, m: a[2] as usize, log: None } }
    pub fn value(&self, n: usize, length: usize) -> f64 {
        let mi = if n < length { n.min(length - 1 - n) } else { 77 };
        match self.kind {
            0 => 1.0 + ((mi * self.k) % self.m) as f64,
            1 => 1.0 + ((n * self.k) % self.m) as f64,
            2 => (1u64 << ((n * self.k) % 3)) as f64,
            3 => (1u64 << ((mi * self.k) % 3)) as f64,
            _ => 1.0 + ((n + length) % self.m) as f64,
        }
    }
}
impl<T: RealNumber> WindowFunction<T> for Win {
    fn is_symmetric(&self) -> bool { self.kind == 0 || self.kind == 3 }
    fn window(&self, n: usize, length: usize) -> T {
        if let Some(l) = &self.log {
            let id = format!("{:?}", std::thread::current().id());
            let id: u64 = id.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
            l.lock().unwrap().push((id, n, length));
        }
        T::from(self.value(n, length)).unwrap()
    }
}
pub fn win<T: RealNumber + 'static>(a: &[f64]) -> Box<dyn WindowFunction<T>> {
    match a[0] as i64 {
        10 => Box::new(TriangularWindow),
        11 => Box::new(HammingWindow::<T>::default()),
        12 => Box::new(BlackmanHarrisWindow),
        13 => Box::new(RectangularWindow),
        14 => Box::new(HammingWindow::<T>::new(T::from(a[1] / 64.0).unwrap())),
        _ => Box::new(Win::new(a)),
    }
}

/// a = [symmetric, resolution, center, table...]
pub struct Tab { pub sym: bool, pub res: f64, pub center: i64, pub tab: Vec<f64> }
impl Tab {
    pub fn new(a: &[f64]) -> Tab { Tab { sym: a[0] != 0.0, res: a[1], center: a[2] as i64, tab: a[3..].to_vec() } }
    fn at<T: RealNumber>(&self, x: T) -> f64 {
        let x = x.to_f64().unwrap();
        if !(x.abs() < 1e9) { return 7777.0; }
        let i = (x * self.res).round() as i64 + self.center;
        if i < 0 || i >= self.tab.len() as i64 { 0.0 } else { self.tab[i as usize] }
    }
    fn atc<T: RealNumber>(&self, x: T) -> (f64, f64) {
        let x = x.to_f64().unwrap();
        if !(x.abs() < 1e9) { return (7777.0, 0.0); }
        let i = (x * self.res).round() as i64 + self.center;
        if i < 0 || 2 * i + 1 >= self.tab.len() as i64 { (0.0, 0.0) } else { (self.tab[2 * i as usize], self.tab[2 * i as usize + 1]) }
    }
}
impl<T: RealNumber> RealImpulseResponse<T> for Tab {
    fn is_symmetric(&self) -> bool { self.sym }
    fn calc(&self, x: T) -> T { T::from(self.at(x)).unwrap() }
}
impl<T: RealNumber> RealFrequencyResponse<T> for Tab {
    fn is_symmetric(&self) -> bool { self.sym }
    fn calc(&self, x: T) -> T { T::from(self.at(x)).unwrap() }
}
impl<T: RealNumber> ComplexImpulseResponse<T> for Tab {
    fn is_symmetric(&self) -> bool { self.sym }
    fn calc(&self, x: T) -> Complex<T> { let (r, i) = self.atc(x); Complex::new(T::from(r).unwrap(), T::from(i).unwrap()) }
}
impl<T: RealNumber> ComplexFrequencyResponse<T> for Tab {
    fn is_symmetric(&self) -> bool { self.sym }
    fn calc(&self, x: T) -> Complex<T> { let (r, i) = self.atc(x); Complex::new(T::from(r).unwrap(), T::from(i).unwrap()) }
}

/// The functions of the library and those which are supplied by the caller; a = [kind, resolution, center, table...], see Fn.tla
pub trait Fns: RealNumber + 'static {
    fn ri(a: &[f64]) -> Box<dyn RealImpulseResponse<Self>>;
    fn rf(a: &[f64]) -> Box<dyn RealFrequencyResponse<Self>>;
    fn ci(a: &[f64]) -> Box<dyn ComplexImpulseResponse<Self>>;
    fn cf(a: &[f64]) -> Box<dyn ComplexFrequencyResponse<Self>>;
    /// spacing, symmetry and points of a table after a conversion
    fn convert(conv: usize, fam: usize, a: &[f64]) -> Option<Vec<f64>>;
    /// the next greater or smaller number
    fn next(self, up: bool) -> Self;
}
macro_rules! fns { ($t:ty) => {
    impl Fns for $t {
        fn next(self, up: bool) -> Self {
            if self == 0.0 { return if up { <$t>::from_bits(1) } else { -<$t>::from_bits(1) }; }
            let b = self.to_bits();
            <$t>::from_bits(if up == (self > 0.0) { b + 1 } else { b - 1 })
        }
        fn ri(a: &[f64]) -> Box<dyn RealImpulseResponse<$t>> { match a[0] as usize {
            0 | 1 => Box::new(Tab::new(a)), 2 => Box::new(SincFunction::<$t>::new()), 3 => Box::new(RaisedCosineFunction::<$t>::new((a[1] / 8.0) as $t)), _ => Box::new(Self::tri(a)) } }
        fn rf(a: &[f64]) -> Box<dyn RealFrequencyResponse<$t>> { match a[0] as usize {
            0 | 1 => Box::new(Tab::new(a)), 2 => Box::new(SincFunction::<$t>::new()), 3 => Box::new(RaisedCosineFunction::<$t>::new((a[1] / 8.0) as $t)), _ => Box::new(Self::trf(a)) } }
        fn ci(a: &[f64]) -> Box<dyn ComplexImpulseResponse<$t>> { match a[0] as usize { 0 | 1 => Box::new(Tab::new(a)), _ => Box::new(Self::tci(a)) } }
        fn cf(a: &[f64]) -> Box<dyn ComplexFrequencyResponse<$t>> { match a[0] as usize { 0 | 1 => Box::new(Tab::new(a)), _ => Box::new(Self::tcf(a)) } }
        fn convert(conv: usize, fam: usize, a: &[f64]) -> Option<Vec<f64>> {
            macro_rules! rr { ($x:expr) => { { let x = $x; let mut r = vec![x.delta() as f64, if x.is_symmetric() { 1.0 } else { 0.0 }]; r.extend(x.table().iter().map(|y| *y as f64)); Some(r) } } }
            macro_rules! cc { ($x:expr) => { { let x = $x; let mut r = vec![x.delta() as f64, if x.is_symmetric() { 1.0 } else { 0.0 }]; for y in x.table() { r.push(y.re as f64); r.push(y.im as f64); } Some(r) } } }
            match (conv, fam) {
                (0, 0) => rr!(Self::tri(a)), (0, 1) => rr!(Self::trf(a)), (0, 2) => cc!(Self::tci(a)), (0, 3) => cc!(Self::tcf(a)),
                (1, 0) => cc!(Self::tri(a).to_complex()), (1, 1) => cc!(Self::trf(a).to_complex()), (2, 2) => rr!(Self::tci(a).to_real()), (2, 3) => rr!(Self::tcf(a).to_real()),
                (3, 0) => rr!(Self::tri(a).fft()), (3, 2) => cc!(Self::tci(a).fft()), (4, 3) => cc!(Self::tcf(a).ifft()), _ => None }
        }
    }
    impl Tables for $t {
        type RI = RealTimeLinearTableLookup<$t>; type RF = RealFrequencyLinearTableLookup<$t>; type CI = ComplexTimeLinearTableLookup<$t>; type CF = ComplexFrequencyLinearTableLookup<$t>;
        fn tri(a: &[f64]) -> Self::RI {
            let d = (1.0 / a[1]) as $t; let n = a[2] as usize;
            match a[0] as usize {
                6 => Self::RI::from_conv_function(&SincFunction::<$t>::new(), d, n), 7 => Self::RI::from_conv_function(&RaisedCosineFunction::<$t>::new(0.5), d, n),
                8 | 9 => Self::tci(&lower(a)).to_real(), k => { let t: Vec<$t> = a[3..].iter().map(|x| *x as $t).collect(); Self::RI::from_raw_parts(&t, d, k == 5) } }
        }
        fn trf(a: &[f64]) -> Self::RF {
            let d = (1.0 / a[1]) as $t; let n = a[2] as usize;
            match a[0] as usize {
                6 => Self::RF::from_conv_function(&SincFunction::<$t>::new(), d, n), 7 => Self::RF::from_conv_function(&RaisedCosineFunction::<$t>::new(0.5), d, n),
                8 | 9 => Self::tcf(&lower(a)).to_real(), k => { let t: Vec<$t> = a[3..].iter().map(|x| *x as $t).collect(); Self::RF::from_raw_parts(&t, d, k == 5) } }
        }
        fn tci(a: &[f64]) -> Self::CI {
            let d = (1.0 / a[1]) as $t;
            match a[0] as usize { 6 | 7 => Self::tri(a).to_complex(),
                k => { let t: Vec<Complex<$t>> = a[3..].chunks(2).map(|x| Complex::new(x[0] as $t, x[1] as $t)).collect(); let x = Self::CI::from_raw_parts(&t, d, k == 5);
                       // a copy made from the function
                       if t.len() % 2 == 1 && a[2] as usize % 2 == 1 { Self::CI::from_conv_function(&x, d, t.len() / 2) } else { x } } }
        }
        fn tcf(a: &[f64]) -> Self::CF {
            let d = (1.0 / a[1]) as $t;
            match a[0] as usize { 6 | 7 => Self::trf(a).to_complex(),
                k => { let t: Vec<Complex<$t>> = a[3..].chunks(2).map(|x| Complex::new(x[0] as $t, x[1] as $t)).collect(); let x = Self::CF::from_raw_parts(&t, d, k == 5);
                       if t.len() % 2 == 1 && a[2] as usize % 2 == 1 { Self::CF::from_conv_function(&x, d, t.len() / 2) } else { x } } }
        }
    }
} }
trait Tables { type RI; type RF; type CI; type CF; fn tri(a: &[f64]) -> Self::RI; fn trf(a: &[f64]) -> Self::RF; fn tci(a: &[f64]) -> Self::CI; fn tcf(a: &[f64]) -> Self::CF; }
fn lower(a: &[f64]) -> Vec<f64> { let mut b = a.to_vec(); b[0] -= 4.0; b }
fns!(f32);
fns!(f64);
/// op "fn": a = [family + 8 * u, num, den, function...]; u = 1..3: that many numbers above num / den, 4..6: below
pub fn value<T: Fns>(a: &[f64]) -> Vec<f64> {
    let mut x = T::from(a[1]).unwrap() / T::from(a[2]).unwrap();
    let u = a[0] as usize / 8;
    for _ in 0..(if u > 3 { u - 3 } else { u }) { x = x.next(u <= 3); }
    let b = |s: bool| if s { 1.0 } else { 0.0 };
    match a[0] as usize % 8 {
        0 => { let y = T::ri(&a[3..]); vec![b(y.is_symmetric()), y.calc(x).to_f64().unwrap(), 0.0] }
        1 => { let y = T::rf(&a[3..]); vec![b(y.is_symmetric()), y.calc(x).to_f64().unwrap(), 0.0] }
        2 => { let y = T::ci(&a[3..]); let z = y.calc(x); vec![b(y.is_symmetric()), z.re.to_f64().unwrap(), z.im.to_f64().unwrap()] }
        _ => { let y = T::cf(&a[3..]); let z = y.calc(x); vec![b(y.is_symmetric()), z.re.to_f64().unwrap(), z.im.to_f64().unwrap()] }
    }
}
