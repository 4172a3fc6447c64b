//! Types shared by all worlds: calls, outcomes, snapshots, JSON output, random numbers.
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty { RT, CT, RF, CF, G }
impl Ty {
    pub fn s(self) -> &'static str {
        match self { Ty::RT => "RT", Ty::CT => "CT", Ty::RF => "RF", Ty::CF => "CF", Ty::G => "G" }
    }
    pub fn parse(s: &str) -> Ty {
        match s { "RT" => Ty::RT, "CT" => Ty::CT, "RF" => Ty::RF, "CF" => Ty::CF, _ => Ty::G }
    }
}

#[derive(Clone, Debug)]
pub struct Init {
    pub ty: Ty,
    pub cx: bool,
    pub fr: bool,
    pub delta: f64,
    pub data: Vec<f64>,
    pub slack: usize,
    pub align: usize,
    pub mc: [usize; 5],
}
pub const MC1: [usize; 5] = [1, 50000, 100000, 15000, 30000];
/// `k` threads as soon as there is anything to do.
pub fn mck(k: usize) -> [usize; 5] { [k, 0, 1, 0, 1] }
impl Init {
    pub fn new(ty: Ty, data: Vec<f64>) -> Init {
        Init { ty, cx: ty == Ty::CT || ty == Ty::CF, fr: ty == Ty::RF || ty == Ty::CF, delta: 1.0, data,
               slack: 0, align: 0, mc: MC1 }
    }
    pub fn gen(cx: bool, fr: bool, data: Vec<f64>) -> Init {
        Init { ty: Ty::G, cx, fr, delta: 1.0, data, slack: 0, align: 0, mc: MC1 }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub op: String,
    pub t: usize,
    pub o: Vec<usize>,
    pub a: Vec<f64>,
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    Err(String),
    Panic(String),
    /// operation does not exist for this type
    Na,
    /// scalar results
    Num(Vec<f64>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub ty: Ty,
    pub cx: bool,
    pub fr: bool,
    pub len: usize,
    pub pts: usize,
    pub alloc: usize,
    pub empty: bool,
    pub delta: f64,
    pub err: bool,
    pub data: Vec<f64>,
    pub mc: [usize; 5],
}

pub const LIM: f64 = 1073741824.0;
pub fn enc(x: f64, q: i32) -> (i64, bool, bool) {
    let y = x * (2.0f64).powi(q);
    if !y.is_finite() || y.abs() > LIM { return (0, true, true); }
    let r = y.round();
    (r as i64, r != y, false)
}
pub fn enc_seq(out: &mut String, d: &[f64], q: i32) -> (usize, usize) {
    let mut ix = 0;
    let mut bad = 0;
    out.push('[');
    for (i, x) in d.iter().enumerate() {
        if i > 0 { out.push(','); }
        let (v, e, b) = enc(*x, q);
        if e { ix += 1; }
        if b { bad += 1; }
        let _ = write!(out, "{}", v);
    }
    out.push(']');
    (ix, bad)
}
pub fn snap_json(s: &Snap, q: i32, slot: usize) -> String {
    let mut d = String::new();
    let (ix, bad) = enc_seq(&mut d, &s.data, q);
    let (dl, dix, dbad) = enc(s.delta, 12);
    format!("{{\"s\":{},\"ty\":\"{}\",\"cx\":{},\"fr\":{},\"len\":{},\"pts\":{},\"alloc\":{},\"dl\":{},\"dn\":{},\"di\":{},\"er\":{},\"em\":{},\"ix\":{},\"nz\":{},\"bad\":{},\"mc\":[{},{},{},{},{}],\"d\":{}}}",
        slot, s.ty.s(), s.cx, s.fr, s.len, s.pts, s.alloc, dl, s.delta.is_nan() || dbad, dix, s.err, s.empty, ix, s.data.iter().any(|x| *x == 0.0 && x.is_sign_negative()), bad,
        s.mc[0], s.mc[1], s.mc[2], s.mc[3], s.mc[4], d)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        // an unrelated sequence for every seed
        let mut r = Rng(seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(0x1234567));
        let s = r.next() ^ r.next().rotate_left(23);
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as usize) as i64 }
    pub fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn ints(&mut self, n: usize, lo: i64, hi: i64) -> Vec<f64> {
        (0..n).map(|_| self.range(lo, hi) as f64).collect()
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X { let i = self.below(v.len()); &v[i] }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Buf { Single, Fixed, No }

pub trait World {
    fn name(&self) -> &'static str;
    fn is32(&self) -> bool;
    fn storage(&self) -> &'static str;
    /// true if the storage type is able to grow
    fn grows(&self) -> &'static str;
    fn init(&mut self, slot: usize, i: &Init);
    fn call(&mut self, c: &Call) -> Out;
    fn snap(&self, slot: usize) -> Option<Snap>;
    /// selects the kind of buffer passed to buffered operations; `dirty` fills it with garbage first
    fn clear(&mut self);
    fn set_buf(&mut self, kind: Buf, dirty: usize);
    fn whole(&self, slot: usize) -> Vec<f64>;
    /// the number of rows of the matrix which starts at the slot; 0: none
    fn rows(&self, _slot: usize) -> usize { 0 }
    /// what the matrix says about itself
    fn summary(&self, _slot: usize) -> Vec<f64> { vec![] }
}
