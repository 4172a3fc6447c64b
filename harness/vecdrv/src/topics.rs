//! Systematic and random scenarios per property.
use crate::core::*;
use crate::scen::*;

pub struct G { pub rng: Rng, pub out: Vec<Scen>, pub reps: usize, pub thorough: bool, pub worlds: Vec<&'static str> }

/// type, complex, frequency domain
pub type Kind = (Ty, bool, bool);
pub const KINDS: [Kind; 8] = [(Ty::RT, false, false), (Ty::CT, true, false), (Ty::RF, false, true), (Ty::CF, true, true),
    (Ty::G, false, false), (Ty::G, true, false), (Ty::G, false, true), (Ty::G, true, true)];
pub fn real() -> Vec<Kind> { KINDS.iter().cloned().filter(|k| !k.1).collect() }
pub fn cplx() -> Vec<Kind> { KINDS.iter().cloned().filter(|k| k.1).collect() }
pub fn time() -> Vec<Kind> { KINDS.iter().cloned().filter(|k| !k.2).collect() }
pub fn freq() -> Vec<Kind> { KINDS.iter().cloned().filter(|k| k.2).collect() }
pub fn init(k: Kind, data: Vec<f64>) -> Init { Init { ty: k.0, cx: k.1, fr: k.2, delta: 1.0, data, slack: 0, align: 0, mc: MC1 } }

impl G {
    pub fn points(&mut self, max: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..=max).collect();
        for x in [47usize, 63, 64, 65, 100].iter() { if *x > max { v.push(*x); } }
        if self.rng.chance(30) { v.push(*self.rng.pick(&[127usize, 128, 129, 200, 255, 256, 257, 333, 512, 513, 1000, 1023, 1024, 1025])); }
        v
    }
    pub fn few(&mut self) -> usize { let v = [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 20, 24, 25, 31, 33]; *self.rng.pick(&v) }
    /// random storage details
    pub fn st(&mut self, mut i: Init) -> Init {
        i.slack = *self.rng.pick(&[0, 0, 0, 1, 2, 3, 5, 8, 40]);
        i.align = self.rng.below(8);
        i.delta = *self.rng.pick(&[1.0, 1.0, 0.5, 2.0, 0.25]);
        i
    }
    pub fn mk(&mut self, k: Kind, pts: usize, lo: i64, hi: i64) -> Init {
        let n = if k.1 { 2 * pts } else { pts };
        let d = self.rng.ints(n, lo, hi);
        let i = init(k, d);
        self.st(i)
    }
    /// runs the scenario in one world, with a random buffer
    pub fn put(&mut self, mut s: Scen) {
        if s.w == "" { s.w = self.rng.pick(&self.worlds.clone()).to_string(); }
        let big = s.ini.iter().map(|i| 20 * i.1.data.len()).max().unwrap_or(0).max(4096);
        s.bk = *self.rng.pick(&[Buf::Single, Buf::Single, Buf::Fixed, Buf::No]);
        s.bd = match s.bk { Buf::Single => *self.rng.pick(&[0, 1, 7, 64, 500]), _ => big };
        if s.w.starts_with('a') && big > 4096 { s.w = if g_std() { "v32" } else { "s32" }.into(); }
        if s.w.starts_with('a') || s.w.starts_with('b') || s.w.starts_with('s') { s.bk = Buf::Fixed; s.bd = big; }
        self.out.push(s);
    }
    pub fn threads(&mut self) -> [usize; 5] { let k = *self.rng.pick(&[1usize, 2, 3, 4]); if k == 1 { MC1 } else { mck(k) } }
}

pub fn generate(topic: &str, g: &mut G) -> bool {
    for _ in 0..g.reps {
        match topic {
            "perm" => perm(g), "pad" => padding(g), "split" => split(g), "diff" => diff(g), "arith" => arith(g), "smaller" => smaller(g), "stat" => stat(g), "dot" => dot(g), "map" => map(g), "modulo" => modulo(g), "cplxreal" => cplxreal(g), "window" => window(g), "dft" => dft(g), "sdft" => sdft(g),
            "conv" => conv(g), "mfr" => mfr(g), "corr" => corr(g), "interp" => interp(g), "lin" => lin(g), "ctor" => ctor(g), "convert" => convert(g), "elem" => elem(g), "hist" => crate::hist::hist(g, 25), "state" => crate::hist::state(g), "fail" => crate::hist::fail(g), "store" => crate::hist::store(g), "threads" => crate::hist::threads(g),
            "mat" => mat(g), "clone" => clones(g), "fn" => functions(g),
            _ => return false,
        }
    }
    true
}

fn perm(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(36) { for op in ["reverse", "swap_halves", "fft_shift", "ifft_shift"].iter() {
        let i = g.mk(*k, n, -100, 100);
        let inv = match *op { "fft_shift" => "ifft_shift", "ifft_shift" => "fft_shift", o => o };
        g.put(Scen::one(0, i, op, &[]).call(inv, 0, &[], &[]));
    } } }
}
fn padding(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(20) {
        for op in ["zero_pad", "zero_pad_b"].iter() { for o in 0..3 {
            let m = n + *g.rng.pick(&[1usize, 2, 3, 4, 5, 8, 11, 30]);
            let m = if g.rng.chance(5) { g.rng.below(n + 1) } else { m };
            let i = g.mk(*k, n, -100, 100);
            g.put(Scen::one(0, i, op, &[m as f64, o as f64]));
        } }
        for op in ["zero_interleave", "zero_interleave_b"].iter() {
            let f = *g.rng.pick(&[0, 1, 2, 3, 4, 5, 7]);
            let i = g.mk(*k, n, -100, 100);
            g.put(Scen::one(0, i, op, &[f as f64]));
        }
        for op in ["resize", "resize_b"].iter() { for _ in 0..2 {
            let m = g.rng.below(2 * n + 10);
            let i = g.mk(*k, n, -100, 100);
            g.put(Scen::one(0, i, op, &[m as f64]));
        } }
    } }
}
fn split(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(24) { for c in 1..6usize {
        // split into c targets of arbitrary previous size, then merge them again
        if n % c != 0 && !g.rng.chance(15) { continue; }
        let mut s = Scen::new(0);
        let i = g.mk(*k, n, -100, 100);
        s = s.ini(0, i);
        let same = g.rng.chance(50);
        for j in 0..c {
            let m = if same { n / c } else { g.rng.below(n + 3) };
            let i = g.mk(*k, m, -9, 9); s = s.ini(1 + j, i);
        }
        let i = g.mk(*k, n, -100, 100);
        s = s.ini(9, i);
        let t: Vec<usize> = (1..=c).collect();
        g.put(s.call("split_into", 0, &t, &[]).call("merge", 9, &t, &[]));
    } } 
    // sources of different size, no sources
    let (a, b, c) = (g.mk(*k, 6, -9, 9), g.mk(*k, 4, -9, 9), g.mk(*k, 6, -9, 9));
    g.put(Scen::new(0).ini(0, a.clone()).ini(1, b.clone()).ini(2, c.clone()).call("merge", 0, &[1, 2], &[]));
    g.put(Scen::new(0).ini(0, a.clone()).ini(1, b).ini(2, c).call("merge", 0, &[], &[]).call("split_into", 0, &[], &[]));
    }
}
fn diff(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(36) {
        for op in ["diff", "diff_with_start", "cum_sum"].iter() {
            let i = g.mk(*k, n, -100, 100); g.put(Scen::one(0, i, op, &[]));
        }
        let i = g.mk(*k, n, -100, 100);
        g.put(Scen::one(0, i, "diff_with_start", &[]).call("cum_sum", 0, &[], &[]));
    } }
}
/// divisors for which all quotients are multiples of 1/16
pub fn divisors(g: &mut G, k: Kind, pts: usize) -> Vec<f64> {
    let mut v = vec![];
    for _ in 0..pts {
        if k.1 { let c = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, -1.0), (2.0, 0.0), (0.0, -2.0), (-2.0, 2.0), (-1.0, 0.0), (-4.0, 0.0)];
            let (a, b) = *g.rng.pick(&c); v.push(a); v.push(b); }
        else { v.push(*g.rng.pick(&[1.0, -1.0, 2.0, -2.0, 4.0, 8.0, -16.0, 0.5])); }
    }
    v
}
fn arith(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(40) {
        for op in ["scale", "offset"].iter() { let a = g.rng.range(-9, 9) as f64; let i = g.mk(*k, n, -100, 100); g.put(Scen::one(0, i, op, &[a])); }
        for op in ["scale_c", "offset_c"].iter() { let a = [g.rng.range(-9, 9) as f64, g.rng.range(-9, 9) as f64]; let i = g.mk(*k, n, -100, 100); g.put(Scen::one(0, i, op, &a)); }
        for e in [1.0, -1.0] { let i = g.mk(*k, n, -100, 100); g.put(Scen::one(0, i, "abs", &[e])); }
        for op in ["abs", "conj"].iter() { let i = g.mk(*k, n, -100, 100); g.put(Scen::one(0, i, op, &[])); }
        for op in ["add", "sub", "mul"].iter() {
            let (i, mut j) = (g.mk(*k, n, -100, 100), g.mk(*k, n, -100, 100)); j.delta = i.delta;
            g.put(Scen::two(0, i, j, op, &[]));
        }
        let (i, mut j) = (g.mk(*k, n, -100, 100), g.mk(*k, n, -100, 100)); j.delta = i.delta; j.data = divisors(g, *k, n);
        g.put(Scen::two(4, i, j, "div", &[]));
    } }
}
fn smaller(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(30) { for m in 1..=n.max(1) {
        if n % m != 0 && !g.rng.chance(4) { continue; }
        for op in ["add_smaller", "sub_smaller", "mul_smaller", "div_smaller"].iter() {
            let (i, mut j) = (g.mk(*k, n, -100, 100), g.mk(*k, m, -100, 100)); j.delta = i.delta;
            let mut q = 0;
            if *op == "div_smaller" { j.data = divisors(g, *k, m); q = 4; }
            g.put(Scen::two(q, i, j, op, &[]));
        }
    } } }
}

/// complex or real variant of an operation, as the kind demands
pub fn cop(k: Kind, op: &str) -> String { if k.1 { format!("{}_c", op) } else { op.to_string() } }
fn stat(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(34) {
        for op in ["sum", "sum_sq", "sum_prec", "sum_sq_prec"].iter() { let i = g.mk(*k, n, -30, 30); g.put(Scen::one(6, i, &cop(*k, op), &[])); }
        for op in ["stats", "stats_prec"].iter() {
            // repeated and extreme values at random positions
            let (lo, hi) = *g.rng.pick(&[(-30, 30), (-2, 2), (1, 30), (-30, -1)]);
            let mut i = g.mk(*k, n, lo, hi);
            if n > 0 && g.rng.chance(50) { let p = g.rng.below(i.data.len()); i.data[p] = *g.rng.pick(&[30.0, -30.0, 0.0]); }
            g.put(Scen::one(6, i, &cop(*k, op), &[]));
        }
        for op in ["stats_split", "stats_split_prec"].iter() {
            let c = *g.rng.pick(&[1, 1, 2, 3, 4, 5, 7, 16, 17, 0]);
            let i = g.mk(*k, n, -30, 30); g.put(Scen::one(6, i, &cop(*k, op), &[c as f64]));
        }
        // an element so large that the others get lost unless the summation compensates for it
        if n > 0 {
            for kind in 0..3 { let c = *g.rng.pick(&[1, 2, 3, 4]).min(&n);
                let lo = *g.rng.pick(&[0i64, -40]);
                let mut i = g.mk(*k, n, lo, 60); for x in i.data.iter_mut() { *x /= 64.0; } i.data[0] = 0.0;
                let mut s = Scen::one(6, i, &cop(*k, "prec_big"), &[kind as f64, c as f64]); s.w = "v64".into(); g.put(s); }
        }
        if n > 0 && n < 40 {
            for kind in 1..4 { for w in ["v32", "v64"].iter() { if g.rng.chance(30) {
                let mut i = g.mk(*k, n, 1, 5);
                if k.1 { for x in i.data.chunks_mut(2) { x[0] = x[0].max(2.0); x[1] = 1.0; } }
                let mut s = Scen::one(0, i, &cop(*k, "prec_wide"), &[kind as f64, (4000 / n + 1) as f64]); s.w = w.to_string(); g.put(s); } } }
        }
        // squares which single precision would round
        if n > 0 && n <= 16 {
            for op in ["sum_sq_prec", "stats_prec", "stats_split_prec"].iter() {
                let i = g.mk(*k, n, -6000, 6000); let a: &[f64] = if *op == "stats_split_prec" { &[1.0] } else { &[] };
                let mut s = Scen::one(0, i, &cop(*k, op), a); s.w = "v32".into(); g.put(s);
            }
        }
        // large values and many small ones which single precision would lose
        if n > 2 && n <= 34 {
            let mut i = g.mk(*k, n, -30, 30); i.data[0] = 134217728.0; let l = i.data.len(); i.data[l - 1] = -134217720.0;
            for op in ["sum_prec"].iter() { let mut s = Scen::one(2, i.clone(), &cop(*k, op), &[]); s.w = "v32".into(); g.put(s); }
        }
    } }
}
fn dot(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(34) {
        for op in ["dot", "dot_prec"].iter() {
            let (i, j) = (g.mk(*k, n, -30, 30), g.mk(*k, n, -30, 30)); g.put(Scen::two(6, i, j, &cop(*k, op), &[]));
            if k.0 == Ty::G && n < 12 {
                // operands which do not fit
                let i = g.mk(*k, n, -30, 30);
                let k2 = (Ty::G, g.rng.chance(50), g.rng.chance(50));
                let m = g.rng.below(n + 4);
                let j = g.mk(k2, m, -30, 30);
                g.put(Scen::two(6, i.clone(), j.clone(), op, &[])); g.put(Scen::two(6, i, j, &format!("{}_c", op), &[]));
            }
            if n < 20 { let m = g.rng.below(n + 9); let (i, j) = (g.mk(*k, n, -30, 30), g.mk(*k, m, -30, 30)); g.put(Scen::two(6, i, j, &cop(*k, op), &[])); }
        }
    } }
}
fn map(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(30) {
        let a = [g.rng.range(-5, 5) as f64, g.rng.range(1, 9) as f64, g.rng.range(-9, 9) as f64];
        let i = g.mk(*k, n, -30, 30); g.put(Scen::one(4, i, &cop(*k, "map"), &a));
        for op in ["aggr_sum", "aggr_max"].iter() { if k.1 && *op == "aggr_max" { continue; } let i = g.mk(*k, n, -30, 30); g.put(Scen::one(4, i, &cop(*k, op), &a)); }
        if k.0 == Ty::G && n < 8 {
            for op in ["map", "map_c", "aggr_sum", "aggr_sum_c", "aggr_max"].iter() { let i = g.mk(*k, n, -30, 30); g.put(Scen::one(4, i, op, &a)); }
        }
    } }
}
fn modulo(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(30) {
        let d = g.rng.range(1, 12) as f64;
        if !k.1 {
            let i = g.mk(*k, n, -50, 50); g.put(Scen::one(4, i, "wrap", &[d]));
            let i = g.mk(*k, n, -50, 50); g.put(Scen::one(4, i, "unwrap", &[d]));
            // a signal with small steps comes back
            let mut i = g.mk(*k, n, 0, 0); let mut x = 0.0; let h = (d / 2.0).ceil() as i64 - 1;
            let up = g.rng.chance(50);
            for y in i.data.iter_mut() { *y = x; x += g.rng.range(if up { 0 } else { -h }, h) as f64; if x < 0.0 { x = 0.0; } }
            g.put(Scen::one(4, i, "wrap", &[d]).call("unwrap", 0, &[], &[d]));
        } else {
            let a = [g.rng.range(-9, 9) as f64, g.rng.range(-9, 9) as f64, *g.rng.pick(&[1.0, 2.0, 4.0, 3.0, 8.0, 16.0, 20.0])];
            let i = g.mk(*k, n, -50, 50); g.put(Scen::one(6, i, "mce", &a));
        }
        if k.0 == Ty::G && n < 4 { for op in ["wrap", "unwrap", "mce"].iter() { let i = g.mk(*k, n, -30, 30); g.put(Scen::one(6, i, op, &[1.0, 2.0, 4.0])); } }
    } }
}
fn cplxreal(g: &mut G) {
    let conv = ["to_real", "to_imag", "magnitude", "magnitude_squared", "phase", "to_real_b", "to_imag_b", "magnitude_b", "magnitude_squared_b", "phase_b"];
    let get = ["get_real", "get_imag", "get_magnitude", "get_magnitude_squared", "get_phase", "get_real_imag", "get_mag_phase"];
    for k in KINDS.iter() { for n in g.points(18) {
        if !k.1 { for op in ["to_complex", "to_complex_b"].iter() { let i = g.mk(*k, n, -90, 90); g.put(Scen::one(8, i, op, &[])); } }
        let rk = (if k.0 == Ty::G { Ty::G } else if k.2 { Ty::RF } else { Ty::RT }, false, k.2);
        if k.1 {
            for op in conv.iter() { let i = g.mk(*k, n, -90, 90); g.put(Scen::one(8, i, op, &[])); }
            for op in get.iter() {
                let i = g.mk(*k, n, -90, 90);
                let (c, d) = if n > 24 { (2 * n, 2 * n) } else { (2 * g.few(), 2 * g.few()) };
                let (mut a, mut b) = (g.mk(rk, c, -9, 9), g.mk(rk, d, -9, 9));
                if g.rng.chance(70) { a.slack = 2 * n; b.slack = 2 * n; }
                g.put(Scen::new(8).ini(0, i).ini(1, a).ini(2, b).call(op, 0, if op.ends_with("imag") && op.len() > 8 || *op == "get_mag_phase" { &[1, 2] } else { &[1] }, &[]));
            }
            for op in ["set_real_imag", "set_mag_phase"].iter() {
                let m = if g.rng.chance(20) { g.few() } else { n };
                let c = g.few();
                let (i, mut a, mut b) = (g.mk(*k, c, -90, 90), g.mk(rk, n, -90, 90), g.mk(rk, m, -3, 3));
                a.delta = 1.0; b.delta = 1.0;
                g.put(Scen::new(8).ini(0, i).ini(1, a).ini(2, b).call(op, 0, &[1, 2], &[]));
            }
            // there and back
            let i = g.mk(*k, n, -90, 90); let (a, b) = (g.mk(rk, 2 * n, -9, 9), g.mk(rk, 2 * n, -9, 9));
            g.put(Scen::new(8).ini(0, i.clone()).ini(1, a).ini(2, b).call("get_real_imag", 0, &[1, 2], &[]).call("set_real_imag", 0, &[1, 2], &[]));
        }
        if k.0 == Ty::G && n < 6 {
            for op in conv.iter().chain(["to_complex", "to_complex_b"].iter()) { let i = g.mk(*k, n, -90, 90); g.put(Scen::one(8, i, op, &[])); }
            for op in get.iter().chain(["set_real_imag", "set_mag_phase"].iter()) {
                let k2 = (Ty::G, g.rng.chance(50), g.rng.chance(50));
                let (i, a, b) = (g.mk(*k, n, -90, 90), g.mk(k2, 2 * n, -90, 90), g.mk(rk, 2 * n, -3, 3));
                if op.starts_with("set") && k2.1 { continue; }
                g.put(Scen::new(8).ini(0, i).ini(1, a).ini(2, b).call(op, 0, &[1, 2], &[]));
            }
        }
    } }
}
/// arguments of a window; `inv` if it has to be invertible
pub fn window_args(g: &mut G, inv: bool) -> [f64; 3] {
    let c = [0.0, 1.0, 2.0, 3.0, 4.0, 10.0, 11.0, 13.0, 14.0, 12.0];
    let kind = c[g.rng.below(if inv { 9 } else { 10 })];
    if kind == 14.0 { [kind, *g.rng.pick(&[34.0, 40.0, 50.0, 60.0]), 0.0] } else { [kind, g.rng.range(1, 5) as f64, g.rng.range(2, 7) as f64] }
}
fn window(g: &mut G) {
    for k in KINDS.iter() {
        if k.2 && k.0 != Ty::G { continue; }
        for n in g.points(40) { for op in ["apply_window", "unapply_window"].iter() { for rep in 0..2 {
            let a = window_args(g, *op == "unapply_window");
            let mut i = g.mk(*k, n, -20, 20); i.mc = g.threads();
            if rep == 0 { g.put(Scen::one(6, i, op, &a)); }
            else if WINV.contains(&(a[0] as i64)) { g.put(Scen::one(6, i, "apply_window", &a).call("unapply_window", 0, &[], &a)); }
        } } }
    }
}
/// windows which can be taken back exactly
const WINV: [i64; 3] = [2, 3, 13];
fn sizes_dft(g: &mut G) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=18).collect();
    for _ in 0..3 { v.push(*g.rng.pick(&[19usize, 20, 21, 23, 24, 25, 27, 31, 32, 33, 36, 45, 49, 64])); }
    if g.rng.chance(20) { v.push(*g.rng.pick(&[100usize, 101, 128])); }
    v
}
fn dft(g: &mut G) {
    for k in KINDS.iter() { for n in sizes_dft(g) {
        let fwd = ["plain_fft", "fft", "windowed_fft"]; let inv = ["plain_ifft", "ifft", "windowed_ifft"];
        for j in 0..3 {
            let a = window_args(g, true);
            let no: &[f64] = &[]; let wa: &[f64] = if j == 2 { &a } else { no };
            if !k.2 || k.0 == Ty::G {
                let i = g.mk(*k, n, -20, 20);
                let mut s = Scen::one(6, i, fwd[j], wa);
                if n < 40 && g.rng.chance(40) { s = s.call(inv[j], 0, &[], wa); }
                g.put(s);
            }
            if (k.2 && k.1) || k.0 == Ty::G {
                let i = g.mk(*k, n, -20, 20);
                let mut s = Scen::one(6, i, inv[j], wa);
                if n < 40 && g.rng.chance(30) { s = s.call(fwd[j], 0, &[], wa); }
                g.put(s);
            }
        }
    } }
}
fn sdft(g: &mut G) {
    for k in KINDS.iter() { for n in sizes_dft(g) { for j in 0..3 {
        let a = window_args(g, true);
        let no: &[f64] = &[]; let wa: &[f64] = if j == 2 { &a } else { no };
        if n > 40 && n % 2 == 0 && g.rng.chance(70) { continue; }
        let fwd = ["plain_sfft", "sfft", "windowed_sfft"]; let inv = ["plain_sifft", "sifft", "windowed_sifft"];
        if (k.0 == Ty::RT) || k.0 == Ty::G {
            let mut i = g.mk(*k, n, -20, 20);
            if g.rng.chance(50) && !k.1 { for m in 1..n { i.data[m] = i.data[n - m]; } }
            let mut s = Scen::one(6, i, fwd[j], wa);
            if g.rng.chance(30) { s = s.call(inv[j], 0, &[], wa); }
            g.put(s);
        }
        if k.0 == Ty::CF || k.0 == Ty::G {
            let mut i = g.mk(*k, n, -20, 20);
            if i.data.len() > 1 && !g.rng.chance(10) { i.data[1] = 0.0; }
            let mut s = Scen::one(6, i.clone(), inv[j], wa);
            if g.rng.chance(30) { s = s.call(fwd[j], 0, &[], wa); }
            g.put(s);
            g.put(Scen::one(6, i, "mirror", &[]));
        }
    } } }
}

/// a table of small integers around zero: symmetric, resolution, center, values
pub fn table(g: &mut G, cx: bool, sym: bool, res: f64, center: usize, mag: i64) -> Vec<f64> {
    let w = if cx { 2 } else { 1 };
    let mut t = g.rng.ints((2 * center + 1) * w, -mag, mag);
    if sym { for i in 0..center { for j in 0..w { t[(2 * center - i) * w + j] = t[i * w + j]; } } }
    let mut v = vec![if sym { 1.0 } else { 0.0 }, res, center as f64];
    v.extend(t); v
}
/// a function of the library (see Fn.tla): real and complex ones; tables end with zeros
pub fn libfn(g: &mut G, cx: bool) -> Vec<f64> {
    let kind = if cx { *g.rng.pick(&[4usize, 5, 6, 7]) } else { *g.rng.pick(&[2usize, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9]) };
    libfn_kind(g, kind, cx)
}
fn libfn_kind(g: &mut G, kind: usize, cx: bool) -> Vec<f64> {
    match kind {
        2 => vec![2.0, 1.0, 0.0],
        3 => vec![3.0, *g.rng.pick(&[2.0, 4.0, 6.0, 8.0, 1.0]), 0.0],
        6 | 7 => vec![kind as f64, *g.rng.pick(&[1.0, 2.0, 4.0]), g.rng.below(12) as f64],
        _ => {
            let w = if cx || kind >= 8 { 2 } else { 1 };
            // the table is symmetric around its middle
            let n = if kind % 2 == 1 { 1 + 2 * g.rng.below(7) } else { 1 + g.rng.below(14) };
            let mut t = g.rng.ints(n * w, -3, 3);
            if kind % 2 == 1 { for i in 0..n / 2 { for j in 0..w { t[(n - 1 - i) * w + j] = t[i * w + j]; } } }
            if g.rng.chance(70) { for j in 0..w { t[j] = 0.0; t[(n - 1) * w + j] = 0.0; } }
            let mut v = vec![kind as f64, *g.rng.pick(&[1.0, 2.0, 4.0]), g.rng.below(2) as f64];
            v.extend(t); v
        }
    }
}
/// a copy and its original do not influence each other
fn clones(g: &mut G) {
    for k in KINDS.iter() { for n in g.points(20) { for from in 0..2usize {
        let mut i = g.mk(*k, n, -100, 100); i.mc = mck(1 + g.rng.below(4)); i.delta = *g.rng.pick(&[0.25, 0.5, 1.0, 2.0]);
        let k2 = *g.rng.pick(&KINDS); let j = g.mk(k2, n, -50, 50);
        let mut s = Scen::two(0, i, j, "clone", &[]);
        for _ in 0..5 {
            let t = g.rng.below(2);
            let (op, a): (&str, Vec<f64>) = match g.rng.below(6) { 0 => ("scale", vec![2.0]), 1 => ("offset", vec![3.0]), 2 => ("zero_pad_b", vec![(2 * n + 3) as f64, 0.0]), 3 => ("reverse", vec![]), 4 => ("cum_sum", vec![]), _ => ("swap_halves", vec![]) };
            if op == "zero_pad_b" && s.calls.iter().any(|c| c.op == op) { continue; }
            s = s.call(op, t, &[], &a);
        }
        let l = s.ini[from].1.data.len();
        for l in [l.saturating_sub(1), l + 1, l + 2] { if g.rng.chance(40) { let d = g.rng.ints(l, -50, 50); s = s.call("write", from, &[], &d); } }
        s = s.call("clone", from, &[1 - from], &[]).call("add", 0, &[1], &[]);
        let sum = |cx: bool| if cx { "sum_c" } else { "sum" };
        let cx = k.1;
        s = s.call(sum(cx), 0, &[], &[]).call(sum(cx), 1, &[], &[]);
        g.put(s);
    } } }
}
/// values of the functions and the conversions of tables
fn functions(g: &mut G) {
    let world = |g: &mut G| g.rng.pick(&["c32", "c64"]).to_string();
    for fam in 0..4usize { for kind in 2..10usize {
        let cx = fam >= 2;
        if cx && (kind < 4 || kind > 7) { continue; }
        for rep in 0..12 {
            let f = libfn_kind(g, kind, cx);
            let mut s = Scen::new(12);
            let dens: &[f64] = if kind <= 3 { &[1.0, 2.0, 4.0, 8.0, 3.0, 5.0, 7.0] } else { &[1.0, 2.0, 4.0, 8.0, 16.0] };
            for _ in 0..24 {
                let den = *g.rng.pick(dens);
                let num = g.rng.range(-40, 40) as f64;
                let mut a = vec![fam as f64, num, den]; a.extend(&f);
                s = s.call("fn", 0, &[], &a);
            }
            // where the formula of the raised cosine can not be used, the edges of the response
            if kind == 3 { let b = f[1]; for (n, d) in [(4.0, b), (-4.0, b), (8.0 - b, 8.0), (8.0 + b, 8.0), (-8.0, 8.0), (0.0, 1.0)].iter() { let mut a = vec![fam as f64, *n, *d]; a.extend(&f); s = s.call("fn", 0, &[], &a);
                // the neighbours
                for u in 1..7 { a[0] = (fam + 8 * u) as f64; s = s.call("fn", 0, &[], &a); } } }
            if kind == 2 { for n in [0.0, 8.0, -8.0, 9.0, -7.0].iter() { let mut a = vec![fam as f64, *n, 8.0]; a.extend(&f); s = s.call("fn", 0, &[], &a); } }
            s.w = world(g);
            g.out.push(s);
            if kind >= 4 && rep < 10 { for conv in 0..5usize {
                let mut a = vec![conv as f64, fam as f64]; a.extend(&f);
                let mut s = Scen::new(if conv >= 3 { 6 } else { 12 }).call("fntable", 0, &[], &a);
                s.w = world(g);
                g.out.push(s);
            } }
        }
    } }
}
fn conv(g: &mut G) {
    let put = |g: &mut G, k: Kind, n: usize, ratio: (f64, f64), len: usize, center: usize, th: [usize; 5]| {
        for op in ["convolve", "convolve_c"].iter() {
            if *op == "convolve_c" && !k.1 && k.0 != Ty::G { continue; }
            let sym = g.rng.chance(40);
            let mut i = g.mk(k, n, -9, 9); i.mc = th;
            let mut a = vec![ratio.0, ratio.1, len as f64];
            a.extend(table(g, *op == "convolve_c", sym, ratio.1, center, 3));
            let mut s = Scen::one(0, i, op, &a);
            let l: Vec<&'static str> = g.worlds.iter().cloned().filter(|w| *w != "s32").collect(); s.w = g.rng.pick(&l).to_string();
            g.put(s);
        }
    };
    let signal = |g: &mut G, k: Kind, n: usize, m: usize, q: i32, sparse: bool, th: [usize; 5]| {
        let (mut i, mut j) = (g.mk(k, n, -9, 9), g.mk(k, m, -5, 5));
        if g.rng.chance(92) { j.delta = i.delta; }
        i.mc = th;
        if sparse { for x in 0..m { if !g.rng.chance(1500 / m.max(15)) { if k.1 { j.data[2 * x] = 0.0; j.data[2 * x + 1] = 0.0; } else { j.data[x] = 0.0; } } }
            let l = j.data.len(); j.data[0] = 2.0; j.data[l - 1] = 3.0; j.data[l / 2] = -1.0; }
        let mut s = Scen::two(q, i, j, "convolve_signal", &[]);
        let l: Vec<&'static str> = g.worlds.iter().cloned().filter(|w| *w != "s32").collect(); s.w = g.rng.pick(&l).to_string();
        if s.q == 2 { s.w = "v64".into(); }
        g.put(s);
    };
    for k in KINDS.iter() {
        if k.2 && k.0 != Ty::G { continue; }
        for n in 0..26usize {
            let den = *g.rng.pick(&[1.0, 2.0, 4.0]); let num = *g.rng.pick(&[1.0, 1.0, 2.0, 3.0, 5.0]);
            let len = g.rng.below(n + 4);
            let c = g.rng.below(2 + (len as f64 * num) as usize); let th = g.threads();
            put(g, *k, n, (num, den), len, c, th);
            for op in ["convolve", "convolve_c"].iter() {
                if n > 18 || (*op == "convolve_c" && !k.1 && k.0 != Ty::G) { continue; }
                let i = g.mk(*k, n, -9, 9);
                let mut a = vec![num.min(3.0), den, g.rng.below(10) as f64];
                a.extend(libfn(g, *op == "convolve_c"));
                g.put(Scen::one(6, i, op, &a));
            }
            for _ in 0..3 { let m = if g.rng.chance(90) { g.rng.below(n + 1) } else { g.rng.below(n + 5) }; let th = g.threads(); signal(g, *k, n, m, 0, false, th); }
        }
        for _ in 0..2 { let m = 1 + g.rng.below(40); let th = g.threads(); let n = 60 + g.rng.below(90); signal(g, *k, n, m, 0, false, th); }
    }
    for k in time() {
        // long enough for the optimized implementations
        for _ in 0..3 {
            let n = if k.1 { 501 + g.rng.below(60) } else { 1001 + g.rng.below(100) };
            let m = *g.rng.pick(&[6usize, 7, 8, 11, 12, 13, 14, 15, 16, 17, 25, 33, 60, 100, 101, 102]);
            let th = g.threads();
            signal(g, k, n, m, 0, false, th);
            let n = if k.1 { 1001 + g.rng.below(30) } else { 2001 + g.rng.below(60) };
            let len = 6 + g.rng.below(20); let c = len + 1; let th = g.threads();
            put(g, k, n, (1.0, 1.0), len, c, th);
        }
    }
    for k in time() { if !k.1 { continue; }
        // Fourier transforms of blocks
        let n = *g.rng.pick(&[5001usize, 5002, 5119, 5300, 5500, 6143, 7373]);
        let m = *g.rng.pick(&[102usize, 103, 127, 128, 129, 200, 250, 257]);
        signal(g, k, n, m.min((n - 1) / 10), 2, true, MC1);
    }
}
fn mfr(g: &mut G) {
    for k in KINDS.iter() {
        if !k.2 && k.0 != Ty::G { continue; }
        let mut ns: Vec<usize> = (0..34).collect(); ns.extend([47usize, 64, 65, 100, 333, 1024].iter());
        for n in ns { for rep in 0..2 { for op in ["mfr", "mfr_c"].iter() {
            if *op == "mfr_c" && !k.1 && k.0 != Ty::G { continue; }
            let sym = rep == 0;
            let (num, den) = *g.rng.pick(&[(1.0, 1.0), (1.0, 1.0), (1.0, 2.0), (2.0, 1.0), (3.0, 1.0), (3.0, 4.0)]);
            let max = (n / 2).max(1);
            let c = g.rng.below((max as f64 * num) as usize + 3);
            let mut i = g.mk(*k, n, -9, 9); i.mc = g.threads();
            let mut a = vec![num, den];
            a.extend(table(g, *op == "mfr_c", sym, max as f64 * den, c, 5));
            g.put(Scen::one(2, i, op, &a));
            if n > 100 { continue; }
            let mut i = g.mk(*k, n, -9, 9); i.mc = g.threads();
            let mut a = vec![*g.rng.pick(&[1.0, 2.0]), *g.rng.pick(&[1.0, 2.0])];
            a.extend(libfn(g, *op == "mfr_c"));
            g.put(Scen::one(6, i, op, &a));
        } } }
    }
}
fn corr(g: &mut G) {
    for k in KINDS.iter() {
        if !k.1 && k.0 != Ty::G { continue; }
        for n in 0..18usize {
            for op in ["prepare_argument", "prepare_argument_padded"].iter() {
                if !k.2 || (k.0 == Ty::G && n < 5) { let i = g.mk(*k, n, -9, 9); g.put(Scen::one(6, i, op, &[])); }
            }
            if k.2 { continue; }
            // the whole procedure
            for op in ["prepare_argument", "prepare_argument_padded"].iter() {
                let d = g.rng.below(4); let m = if g.rng.chance(50) { n } else { n + d };
                let (mut i, j) = (g.mk(*k, n, -4, 4), g.mk(*k, m, -4, 4)); i.mc = g.threads();
                g.put(Scen::new(4).ini(0, i).ini(1, j).call(op, 1, &[], &[]).call("correlate", 0, &[1], &[]));
            }
            let fk = (if k.0 == Ty::G { Ty::G } else { Ty::CF }, if k.0 == Ty::G && g.rng.chance(30) { g.rng.chance(50) } else { true }, if k.0 == Ty::G { !g.rng.chance(10) } else { true });
            let m = g.rng.below(2 * n + 3);
            let (i, j) = (g.mk(*k, n, -4, 4), g.mk(fk, m, -4, 4));
            g.put(Scen::two(4, i, j, "correlate", &[]));
        }
    }
}
fn interp(g: &mut G) {
    if cfg!(feature = "std") && !cfg!(feature = "use_sse2") && !cfg!(feature = "use_avx2") && !cfg!(feature = "cif") { interp_delay_finding(g); }
    for k in KINDS.iter() {
        for n in 0..20usize { for _ in 0..2 {
            let (fnum, fden) = *g.rng.pick(&[(1.0, 1.0), (2.0, 1.0), (3.0, 1.0), (4.0, 1.0), (5.0, 1.0), (3.0, 2.0), (5.0, 4.0), (7.0, 2.0), (1.0, 2.0)]);
            let fnum: f64 = fnum; let fden: f64 = fden;
            let (dnum, dden) = *g.rng.pick(&[(0.0, 1.0), (0.0, 1.0), (1.0, 1.0), (-1.0, 2.0), (3.0, 4.0), (2.0, 1.0)]);
            let len = 1 + g.rng.below(7);
            let mut i = g.mk(*k, n, -20, 20); i.mc = g.threads();
            let res = fnum * dden * 4.0;
            let sym = g.rng.chance(50);
            let c = g.rng.below((len as f64 * res) as usize + 9);
            let mut a = vec![fnum, fden, dnum, dden, len as f64];
            a.extend(table(g, false, sym, res, c, 3));
            g.put(Scen::one(0, i, "interpolatef", &a));
            let mut i = g.mk(*k, n, -9, 9); i.mc = g.threads();
            let mut a = vec![fnum, fden, dnum, dden, len as f64]; a.extend(libfn(g, false));
            g.put(Scen::one(6, i, "interpolatef", &a));
        } }
        for n in 0..10usize {
            let f = g.rng.below(4); let sym = g.rng.chance(70);
            let c = g.rng.below((f + 1) * n + 3);
            let i = g.mk(*k, n, -8, 8);
            let mut a = vec![f as f64]; a.extend(table(g, false, sym, n.max(1) as f64, c, 3));
            g.put(Scen::one(6, i, "interpolatei", &a));
            let i = g.mk(*k, n, -8, 8);
            let mut a = vec![*g.rng.pick(&[2.0, 3.0, 4.0])]; a.extend(libfn(g, false));
            g.put(Scen::one(6, i, "interpolatei", &a));
            for j in 0..3 {
                if n == 0 { continue; }
                let m: usize = match j { 0 => g.rng.below(3 * n + 1).max(1), 1 => n, _ => n + g.rng.below(2 * n) };
                let (dnum, dden) = *g.rng.pick(&[(0.0, 1.0), (0.0, 1.0), (1.0, 1.0), (-1.0, 2.0), (3.0, 4.0), (2.0, 1.0)]);
                let mut a = vec![m as f64, dnum, dden];
                if g.rng.chance(50) { let c = g.rng.below(m + 3); let sym = g.rng.chance(70); a.extend(table(g, false, sym, n as f64, c, 3)); }
                let i = g.mk(*k, n, -8, 8);
                g.put(Scen::one(6, i, "interpolate", &a));
                let i = g.mk(*k, n, -8, 8);
                let mut a = vec![m as f64, dnum, dden]; a.extend(libfn(g, false));
                g.put(Scen::one(6, i, "interpolate", &a));
                let i = g.mk(*k, n, -8, 8);
                g.put(Scen::one(6, i, "interpft", &[m as f64]));
            }
        }
        // long enough for the optimized implementation
        for _ in 0..2 {
            let f = *g.rng.pick(&[1usize, 2, 4]);
            let n = (2000 / f) / (if k.1 { 2 } else { 1 }) + g.rng.below(40);
            let len = 2 + g.rng.below(9);
            let mut i = g.mk(*k, n, -20, 20); i.mc = g.threads();
            let sym = g.rng.chance(50);
            let mut a = vec![f as f64, 1.0, 0.0, 1.0, len as f64];
            let c = g.rng.below(len * f * 4 + 3);
            a.extend(table(g, false, sym, f as f64 * 4.0, c, 3));
            g.put(Scen::one(0, i, "interpolatef", &a));
        }
    }
}
/// long enough for the optimized implementations: groups of scenarios with different thread settings
pub fn long_threads(g: &mut G) {
    for k in time() { for j in 0..7 {
        let w = if k.1 { 2 } else { 1 };
        let mut s = match j {
            0 | 1 => {
                let f = *g.rng.pick(&[1usize, 2, 3, 4, 5]);
                let i = { let n = 2000 / f / w + g.rng.below(40); g.mk(k, n, -9, 9) };
                let len = 2 + g.rng.below(5); let sym = g.rng.chance(50);
                let mut a = vec![f as f64, 1.0, 0.0, 1.0, len as f64];
                let c = len * f * 4; a.extend(table(g, false, sym, f as f64 * 4.0, c, 3));
                Scen::one(0, i, "interpolatef", &a)
            }
            2 | 3 => {
                let cx = j == 3; if cx && !k.1 { continue; }
                let i = { let n = 2001 / w + g.rng.below(60); g.mk(k, n, -9, 9) };
                let len = 6 + g.rng.below(10); let sym = g.rng.chance(50);
                let mut a = vec![1.0, 1.0, len as f64]; a.extend(table(g, cx, sym, 1.0, len + 1, 3));
                Scen::one(0, i, if cx { "convolve_c" } else { "convolve" }, &a)
            }
            4 | 5 => {
                let i = { let n = 1001 / w + g.rng.below(60); g.mk(k, n, -9, 9) };
                let m = *g.rng.pick(&[6usize, 11, 13, 16, 25, 33, 60]);
                let mut h = g.mk(k, m, -5, 5); h.delta = i.delta;
                Scen::two(0, i, h, "convolve_signal", &[])
            }
            _ => {
                if !k.1 { continue; }
                let i = { let n = 5001 + g.rng.below(400); g.mk(k, n, -9, 9) };
                let m = *g.rng.pick(&[103usize, 128, 129, 200]);
                let mut h = g.mk(k, m, -5, 5); h.delta = i.delta;
                for x in 0..2 * m { if !g.rng.chance(7) { h.data[x] = 0.0; } }
                Scen::two(2, i, h, "convolve_signal", &[])
            }
        };
        s.w = if s.q == 2 || g.rng.chance(50) { "v64" } else { "v32" }.into();
        if cfg!(feature = "cif") { s.w = s.w.replace('v', "c"); }
        s.grp = g.out.len() + 1;
        for i in s.ini.iter_mut() { i.1.slack = 0; i.1.mc = MC1; }
        g.out.push(s.clone());
        let l = s.ini[0].1.data.len();
        for x in 0..if j == 6 { 1 } else { 2 } {
            let mut t = s.clone();
            let n = *g.rng.pick(&[2usize, 3, 4, 5, 6, 7, 8]);
            // all threads, or as many as there are with thresholds in the middle of the length
            let mc = if x == 0 { mck(n) } else { let d = g.rng.below(l); let e = g.rng.below(2 * l); [n, d, d + 1 + g.rng.below(l), e, e + 1 + g.rng.below(2 * l)] };
            for i in t.ini.iter_mut() { i.1.mc = mc; }
            g.out.push(t);
        }
    } }
}
fn interp_delay_finding(g: &mut G) {
    // the optimized implementation shifts in the other direction (known finding)
    let mut d = vec![0.0; 1000]; d[500] = 1.0; d[3] = 2.0;
    let mut s = Scen::one(0, init(KINDS[0], d), "interpolatef", &[2.0, 1.0, 1.0, 1.0, 3.0, 1.0, 2.0, 6.0, 1.0, 0.0, 2.0, 0.0, 3.0, 0.0, 5.0, 0.0, 3.0, 0.0, 2.0, 0.0, 1.0]);
    s.w = "v64".into(); s.bk = Buf::Single;
    g.out.push(s);
}
fn lin(g: &mut G) {
    for k in KINDS.iter() {
        for n in 0..40usize {
            let f = 1 + g.rng.below(5); let d = g.rng.below(n + 3);
            let i = g.mk(*k, n, -99, 99);
            let d = if g.rng.chance(50) { 0.0 } else { d as f64 };
            g.put(Scen::one(0, i, "decimatei", &[f as f64, d]));
            let i = g.mk(*k, n, -99, 99);
            g.put(Scen::one(0, i, "zero_interleave", &[f as f64]).call("decimatei", 0, &[], &[f as f64, 0.0]));
            if k.1 && (k.0 != Ty::G || n > 5) { continue; }
            for op in ["interpolate_lin", "interpolate_hermite"].iter() {
                let (fnum, fden) = *g.rng.pick(&[(1.0, 1.0), (2.0, 1.0), (3.0, 1.0), (4.0, 1.0), (5.0, 1.0), (3.0, 2.0), (5.0, 4.0), (7.0, 2.0), (1.0, 2.0), (10.0, 3.0)]);
                let (dnum, dden) = *g.rng.pick(&[(0.0, 1.0), (0.0, 1.0), (1.0, 1.0), (-1.0, 2.0), (3.0, 4.0), (1.0, 4.0), (2.0, 1.0), (-5.0, 4.0)]);
                let i = g.mk(*k, n, -30, 30);
                g.put(Scen::one(6, i, op, &[fnum, fden, dnum, dden]));
            }
        }
    }
}

/// vectors made from containers and back
fn ctor(g: &mut G) {
    for cont in 0..9usize { for how in 0..9usize { for st in 0..4usize {
        let (cx, fr) = (st & 1 == 1, st & 2 == 2);
        for route in 0..37usize {
            if how > 4 && ![0, 1, 2, 3, 4, 15, 36].contains(&route) { continue; }
            for rep in 0..2 {
                let n = if rep == 0 { g.rng.below(7) } else { *g.rng.pick(&[0usize, 1, 2, 3, 8, 9, 16, 17, 33, 50]) };
                // 0: nothing, 1: shrunk afterwards, > 1: spare capacity
                let m = if cont == 8 { if g.rng.chance(85) { n } else { g.rng.below(7) } } else { *g.rng.pick(&[0usize, 0, 1, 1, 2, 3, 5, 16]) };
                let pts = if cx && ![1, 5, 6, 8].contains(&cont) { n / 2 } else { n };
                let i = g.rng.below(pts + 1); let j = if g.rng.chance(92) { (i + g.rng.below(pts - i.min(pts) + 1)).min(pts) } else { g.rng.below(pts + 4) };
                let i = if g.rng.chance(4) { i + 3 } else { i };
                let i = if [1, 6, 11, 21, 26, 31].contains(&route) && i == pts && pts > 0 && !g.rng.chance(5) { i - 1 } else { i };
                let dl = *g.rng.pick(&[4096.0, 1024.0, 8192.0]);
                let mut s = Scen::new(0).call("ctor", 0, &[], &[cont as f64, how as f64, cx as u8 as f64, fr as u8 as f64, n as f64, m as f64, dl, route as f64, i as f64, j as f64]);
                s.w = g.rng.pick(&["c32", "c64"]).to_string();
                g.out.push(s);
            }
        }
    } } }
}
/// static types, run time type and back
fn convert(g: &mut G) {
    let ops = ["to_gen", "to_rt", "to_ct", "to_rf", "to_cf", "to_rt_force", "to_ct_force", "to_rf_force", "to_cf_force", "runtime"];
    for k in KINDS.iter() { for n in g.points(12) { for op in ops.iter() {
        let n = if op.ends_with("force") || *op == "runtime" { n / 2 * 2 } else { n };
        let a: Vec<f64> = if *op == "runtime" { vec![g.rng.below(2) as f64, g.rng.below(2) as f64] } else { vec![] };
        let mut i = g.mk(*k, n, -99, 99); i.mc = mck(1 + g.rng.below(4));
        let mut s = Scen::one(0, i, op, &a);
        let back = ["to_gen", "to_rt", "to_ct", "to_rf", "to_cf"][g.rng.below(5)];
        s = s.call(back, 0, &[], &[]).call("scale", 0, &[], &[2.0]);
        g.put(s);
    } } }
}

/// Elementary functions. The data are sixteenths; the range covers the domain of the function and, rarely, what is outside.
fn elem(g: &mut G) {
    let ops = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sqrt", "square", "root", "powf", "ln", "exp", "log", "expf",
        "ln_approx", "exp_approx", "sin_approx", "cos_approx", "log_approx", "expf_approx", "powf_approx"];
    for k in KINDS.iter() { for op in ops.iter() {
        let approx = op.ends_with("_approx");
        if k.1 && approx && (k.0 != Ty::G || !g.rng.chance(20)) { continue; }
        for r in 0..3 {
            let n = match r { 0 => g.rng.below(6), 1 => g.few(), _ => { let p = g.points(8); *g.rng.pick(&p) } };
            let n = if k.1 { n.min(300) } else { n };
            let outside = g.rng.chance(25);
            let (lo, hi) = match op.trim_end_matches("_approx") {
                "asin" | "acos" | "atanh" if !k.1 => if outside { (-20, 20) } else { (-15, 15) },
                "acosh" if !k.1 => if outside { (8, 60) } else { (16, 60) },
                "sqrt" | "ln" | "log" | "root" if !k.1 => if outside { (-10, 60) } else if g.rng.chance(30) { (1, 3000) } else { (1, 60) },
                "powf" if !k.1 => if outside { (-50, 50) } else { (1, 60) },
                "sin" | "cos" | "tan" | "atan" if !k.1 => (-130, 130),
                "exp" if !k.1 => (-200, 150),
                "tanh" | "square" | "asinh" if !k.1 => (-200, 200),
                "sin" | "cos" | "sinh" | "cosh" | "exp" => (-60, 60),
                "expf" => (-40, 40),
                _ => (-34, 34),
            };
            let mut i = g.mk(*k, n, lo, hi);
            for x in i.data.iter_mut() { *x /= 16.0; }
            i.mc = g.threads();
            let a: Vec<f64> = match op.trim_end_matches("_approx") {
                "root" => { let p = g.rng.pick(&[(1, 1), (2, 1), (3, 1), (-1, 1), (1, 2), (-2, 1), (3, 2)]); vec![p.0 as f64, p.1 as f64] }
                "powf" => { let p = g.rng.pick(&[(1, 1), (2, 1), (3, 1), (-1, 1), (1, 2), (-2, 1), (5, 2), (0, 1), (-1, 2)]); vec![p.0 as f64, p.1 as f64] }
                "log" | "expf" => { let p = g.rng.pick(&[(2, 1), (10, 1), (1, 2), (3, 2), (16, 1)]); vec![p.0 as f64, p.1 as f64] }
                _ => vec![],
            };
            g.put(Scen::one(12, i, op, &a));
        }
    } }
}

fn g_std() -> bool { cfg!(feature = "std") }

/// Scenarios of vectors with a matrix in place of a vector: each row is a rearrangement of the vector.
fn mat(g: &mut G) {
    let per_op = if g.thorough { 60 } else { 24 };
    let mut all: std::collections::BTreeMap<String, Vec<Scen>> = Default::default();
    for t in ["perm", "pad", "diff", "arith", "smaller", "stat", "dot", "map", "modulo", "cplxreal", "window", "dft", "sdft", "conv", "mfr", "corr", "interp", "lin", "elem", "convert"].iter() {
        let mut h = G { rng: Rng(g.rng.next()), out: vec![], reps: 1, thorough: false, worlds: vec!["v64"] };
        generate(t, &mut h);
        for s in h.out { let op = s.calls[0].op.clone(); let k = s.ini[0].1.ty.s(); all.entry(format!("{} {}{}{}", op, k, s.ini[0].1.cx, s.ini[0].1.fr)).or_default().push(s); }
    }
    for (_, l) in all.iter() { for _ in 0..per_op {
        let s = g.rng.pick(l).clone();
        if s.ini.iter().any(|i| i.1.data.len() > 600 && !g.rng.chance(10)) { continue; }
        let s = lift(g, s);
        g.out.push(s);
    } }
    // channels
    for k in KINDS.iter() { for n in 1..6usize { for v in 0..8 {
        let (rows, cols) = match v { 4 => (n + 1, n), 5 => (n, n + 1), 6 => (n - 1, n), 7 => (n, n - 1), _ => (n, n) };
        if (v > 3 && g.rng.chance(50)) || rows * cols == 0 { continue; }
        let len = 1 + g.rng.below(30);
        let mut s = Scen::new(0);
        s.w = world(g, n);
        s.bk = Buf::Single; s.bd = *g.rng.pick(&[0, 1, 7, 64, 500]);
        for j in 0..n { let mut i = g.mk(*k, len, -9, 9); i.delta = 0.5; i.slack = *g.rng.pick(&[0, 0, 1, 5]); s = s.ini(j, i); }
        let l = 1 + g.rng.below(len);
        let mut o = vec![];
        for j in 0..rows * cols {
            let l = if g.rng.chance(1) { 1 + g.rng.below(len) } else { l };
            let mut i = g.mk(*k, l, -5, 5); i.delta = if g.rng.chance(1) { 0.25 } else { 0.5 };
            if g.rng.chance(15) { for y in i.data.iter_mut() { *y = 0.0; } }
            s = s.ini(100 + j, i); o.push(100 + j);
        }
        s = s.call("m.build", 0, &[], &[n as f64, 0.0, 0.0, 0.0]).call("m.convolve_mat", 0, &o, &[cols as f64]);
        if g.rng.chance(30) { s = s.call("m.convolve_mat", 0, &o, &[cols as f64]); }
        g.out.push(s);
    } } }
    // every way to make a matrix
    for k in KINDS.iter() { for how in 0..5 { for n in 0..6 { for cx in 0..2 { for fr in 0..2 {
        if how != 1 && cx + fr > 0 { continue; }
        let len = g.rng.below(8);
        let w = world(g, n);
        let mut s = Scen::new(0);
        s.w = w;
        for j in 0..n { let mut i = g.mk(*k, len, -9, 9); i.delta = 0.5; s = s.ini(j, i); }
        s = s.call("m.build", 0, &[], &[n as f64, how as f64, cx as f64, fr as f64]);
        let op = *g.rng.pick(&["m.reverse", "m.to_gen", "m.to_CT_force", "m.to_RF_force", "m.diff", "m.cum_sum", "m.to_RT_force", "m.to_CF_force"]);
        let mut op = op.to_lowercase();
        if len % 2 == 1 && op.starts_with("m.to_c") { op = "m.to_gen".to_string(); }   // half a complex number
        let s = s.call(&op, 0, &[], &[]);
        let s = if g.rng.chance(30) { let d = *g.rng.pick(&[1024.0, 2048.0, 4096.0, 8192.0]); s.call("m.set_delta", 0, &[], &[d]) } else { s };
        g.out.push(s.call("m.dissolve", 0, &[], &[]));
    } } } } }
}
fn world(g: &mut G, n: usize) -> String {
    let any = *g.rng.pick(&["m32", "m64"]);
    match n { 2 => *g.rng.pick(&[any, "n64", "n64"]), 3 => *g.rng.pick(&[any, "p32", "p32"]), 4 => *g.rng.pick(&[any, "q64", "q64"]), _ => any }.to_string()
}
fn lift(g: &mut G, s: Scen) -> Scen {
    let n = *g.rng.pick(&[1usize, 2, 2, 3, 3, 4, 4, 5]);
    let mut r = Scen::new(s.q);
    r.nq = s.nq; r.hdr = s.hdr.clone(); r.sc = s.sc.clone();
    r.w = world(g, n);
    r.bk = Buf::Single; r.bd = *g.rng.pick(&[0, 1, 7, 64, 500]);
    let first = s.ini[0].1.clone();
    fn turned(g: &mut G, i: &Init) -> Init {
        let mut i = i.clone();
        let p = if i.cx { 2 } else { 1 };
        let n = i.data.len() / p;
        if n > 0 { let k = g.rng.below(n); i.data.rotate_left(k * p); }
        i.slack = *g.rng.pick(&[0, 0, 1, 3, 8]);
        i
    }
    let mut build = vec![];
    let multi = s.calls.iter().any(|c| c.op == "convolve_signal") && g.rng.chance(60);
    for (k, i) in &s.ini {
        let target = s.calls.iter().any(|c| c.t == *k);
        let both = s.calls.iter().all(|c| ["add", "sub", "mul", "div", "add_smaller", "sub_smaller", "mul_smaller", "div_smaller", "dot", "dot_c", "dot_prec", "dot_prec_c"].contains(&&c.op[..]));
        let single = s.calls.iter().any(|c| c.op == "convolve_signal");
        if !target && multi {
            // a response for every pair of rows
            let shape = if g.rng.chance(8) { n * (n + 1) } else { n * n };
            for j in 0..shape {
                let mut x = turned(g, i);
                if g.rng.chance(20) { for y in x.data.iter_mut() { *y = 0.0; } }
                if g.rng.chance(1) { x.data.truncate(x.data.len() / 2 / 2 * 2); }
                r = r.ini(100 + j, x);
            }
            continue;
        }
        if !target && (single || (both && g.rng.chance(40))) { r = r.ini(10 * k, i.clone()); continue; }
        for j in 0..n { let x = if j == 0 { i.clone() } else { turned(g, i) }; r = r.ini(10 * k + j, x); }
        build.push(10 * k);
    }
    let _ = first;
    for b in build { r = r.call("m.build", b, &[], &[n as f64, 0.0, 0.0, 0.0]); }
    for c in &s.calls {
        let o: Vec<usize> = c.o.iter().map(|x| 10 * x).collect();
        let odd = s.ini.iter().any(|i| !i.1.cx && i.1.data.len() % 2 == 1);
        let op = match &c.op[..] {
            "to_ct" | "to_cf" | "to_ct_force" | "to_cf_force" if odd => "m.to_gen".to_string(),   // half a complex number
            "to_rt" | "to_ct" | "to_rf" | "to_cf" => format!("m.{}_force", c.op),
            x => format!("m.{}", x),
        };
        if c.op == "convolve_signal" && multi {
            let o: Vec<usize> = r.ini.iter().map(|i| i.0).filter(|k| *k >= 100).collect();
            let cols = if g.rng.chance(5) { n + 1 } else { n };
            r = r.call("m.convolve_mat", 10 * c.t, &o, &[cols as f64]);
        } else { r = r.call(&op, 10 * c.t, &o, &c.a); }
    }
    if g.rng.chance(20) { r = r.call("m.dissolve", 10 * s.calls[0].t, &[], &[]); }
    r
}
