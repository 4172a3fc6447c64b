//! Long random histories over all operations.  A history is found by running it: the next call is chosen
//! such that it is a legal call in the state the slots are in, with data small enough for the specification.
use crate::core::*;
use crate::scen::*;
use crate::topics::*;
use crate::worlds;

const MAXLEN: usize = 64;
const N: usize = 4;

fn ints(d: &[f64]) -> bool { d.iter().all(|x| *x == x.trunc()) }
fn mag(d: &[f64]) -> f64 { d.iter().fold(0.0f64, |m, x| if x.is_nan() { f64::INFINITY } else { m.max(x.abs()) }) }
fn call(op: &str, t: usize, o: &[usize], a: &[f64]) -> Call { Call { op: op.into(), t, o: o.to_vec(), a: a.to_vec() } }

struct H<'a> { g: &'a mut G, w: &'a mut Box<dyn World>, done: Vec<Call>, force: Option<(usize, &'static str)>, t: Option<usize>, fill: bool }

impl<'a> H<'a> {
    fn pick(&mut self, v: &[&'static str]) -> &'static str { match self.force { Some((_, o)) => o, None => *self.g.rng.pick(v) } }
    fn sub(&mut self, op: &'static str, v: &[&'static str]) -> &'static str { if self.force.is_some() { op } else { *self.g.rng.pick(v) } }
    fn snap(&self, k: usize) -> Snap { self.w.snap(k).unwrap() }
    /// runs a call; false if it can not be continued
    fn run(&mut self, c: Call) -> bool {
        match self.w.call(&c) {
            Out::Na => true,
            Out::Panic(_) => { self.done.push(c); false }
            _ => { self.done.push(c); true }
        }
    }
    /// like run; elements which the operation leaves unspecified are written afterwards
    fn run_fill(&mut self, c: Call) -> bool {
        let (k, re) = (c.t, c.op.starts_with("resize"));
        if !self.run(c) { return false; }
        if !re || !self.fill { return true; }
        let n = self.snap(k).data.len();
        let d = self.g.rng.ints(n, -9, 9);
        self.run(call("write", k, &[], &d))
    }
    /// small integers as data of slot k if it has anything else
    fn small(&mut self, k: usize, lim: f64, exact: bool) -> bool {
        let s = self.snap(k);
        if s.data.len() > 0 && (mag(&s.data) > lim || (exact && !ints(&s.data))) {
            let d = self.g.rng.ints(s.data.len(), -9, 9);
            return self.run(call("write", k, &[], &d));
        }
        true
    }
    fn delta(&mut self, k: usize, exact: bool) -> bool {
        let s = self.snap(k);
        let d = s.delta * 4096.0;
        if d.is_nan() { return true; }
        if !(d >= 64.0 && d <= 1048576.0) || (exact && d % 1024.0 != 0.0) {
            let x = *self.g.rng.pick(&[1024.0, 2048.0, 4096.0, 8192.0]);
            return self.run(call("set_delta", k, &[], &[x]));
        }
        true
    }
}

const PLAIN: [&str; 38] = ["reverse", "swap_halves", "fft_shift", "ifft_shift", "conj", "abs", "to_gen", "to_rt", "to_ct", "to_rf", "to_cf",
    "to_real", "to_imag", "to_real_b", "to_imag_b", "to_complex", "to_complex_b", "mirror", "diff", "diff_with_start", "cum_sum",
    "magnitude", "magnitude_b", "phase", "phase_b", "plain_fft", "fft", "plain_ifft", "ifft", "plain_sfft", "sfft", "plain_sifft", "sifft",
    "prepare_argument", "prepare_argument_padded", "magnitude_squared", "magnitude_squared_b", "to_complex"];
const ARG: [&str; 24] = ["resize", "resize_b", "zero_pad", "zero_pad_b", "zero_interleave", "zero_interleave_b", "decimatei", "set_delta", "set_mc", "write",
    "scale", "offset", "scale_c", "offset_c", "mce", "map", "map_c", "wrap", "unwrap", "runtime", "set_delta", "write", "resize", "zero_pad"];
const WIN: [&str; 6] = ["apply_window", "unapply_window", "windowed_fft", "windowed_ifft", "windowed_sfft", "windowed_sifft"];
const TAB: [&str; 10] = ["mfr", "mfr_c", "convolve", "convolve_c", "interpolatef", "interpolatei", "interpolate", "interpft", "interpolate_lin", "interpolate_hermite"];
const BIN: [&str; 20] = ["add", "sub", "mul", "div", "add_smaller", "sub_smaller", "mul_smaller", "div_smaller", "dot", "dot_c", "dot_prec", "dot_prec_c",
    "convolve_signal", "correlate", "split_into", "merge", "get_real", "get_magnitude", "get_real_imag", "set_real_imag"];
const RED: [&str; 10] = ["sum", "sum_sq", "sum_prec", "sum_sq_prec", "stats", "stats_prec", "stats_split", "stats_split_prec", "aggr_sum", "aggr_max"];
const ELEM: [&str; 20] = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sqrt", "square", "ln", "exp", "powf", "ln_approx", "exp_approx", "sin_approx"];

fn step(h: &mut H) -> bool {
    let t = if let Some(t) = h.t { t } else if h.g.rng.chance(55) { 0 } else { h.g.rng.below(N) };
    let s = h.snap(t);
    if s.len > MAXLEN { let m = 2 * h.g.rng.below(12); return h.run_fill(call("resize", t, &[], &[m as f64])) && h.small(t, 100.0, true); }
    if !h.delta(t, false) { return false; }
    if h.force.is_none() && s.len == 0 && h.g.rng.chance(60) {
        let m = 2 * h.g.rng.below(8);
        let x = *h.g.rng.pick(&[1024.0, 4096.0, 4096.0, 8192.0]);
        return h.run(call("set_delta", t, &[], &[x])) && h.run_fill(call("resize", t, &[], &[m as f64])) && h.small(t, 0.0, true);
    }
    let n = s.pts;
    let nan = s.delta.is_nan();
    // mostly exact data
    if h.g.rng.chance(40) && !h.small(t, 30.0, true) { return false; }
    let mut o: Vec<usize> = (0..N).filter(|k| *k != t).collect();
    for i in (1..o.len()).rev() { let j = h.g.rng.below(i + 1); o.swap(i, j); }
    match h.force.map(|f| f.0).unwrap_or_else(|| h.g.rng.below(100)) {
        0..=34 => {
            let op = h.pick(&PLAIN);
            let lim = match op {
                "diff" | "diff_with_start" | "cum_sum" => 3000.0,
                "magnitude" | "magnitude_b" | "phase" | "phase_b" => 300.0,
                "plain_fft" | "fft" | "plain_ifft" | "ifft" | "plain_sfft" | "sfft" | "plain_sifft" | "sifft" | "prepare_argument" | "prepare_argument_padded" => 200.0,
                "magnitude_squared" | "magnitude_squared_b" => 60.0,
                _ => 100000.0 };
            if !h.small(t, lim, op.starts_with("magnitude_sq")) { return false; }
            if op.ends_with("sifft") && h.g.rng.chance(80) {
                // such that it is a valid spectrum
                let s = h.snap(t);
                if s.cx && s.len > 0 { let mut d = h.g.rng.ints(s.len, -9, 9); d[1] = 0.0; if !h.run(call("write", t, &[], &d)) { return false; } }
            }
            h.run(call(op, t, &[], &[]))
        }
        35..=54 => {
            let op = h.pick(&ARG);
            let r = &mut h.g.rng;
            let k = n + r.below(12);
            let a: Vec<f64> = match op {
                "resize" | "resize_b" => vec![r.below(2 * n + 10).min(40) as f64],
                "zero_pad" | "zero_pad_b" => vec![k as f64, r.below(3) as f64],
                "zero_interleave" | "zero_interleave_b" => vec![r.below(4) as f64],
                "decimatei" => vec![1.0 + r.below(4) as f64, r.below(n + 2) as f64],
                "set_delta" => vec![*r.pick(&[1024.0, 2048.0, 4096.0, 8192.0, 4096.0])],
                "set_mc" => { let m = if r.chance(30) { MC1 } else if r.chance(30) { [1 + r.below(4), r.below(20), r.below(30), r.below(20), r.below(30)] } else { mck(1 + r.below(4)) }; m.iter().map(|x| *x as f64).collect() }
                "write" => { r.ints(s.len, -9, 9) }
                "scale" | "offset" => vec![r.range(-3, 3) as f64],
                "scale_c" | "offset_c" => vec![r.range(-3, 3) as f64, r.range(-3, 3) as f64],
                "mce" => vec![r.range(-3, 3) as f64, r.range(-3, 3) as f64, *r.pick(&[1.0, 4.0, 8.0, 12.0])],
                "map" | "map_c" => vec![r.range(-2, 2) as f64, 1.0 + r.below(4) as f64, r.range(-3, 3) as f64],
                "wrap" | "unwrap" => vec![1.0 + r.below(6) as f64],
                "runtime" => if s.len % 2 == 1 { vec![0.0, r.below(2) as f64] } else { vec![r.below(2) as f64, r.below(2) as f64] },
                _ => unreachable!() };
            if op == "mce" && (nan || !h.delta(t, true)) { return true; }
            if !["resize", "resize_b", "zero_pad", "zero_pad_b", "zero_interleave", "zero_interleave_b", "decimatei", "write", "set_delta", "set_mc", "runtime"].contains(&op) && !h.small(t, 3000.0, false) { return false; }
            if (op == "wrap" || op == "unwrap") && !h.small(t, 100.0, true) { return false; }
            h.run_fill(call(op, t, &[], &a))
        }
        55..=61 => {
            let op = h.pick(&WIN);
            if !h.small(t, 150.0, !op.contains("fft")) { return false; }
            let a = window_args(h.g, op != "apply_window");
            if op.ends_with("sifft") { let s = h.snap(t); if s.cx && s.len > 0 { let mut d = h.g.rng.ints(s.len, -9, 9); d[1] = 0.0; if !h.run(call("write", t, &[], &d)) { return false; } } }
            h.run(call(op, t, &[], &a))
        }
        62..=71 => {
            let op = h.pick(&TAB);
            if op != "interpolate_lin" && op != "interpolate_hermite" && op != "mfr" && (nan || n == 0) { return true; }
            if n > 24 { return true; }
            if !h.small(t, 20.0, true) { return false; }
            if op.starts_with("interpolate") || op == "interpft" { if nan || !h.delta(t, true) { return !nan && false || nan; } }
            let s = h.snap(t);
            let n = s.pts;
            let sym = h.g.rng.chance(60);
            let g = &mut *h.g;
            let a: Vec<f64> = match op {
                "mfr" | "mfr_c" => { let max = (n / 2).max(1); let c = g.rng.below(max + 3); let mut a = vec![1.0, 1.0]; a.extend(table(g, op == "mfr_c", sym, max as f64, c, 5)); a }
                "convolve" | "convolve_c" => { let len = g.rng.below(n + 2); let c = g.rng.below(len + 2); let mut a = vec![1.0, 1.0, len as f64]; a.extend(table(g, op == "convolve_c", sym, 1.0, c, 3)); a }
                "interpolatef" => { let f = 1 + g.rng.below(3); let len = 1 + g.rng.below(5); let c = g.rng.below(len * f * 4 + 3);
                    let mut a = vec![f as f64, 1.0, 0.0, 1.0, len as f64]; a.extend(table(g, false, sym, f as f64 * 4.0, c, 3)); a }
                "interpolatei" => { let f = g.rng.below(4); let c = g.rng.below((f + 1) * n + 3); let mut a = vec![f as f64]; a.extend(table(g, false, sym, n.max(1) as f64, c, 3)); a }
                "interpolate" => { let m = 1 + g.rng.below(2 * n + 1); let (dn, dd) = *g.rng.pick(&[(0.0, 1.0), (1.0, 1.0), (-1.0, 2.0)]); let mut a = vec![m as f64, dn, dd];
                    if g.rng.chance(50) { let c = g.rng.below(m + 3); a.extend(table(g, false, sym, n as f64, c, 3)); } a }
                "interpft" => vec![1.0 + g.rng.below(2 * n) as f64],
                _ => { let (x, y) = *g.rng.pick(&[(1.0, 1.0), (2.0, 1.0), (3.0, 2.0), (1.0, 2.0)]); let (u, v) = *g.rng.pick(&[(0.0, 1.0), (1.0, 1.0), (-1.0, 2.0)]); vec![x, y, u, v] }
            };
            h.run(call(op, t, &[], &a))
        }
        72..=84 => {
            let op = h.pick(&BIN);
            match op {
                "split_into" | "merge" => {
                    let same: Vec<usize> = o.iter().cloned().filter(|k| h.snap(*k).ty == s.ty).collect();
                    let c = h.g.rng.below(same.len() + 1);
                    h.run(call(op, t, &same[..c], &[]))
                }
                "get_real" | "get_imag" | "get_magnitude" | "get_magnitude_squared" | "get_phase" => {
                    let op = h.sub(op, &["get_real", "get_imag", "get_magnitude", "get_magnitude_squared", "get_phase"]);
                    if s.cx && n > 30 { return true; }
                    h.small(t, 60.0, true) && h.run(call(op, t, &o[..1], &[]))
                }
                "get_real_imag" | "get_mag_phase" => { let op = h.sub(op, &["get_real_imag", "get_mag_phase"]); h.small(t, 60.0, true) && h.run(call(op, t, &o[..2], &[])) }
                "set_real_imag" | "set_mag_phase" => {
                    if h.snap(o[0]).cx || h.snap(o[1]).cx { return true; }
                    let op = h.sub(op, &["set_real_imag", "set_mag_phase"]);
                    if op == "set_mag_phase" {
                        let l = h.snap(o[1]).len; let d = h.g.rng.ints(l, -3, 3);
                        if !h.small(o[0], 60.0, true) || !h.run(call("write", o[1], &[], &d)) { return false; }
                    }
                    h.run(call(op, t, &o[..2], &[]))
                }
                _ => {
                    let b = o[0];
                    if op == "correlate" && n > 20 { return true; }
                    let lim = if op == "correlate" { 6.0 } else { 60.0 };
                    let exact = !(op.starts_with("add") || op.starts_with("sub"));
                    if !h.small(t, lim, exact) || !h.small(b, lim, exact) || !h.delta(b, false) { return false; }
                    // bring the operand to a fitting length now and then
                    let (x, y) = (h.snap(t), h.snap(b));
                    if y.len != x.len && h.g.rng.chance(60) && y.cx == x.cx && x.len <= 40 && x.len > 0 {
                        let l = if op.ends_with("smaller") { let p = x.pts; let c: Vec<usize> = (1..=p).filter(|d| p % d == 0).collect(); *h.g.rng.pick(&c) * (x.len / x.pts) } else { x.len };
                        if !h.run_fill(call("resize", b, &[], &[l as f64])) { return false; }
                        let l = h.snap(b).len; let d = h.g.rng.ints(l, -5, 5); if !h.run(call("write", b, &[], &d)) { return false; }
                        if !x.delta.is_nan() && h.g.rng.chance(90) { let d = (x.delta * 4096.0).round(); if !h.run(call("set_delta", b, &[], &[d])) { return false; } }
                    }
                    if op.starts_with("div") {
                        let y = h.snap(b);
                        let k = (y.ty, y.cx, y.fr);
                        let d: Vec<f64> = divisors(h.g, k, if y.cx { y.len / 2 } else { y.len }).iter().map(|x| if *x == 0.5 { 1.0 } else { *x }).collect();
                        if !h.run(call("write", b, &[], &d)) { return false; }
                    }
                    h.run(call(op, t, &[b], &[]))
                }
            }
        }
        85..=91 => {
            let op = h.pick(&RED);
            if !h.small(t, 40.0, true) { return false; }
            let s = h.snap(t);
            if s.cx && op == "aggr_max" { return true; }
            let a: Vec<f64> = match op { "stats_split" | "stats_split_prec" => vec![*h.g.rng.pick(&[1.0, 2.0, 3.0, 16.0, 17.0])],
                "aggr_sum" | "aggr_max" => vec![h.g.rng.range(-2, 2) as f64, 1.0 + h.g.rng.below(4) as f64, h.g.rng.range(-2, 2) as f64], _ => vec![] };
            // reductions of run time typed vectors are only defined for their number space
            let op = if op.starts_with("aggr") && s.ty == Ty::G && h.g.rng.chance(20) { "aggr_sum".into() } else { cop((s.ty, s.cx, s.fr), op) };
            h.run(call(&op, t, &[], &a))
        }
        _ => {
            let op = h.pick(&ELEM);
            if !h.small(t, 30.0, true) { return false; }
            let a: Vec<f64> = if op == "powf" { vec![*h.g.rng.pick(&[1.0, 2.0, -1.0]), 1.0] } else { vec![] };
            h.run(call(op, t, &[], &a))
        }
    }
}

pub fn hist(g: &mut G, steps: usize) {
    let mut ws = worlds::all();
    for _ in 0..40 {
        let name = *g.rng.pick(&g.worlds.clone());
        let mut s = Scen::new(6);
        s.w = name.into();
        let home = *g.rng.pick(&KINDS);
        for k in 0..N {
            let kind = if k > 0 && g.rng.chance(60) { home } else { *g.rng.pick(&KINDS) };
            let pts = g.rng.below(14);
            let mut i = g.mk(kind, pts, -9, 9);
            if g.rng.chance(50) { i.delta = 1.0; }
            if name == "b64" || name == "s32" { i.slack = *g.rng.pick(&[0, 2, 20, 100, 100, 200]); }
            i.mc = g.threads();
            s = s.ini(k, i);
        }
        let w = ws.iter_mut().find(|w| w.name() == name).unwrap();
        w.clear();
        buffer(g, &mut s);
        w.set_buf(s.bk, s.bd);
        for (k, i) in &s.ini { w.init(*k, i); }
        let mut h = H { g: &mut *g, w, done: vec![], force: None, t: None, fill: false };
        let mut tries = 0;
        while h.done.len() < steps && tries < 4 * steps { tries += 1; if !step(&mut h) { break; } }
        s.calls = h.done;
        g.out.push(s);
    }
}

/// every operation in every state, followed by a few more calls
pub fn state(g: &mut G) {
    let mut ws = worlds::all();
    let mut ops: Vec<(usize, &'static str)> = vec![];
    for (c, l) in [(0, &PLAIN[..37]), (35, &ARG[..20]), (55, &WIN[..]), (62, &TAB[..]), (72, &BIN[..]), (85, &RED[..]), (92, &ELEM[..])] { for o in l { ops.push((c, *o)); } }
    for o in ["get_imag", "get_magnitude_squared", "get_phase", "get_mag_phase", "set_mag_phase"] { ops.push((72, o)); }
    for f in ops {
        for k in KINDS {
            let mut s = Scen::new(6);
            let name = *g.rng.pick(&g.worlds.clone());
            s.w = name.into();
            let pts = *g.rng.pick(&[0, 1, 2, 3, 5, 6, 9, 12]);
            for j in 0..N {
                let kind = if j == 0 || g.rng.chance(50) { k } else { *g.rng.pick(&KINDS) };
                let p = if g.rng.chance(70) { pts } else { g.rng.below(8) };
                let mut i = g.mk(kind, p, -9, 9);
                i.delta = if g.rng.chance(80) { 1.0 } else { *g.rng.pick(&[0.25, 0.5, 2.0]) };
                if name == "b64" || name == "s32" { i.slack = *g.rng.pick(&[0, 1, 3, 20, 100]); }
                i.mc = g.threads();
                s = s.ini(j, i);
            }
            buffer(g, &mut s);
            let w = ws.iter_mut().find(|w| w.name() == name).unwrap();
            w.clear();
            w.set_buf(s.bk, s.bd);
            for (k, i) in &s.ini { w.init(*k, i); }
            let mut h = H { g: &mut *g, w, done: vec![], force: Some(f), t: Some(0), fill: false };
            let mut ok = step(&mut h);
            h.force = None;
            for _ in 0..2 { ok = ok && step(&mut h); }
            s.calls = h.done;
            g.out.push(s);
        }
    }
}

/// operations on several vectors whose states, sizes and spacings fit or do not fit
pub fn fail(g: &mut G) {
    let mut ws = worlds::all();
    let mut ops = BIN.to_vec();
    ops.extend(["get_imag", "get_magnitude_squared", "get_phase", "get_mag_phase", "set_mag_phase"]);
    for op in ops {
        for k in KINDS { for l in KINDS {
            if l.0 != k.0 && k.0 != Ty::G && l.0 != Ty::G && !op.starts_with("get") && !op.starts_with("set") && !g.rng.chance(20) { continue; }
            let mut s = Scen::new(6);
            let name = *g.rng.pick(&g.worlds.clone());
            s.w = name.into();
            let pts = *g.rng.pick(&[0, 1, 2, 3, 4, 6, 9, 12]);
            for j in 0..N {
                let kind = if j == 0 { k } else if j == 1 || g.rng.chance(70) { l } else { *g.rng.pick(&KINDS) };
                let p = if g.rng.chance(60) { pts } else { *g.rng.pick(&[0, 1, 2, 3, 5, 8]) };
                let mut i = g.mk(kind, p, -9, 9);
                i.delta = if g.rng.chance(75) { 1.0 } else { *g.rng.pick(&[0.25, 0.5, 0.9375, 1.0625, 2.0]) };
                if name == "b64" || name == "s32" { i.slack = *g.rng.pick(&[0, 1, 3, 20, 100]); }
                i.mc = g.threads();
                s = s.ini(j, i);
            }
            buffer(g, &mut s);
            let w = ws.iter_mut().find(|w| w.name() == name).unwrap();
            w.clear();
            w.set_buf(s.bk, s.bd);
            for (k, i) in &s.ini { w.init(*k, i); }
            let mut h = H { g: &mut *g, w, done: vec![], force: Some((72, op)), t: Some(0), fill: false };
            step(&mut h);
            s.calls = h.done;
            if s.calls.len() > 0 { g.out.push(s); }
        } }
    }
}

/// the same history in different storages, with different buffers, alignments and spare capacities
pub fn store(g: &mut G) {
    let mut ws = worlds::all();
    for _ in 0..40 {
        let is32 = g.rng.chance(50);
        let mut s = Scen::new(6);
        s.w = if is32 { "v32" } else { "v64" }.into();
        s.grp = g.out.len() + 1;
        let home = *g.rng.pick(&KINDS);
        let large = g.rng.chance(20);
        for k in 0..N {
            let kind = if k > 0 && g.rng.chance(60) { home } else { *g.rng.pick(&KINDS) };
            let pts = if large { 10 + g.rng.below(20) } else { g.rng.below(14) };
            let mut i = g.mk(kind, pts, -9, 9);
            if g.rng.chance(70) { i.delta = 1.0; }
            i.slack = 0;
            s = s.ini(k, i);
        }
        let w = ws.iter_mut().find(|w| w.name() == s.w).unwrap();
        w.clear();
        s.bk = Buf::Single; s.bd = 0;
        w.set_buf(s.bk, s.bd);
        for (k, i) in &s.ini { w.init(*k, i); }
        let mut h = H { g: &mut *g, w, done: vec![], force: None, t: None, fill: true };
        let mut tries = 0;
        while h.done.len() < 14 && tries < 60 { tries += 1; if !step(&mut h) { break; } }
        let calls = h.done;
        // not all storages have all operations
        let rare = calls.iter().any(|c| c.op.starts_with("convolve"));
        let set = calls.iter().any(|c| c.op.starts_with("set_real") || c.op.starts_with("set_mag"));
        s.calls = calls;
        let grp = s.grp;
        g.out.push(s.clone());
        let mut ws: Vec<&str> = if is32 { vec!["v32", "v32", "v32", "a32"] } else { vec!["v64", "v64", "v64", "b64"] };
        if is32 && !rare { ws.push("s32"); }
        if set { ws.retain(|w| w.starts_with('v')); }
        for w in ws {
            let mut t = s.clone();
            t.w = w.into();
            t.grp = grp;
            for i in t.ini.iter_mut() {
                i.1.slack = if w == "b64" || w == "s32" { *g.rng.pick(&[100, 200, 333]) } else { *g.rng.pick(&[0, 1, 2, 5, 40, 101]) };
                i.1.align = g.rng.below(8);
            }
            buffer(g, &mut t);
            g.out.push(t);
        }
    }
}

fn buffer(g: &mut G, s: &mut Scen) {
    if s.w.starts_with('v') {
        s.bk = *g.rng.pick(&[Buf::Single, Buf::Single, Buf::Fixed, Buf::No]);
        s.bd = match s.bk { Buf::Single => *g.rng.pick(&[0, 1, 7, 64, 500]), _ => 4096 };
    } else { s.bk = Buf::Fixed; s.bd = 4096; }
}

/// operations which are distributed over threads: with different numbers of threads which run in different orders
pub fn threads(g: &mut G) {
    let mut ws = worlds::all();
    let mut ops: Vec<(usize, &'static str)> = vec![];
    for o in ELEM { ops.push((92, o)); }
    for _ in 0..3 { for o in &WIN[..] { ops.push((55, *o)); } }
    for _ in 0..6 { for o in &TAB[..] { ops.push((62, *o)); } }
    for _ in 0..3 { for o in ["convolve_signal", "convolve_signal", "correlate", "dot", "split_into", "add"] { ops.push((72, o)); } }
    for o in ["map", "map_c", "scale", "offset"] { ops.push((35, o)); }
    for o in RED { ops.push((85, o)); }
    for f in ops {
        let name = if cfg!(feature = "cif") { *g.rng.pick(&["c32", "c64"]) } else { *g.rng.pick(&["v32", "v64"]) };
        let mut s = Scen::new(6);
        s.w = name.into();
        s.grp = g.out.len() + 1;
        let kind = *g.rng.pick(&KINDS);
        let pts = if f.0 == 72 { 1 + g.rng.below(16) } else if f.0 == 62 { 1 + g.rng.below(23) } else { g.rng.below(48) };
        for k in 0..N {
            let n = if k > 0 && f.0 == 72 && g.rng.chance(50) { 1 + g.rng.below(10) } else { pts };
            let kd = if k > 0 && g.rng.chance(20) { *g.rng.pick(&KINDS) } else { kind };
            let mut i = g.mk(kd, n, -9, 9);
            i.delta = if g.rng.chance(70) { 1.0 } else { 0.5 };
            i.slack = 0;
            i.mc = MC1;
            s = s.ini(k, i);
        }
        s.bk = Buf::Single; s.bd = 0;
        let w = ws.iter_mut().find(|w| w.name() == name).unwrap();
        w.clear();
        w.set_buf(s.bk, s.bd);
        for (k, i) in &s.ini { w.init(*k, i); }
        let mut h = H { g: &mut *g, w, done: vec![], force: Some(f), t: Some(0), fill: true };
        step(&mut h);
        s.calls = h.done;
        if s.calls.is_empty() { continue; }
        g.out.push(s.clone());
        for _ in 0..4 {
            let mut t = s.clone();
            let k = *g.rng.pick(&[2usize, 2, 3, 4, 5, 8]);
            let mc = if g.rng.chance(80) { mck(k) } else { let d = g.rng.below(30); let e = g.rng.below(30); [k, d, d + 1 + g.rng.below(20), e, e + 1 + g.rng.below(20)] };
            for i in t.ini.iter_mut() { i.1.mc = mc; }
            t.sc = if g.rng.chance(25) { vec![-1] } else {
                let mut p: Vec<i64> = (0..k as i64).collect();
                for i in (1..p.len()).rev() { let j = g.rng.below(i + 1); p.swap(i, j); }
                p
            };
            g.out.push(t);
        }
    }
    crate::topics::long_threads(g);
}
