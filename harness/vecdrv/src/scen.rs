//! Scenarios: a world, initial vectors, a buffer and a sequence of calls. Running one writes the trace.
use crate::core::*;
use crate::json::*;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Scen { pub w: String, pub q: i32, pub bk: Buf, pub bd: usize, pub ini: Vec<(usize, Init)>, pub calls: Vec<Call>, pub hdr: Vec<String>, pub nq: i32, pub grp: usize, pub sc: Vec<i64> }
impl Scen {
    pub fn new(q: i32) -> Scen { Scen { w: String::new(), q, bk: Buf::Single, bd: 0, ini: vec![], calls: vec![], hdr: vec![], nq: q, grp: 0, sc: vec![] } }
    pub fn ini(mut self, s: usize, i: Init) -> Scen { self.ini.push((s, i)); self }
    pub fn call(mut self, op: &str, t: usize, o: &[usize], a: &[f64]) -> Scen { self.calls.push(Call { op: op.into(), t, o: o.to_vec(), a: a.to_vec() }); self }
    pub fn one(q: i32, i: Init, op: &str, a: &[f64]) -> Scen { Scen::new(q).ini(0, i).call(op, 0, &[], a) }
    pub fn two(q: i32, i: Init, j: Init, op: &str, a: &[f64]) -> Scen { Scen::new(q).ini(0, i).ini(1, j).call(op, 0, &[1], a) }
}
fn nums(out: &mut String, d: &[f64]) {
    out.push('[');
    for (i, x) in d.iter().enumerate() { if i > 0 { out.push(','); } if *x == x.trunc() && x.abs() < 2.0e9 { let _ = write!(out, "{}", *x as i64); } else { let _ = write!(out, "\"{}\"", x); } }
    out.push(']');
}
fn usz(out: &mut String, d: &[usize]) { nums(out, &d.iter().map(|x| *x as f64).collect::<Vec<_>>()); }
fn sched(s: &Scen) -> String { format!("{:?}", s.sc).replace(' ', "") }
fn bufname(b: Buf) -> &'static str { match b { Buf::Single => "single", Buf::Fixed => "fixed", Buf::No => "no" } }
fn init_json(s: usize, i: &Init, q: i32) -> String {
    let mut o = format!("{{\"s\":{},\"ty\":\"{}\",\"cx\":{},\"fr\":{},\"dl\":{},\"sl\":{},\"al\":{},\"mc\":", s, i.ty.s(), i.cx, i.fr, (i.delta * 4096.0) as i64, i.slack, i.align);
    usz(&mut o, &i.mc);
    o.push_str(",\"d\":");
    enc_seq(&mut o, &i.data, q);
    o.push('}');
    o
}
/// The slots whose state a call may observe or change.
fn touched(c: &Call, w: &dyn World) -> Vec<usize> {
    let mut v = vec![];
    for k in std::iter::once(&c.t).chain(&c.o) { for x in *k..*k + w.rows(*k).max(1) { if !v.contains(&x) { v.push(x); } } }
    v
}

/// The scenario as it can be read back, without any recorded state.
pub fn text(s: &Scen) -> String {
    let mut l = format!("{{\"op\":\"new\",\"w\":\"{}\",\"q\":{},\"nq\":{},\"grp\":{},\"sc\":{},\"bk\":\"{}\",\"bd\":{},\"ini\":[", s.w, s.q, s.nq, s.grp, sched(s), bufname(s.bk), s.bd);
    for (n, (k, i)) in s.ini.iter().enumerate() { if n > 0 { l.push(','); } l.push_str(&init_json(*k, i, s.q)); }
    l.push_str("]}\n");
    for c in &s.calls {
        let _ = write!(l, "{{\"op\":\"{}\",\"t\":{},\"o\":", c.op, c.t);
        usz(&mut l, &c.o); l.push_str(",\"a\":"); nums(&mut l, &c.a); l.push_str("}\n");
    }
    l
}
/// notes which scenario is running, in case it takes the process down
pub struct Current(std::fs::File);
impl Current {
    pub fn new(prefix: &str) -> Current { Current(std::fs::File::create(format!("{}.current", prefix)).unwrap()) }
    pub fn set(&mut self, s: &Scen) {
        use std::io::{Seek, SeekFrom, Write};
        let t = text(s);
        let _ = self.0.set_len(0); let _ = self.0.seek(SeekFrom::Start(0)); let _ = self.0.write_all(t.as_bytes());
    }
}

pub fn run(worlds: &mut Vec<Box<dyn World>>, s: &Scen, out: &mut Vec<String>) -> bool {
    let w = match worlds.iter_mut().find(|x| x.name() == s.w) { Some(w) => w, None => return false };
    w.clear();
    w.set_buf(s.bk, s.bd);
    for (k, i) in &s.ini { w.init(*k, i); }
    let mut l = String::new();
    let _ = write!(l, "{{\"op\":\"new\",\"w\":\"{}\",\"st\":\"{}\",\"gr\":\"{}\",\"f32\":{},\"q\":{},\"nq\":{},\"grp\":{},\"sc\":{},\"bk\":\"{}\",\"bd\":{},\"ini\":[", s.w, w.storage(), w.grows(), w.is32(), s.q, s.nq, s.grp, sched(s), bufname(s.bk), s.bd);
    for (n, (k, i)) in s.ini.iter().enumerate() { if n > 0 { l.push(','); } l.push_str(&init_json(*k, i, s.q)); }
    l.push_str("],\"ws\":[");
    for (n, (k, _)) in s.ini.iter().enumerate() { if n > 0 { l.push(','); } l.push_str(&snap_json(&w.snap(*k).unwrap(), s.q, *k)); }
    l.push_str("]}");
    out.push(l);
    for h in &s.hdr { out.push(h.clone()); }
    let mut any = false;
    for c in &s.calls {
        let mut tk = touched(c, &**w);
        let om: Vec<bool> = c.o.iter().map(|k| w.rows(*k) > 0).collect();
        let before = w.rows(c.t);
        let (r, wk) = crate::sched::watch(&s.sc, || w.call(c));
        if let Out::Na = r { continue; }
        any = true;
        let mut l = String::new();
        let _ = write!(l, "{{\"op\":\"{}\",\"t\":{},\"o\":", c.op, c.t);
        usz(&mut l, &c.o); l.push_str(",\"a\":"); nums(&mut l, &c.a);
        let mut n = String::from("[]"); let mut nix = 0; let mut nbad = 0;
        let mut msg = String::new();
        let mat = c.op.starts_with("m.");
        let rows = before.max(w.rows(c.t));
        let rs = match &r { Out::Ok => "ok".to_string(), Out::Err(e) => e.clone(), Out::Panic(m) => { msg = m.replace('"', "'").replace('\\', "/").replace('\n', " "); "panic".into() } , Out::Na => unreachable!(),
            Out::Num(v) => { n.clear(); let (a, b) = enc_seq(&mut n, v, s.nq); nix = a; nbad = b; "num".into() } };
        if mat {
            // what belongs to the rows
            for x in touched(c, &**w) { if !tk.contains(&x) { tk.push(x); } }
            let (mut ns, mut nxs, mut nbs) = (vec![], vec![], vec![]);
            if let Out::Num(v) = &r { if rows > 0 && v.len() % rows == 0 && c.op != "m.dissolve" { for p in v.chunks((v.len() / rows).max(1)) {
                let mut x = String::new(); let (a, b) = enc_seq(&mut x, p, s.nq); ns.push(x); nxs.push(a); nbs.push(b); } } }
            let mm: Vec<i64> = w.summary(c.t).iter().enumerate().map(|(k, x)| if k == 3 { enc(*x / 4096.0, 12).0 } else { *x as i64 }).collect();
            let _ = write!(l, ",\"m\":\"{}\",\"R\":{},\"om\":{:?},\"ns\":[{}],\"nxs\":{:?},\"nbs\":{:?},\"mm\":{:?}", &c.op[2..], rows, om, ns.join(","), nxs, nbs, mm);
        }
        let _ = write!(l, ",\"r\":\"{}\",\"n\":{},\"nx\":{},\"nb\":{},\"wk\":{},\"ws\":[", rs, n, nix, nbad, wk);
        let mut first = true;
        for k in tk { if let Some(sn) = w.snap(k) { if !first { l.push(','); } first = false; l.push_str(&snap_json(&sn, s.q, k)); } }
        l.push(']');
        if msg.len() > 0 { let _ = write!(l, ",\"msg\":\"{}\"", msg); }
        l.push('}');
        out.push(l);
        if let Out::Panic(_) = r { break; }
    }
    any
}

pub fn read(text: &str) -> Vec<Scen> {
    let mut res: Vec<Scen> = vec![];
    for line in text.lines() {
        let j = match parse(line) { Some(j) => j, None => continue };
        let op = j.str("op", "");
        if op == "new" {
            let q = j.num("q", 0.0) as i32;
            let mut s = Scen::new(q);
            s.nq = j.num("nq", q as f64) as i32;
            s.grp = j.num("grp", 0.0) as usize;
            s.sc = j.nums("sc").iter().map(|x| *x as i64).collect();
            s.w = j.str("w", "v64");
            s.bk = match &j.str("bk", "single")[..] { "fixed" => Buf::Fixed, "no" => Buf::No, _ => Buf::Single };
            s.bd = j.num("bd", 0.0) as usize;
            for i in j.arr("ini") {
                let mc = i.nums("mc");
                let mut m = MC1; for (k, x) in mc.iter().enumerate().take(5) { m[k] = *x as usize; }
                s.ini.push((i.num("s", 0.0) as usize, Init { ty: Ty::parse(&i.str("ty", "G")), cx: i.bool("cx"), fr: i.bool("fr"), delta: i.num("dl", 4096.0) / 4096.0,
                    data: i.nums("d").iter().map(|x| x / (2.0f64).powi(q)).collect(), slack: i.num("sl", 0.0) as usize, align: i.num("al", 0.0) as usize, mc: m }));
            }
            res.push(s);
        } else if op == "trig" || op == "oracle" {
            if let Some(s) = res.last_mut() { s.hdr.push(line.to_string()); }
        } else if op != "" {
            if let Some(s) = res.last_mut() {
                s.calls.push(Call { op, t: j.num("t", 0.0) as usize, o: j.nums("o").iter().map(|x| *x as usize).collect(), a: j.nums("a") });
            }
        }
    }
    res
}
