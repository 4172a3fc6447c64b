mod core;
#[cfg(all(feature = "std", not(any(feature = "mat", feature = "cif"))))]
mod ctor;
mod funcs;
mod hist;
mod json;
mod scen;
mod sched;
mod topics;
#[cfg_attr(feature = "mat", path = "mats.rs")]
#[cfg_attr(feature = "cif", path = "cifs.rs")]
mod worlds;
use std::io::Write;

/// vecdrv gen TOPIC SEED REPS SHARDS OUTPREFIX   runs the scenarios of a topic
/// vecdrv run FILE OUT                           runs the scenarios of a file (e.g. a recorded trace)
fn main() {
    // storage may live on the stack
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap();
    if t.join().is_err() { std::process::exit(101); }
}
/// the same scenario through the C interface, which only knows generic vectors
fn interop(s: &mut scen::Scen) {
    s.w = if s.w.ends_with("32") { "c32" } else { "c64" }.to_string();
    s.bk = core::Buf::Single; s.bd = 0; s.grp = 0;
    for i in s.ini.iter_mut() { i.1.ty = core::Ty::G; }
}
fn work() {
    if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let mut worlds = worlds::all();
    match &a[1][..] {
        "gen" => {
            let mut g = topics::G { rng: core::Rng::new(a[3].parse().unwrap()), out: vec![], reps: a[4].parse().unwrap(), thorough: a[4] != "1", worlds: vec!["v32", "v64", "b64", "s32", "a32"] };
            let list: Vec<String> = a.get(7).map(|x| x.split(',').map(|y| y.to_string()).collect()).unwrap_or_default();
            if list.len() > 0 { g.worlds.retain(|w| list.iter().any(|l| l == w)); }
            g.worlds.push("a64");
            if cfg!(feature = "mat") { g.worlds = vec!["m64"]; } else if cfg!(feature = "cif") { g.worlds = vec!["c32", "c64"]; } else { g.worlds.retain(|w| worlds.iter().any(|x| x.name() == *w)); }
            if !topics::generate(&a[2], &mut g) { eprintln!("unknown topic"); std::process::exit(3); }
            if cfg!(feature = "cif") { for s in g.out.iter_mut() { interop(s); } }
            let shards: usize = a[5].parse().unwrap();
            let mut files: Vec<_> = (0..shards).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{}.{}.ndjson", a[6], i)).unwrap())).collect();
            let (mut n, mut lines) = (0, 0);
            let mut load = vec![0usize; shards];
            let mut last = (0, 0);
            let mut cur = scen::Current::new(&a[6]);
            for s in g.out.iter() {
                cur.set(s);
                let mut out = vec![];
                if scen::run(&mut worlds, s, &mut out) {
                    // the members of a group are compared with each other
                    let k = if s.grp != 0 && s.grp == last.0 { last.1 } else { (0..shards).min_by_key(|k| load[*k]).unwrap() };
                    last = (s.grp, k);
                    n += 1;
                    for l in &out { load[k] += l.len() + 200; lines += 1; writeln!(files[k], "{}", l).unwrap(); }
                }
            }
            println!("scenarios {} lines {}", n, lines);
        }
        "run" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            let (mut n, mut lines) = (0, 0);
            let mut cur = scen::Current::new(&a[3]);
            for mut s in scen::read(&t) { if cfg!(feature = "cif") { interop(&mut s); } cur.set(&s); let mut out = vec![]; if scen::run(&mut worlds, &s, &mut out) { n += 1; for l in &out { lines += 1; writeln!(f, "{}", l).unwrap(); } } }
            println!("scenarios {} lines {}", n, lines);
        }
        _ => std::process::exit(3),
    }
}
