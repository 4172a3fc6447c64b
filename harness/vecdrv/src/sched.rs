//! Counts the worker threads a call uses and decides in which order they run.
//! The definition of `pthread_create` below takes the place of the one of the C library for this program.
use std::ffi::c_void;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// order: empty - the system decides; otherwise the k-th worker of a wave runs as number order[k % len]
/// of its wave.  [-1]: all workers of a wave are kept back until they can run at the same time.
struct State { on: bool, order: Vec<i64>, live: usize, max: usize, total: usize, wave: Vec<u8>, last: Option<Instant>, running: usize, go: bool }
static ST: Mutex<State> = Mutex::new(State { on: false, order: vec![], live: 0, max: 0, total: 0, wave: vec![], last: None, running: 0, go: false });
static CV: Condvar = Condvar::new();

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type Create = unsafe extern "C" fn(*mut c_void, *const c_void, Start, *mut c_void) -> i32;
extern "C" { fn dlsym(h: *mut c_void, name: *const u8) -> *mut c_void; }
struct Job { f: Start, arg: *mut c_void, id: usize }

fn real() -> Create { unsafe { std::mem::transmute(dlsym(-1isize as *mut c_void, b"pthread_create\0".as_ptr())) } }

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut c_void, at: *const c_void, f: Start, arg: *mut c_void) -> i32 {
    let id = {
        let mut s = ST.lock().unwrap();
        if !s.on { drop(s); return real()(t, at, f, arg); }
        if s.live == 0 { s.wave.clear(); s.go = false; s.running = 0; }
        s.live += 1;
        s.total += 1;
        s.max = s.max.max(s.live);
        s.last = Some(Instant::now());
        s.wave.push(0);
        s.wave.len() - 1
    };
    let job = Box::into_raw(Box::new(Job { f, arg, id }));
    let r = real()(t, at, run, job as *mut c_void);
    if r != 0 { drop(Box::from_raw(job)); let mut s = ST.lock().unwrap(); s.live = s.live.saturating_sub(1); s.wave[id] = 2; }
    r
}

/// may worker `id` run now?
fn turn(s: &State, id: usize) -> bool {
    if s.order.is_empty() || s.go { return true; }
    // has the wave been started completely?
    if s.last.map(|l| l.elapsed() < Duration::from_micros(700)).unwrap_or(false) { return false; }
    if s.order[0] < 0 { return true; }
    let rank = |k: usize| (s.order.get(k).copied().unwrap_or(1000 + k as i64), k);
    s.running == 0 && (0..s.wave.len()).filter(|k| s.wave[*k] == 0).all(|k| rank(id) <= rank(k))
}
extern "C" fn run(job: *mut c_void) -> *mut c_void {
    let job = unsafe { Box::from_raw(job as *mut Job) };
    {
        let mut s = ST.lock().unwrap();
        let t0 = Instant::now();
        while !turn(&s, job.id) {
            // workers which wait for each other are set free
            if t0.elapsed() > Duration::from_millis(2000) { s.go = true; break; }
            let (n, _) = CV.wait_timeout(s, Duration::from_micros(200)).unwrap();
            s = n;
        }
        s.wave[job.id] = 1;
        s.running += 1;
    }
    let r = (job.f)(job.arg);
    let mut s = ST.lock().unwrap();
    s.wave[job.id] = 2;
    s.running = s.running.saturating_sub(1);
    s.live = s.live.saturating_sub(1);
    CV.notify_all();
    r
}

/// Runs f and returns how many workers there have been at the same time.
pub fn watch<R>(order: &[i64], f: impl FnOnce() -> R) -> (R, usize) {
    {
        let mut s = ST.lock().unwrap();
        s.on = true;
        s.order = order.to_vec();
        s.live = 0; s.max = 0; s.total = 0; s.last = None; s.wave.clear(); s.running = 0; s.go = false;
    }
    let r = f();
    let mut s = ST.lock().unwrap();
    s.on = false;
    (r, s.max)
}
