//! Harness runtime. The `vp_*` functions are intrinsics of the symbolic engine
//! (their bodies are never executed there); the bodies below are the native
//! versions used to replay a path or a counterexample against the real code:
//! inputs come from the tape the engine recorded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::hint::black_box;
use std::sync::atomic::Ordering;

struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn live(d: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + d));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        live(1);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        live(1);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Counting = Counting;

pub enum T {
    S(Vec<u8>),
    C(u64),
}
#[derive(Default)]
struct Ctx {
    tape: Vec<T>,
    pos: usize,
    params: Vec<u64>,
    digest: u64,
    failed: Option<u64>,
    assumed: bool,
    bad: bool,
}
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

struct Stop;

#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vp_resume_unwind() -> ! {
    std::panic::resume_unwind(Box::new(Stop))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_sym(p: *mut u8, n: usize, kind: u32) {
    black_box(kind);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let pos = c.pos;
        c.pos += 1;
        let data = match c.tape.get(pos) {
            Some(T::S(d)) if d.len() == n => d.clone(),
            _ => {
                c.bad = true;
                vec![b'a'; n]
            }
        };
        for i in 0..n {
            unsafe { *p.add(i) = data[i] };
        }
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vp_assume(b: bool) {
    if !black_box(b) {
        CTX.with(|c| c.borrow_mut().assumed = true);
        vp_resume_unwind()
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vp_assert(b: bool, id: u64) {
    if !black_box(b) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.failed.is_none() {
                c.failed = Some(id);
            }
        });
        vp_resume_unwind()
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_choice(n: u64) -> u64 {
    black_box(n);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let pos = c.pos;
        c.pos += 1;
        match c.tape.get(pos) {
            Some(T::C(d)) => *d,
            _ => {
                c.bad = true;
                0
            }
        }
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_param(i: u64) -> u64 {
    CTX.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_reach(id: u64) {
    black_box(id);
}
/// What follows up to vp_other(0) stands for another thread.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_other(on: u64) {
    black_box(on);
}
/// Runs f on another thread, start to end, while this one waits.
pub fn vp_thread<F: FnOnce() + Send>(f: F) {
    if vp_is_sym() {
        vp_other(2);
        f();
        vp_other(0);
        return;
    }
    let ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
    let (ctx, r) = std::thread::scope(|s| {
        s.spawn(move || {
            CTX.with(|c| *c.borrow_mut() = ctx);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            (CTX.with(|c| std::mem::take(&mut *c.borrow_mut())), r)
        })
        .join()
        .unwrap()
    });
    CTX.with(|c| *c.borrow_mut() = ctx);
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_note(x: u64) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let mut h = c.digest;
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
        c.digest = h;
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_depth_reset() {
    black_box(());
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_depth_max() -> u64 {
    black_box(0)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_heap_live() -> u64 {
    LIVE.with(|c| c.get()) as u64
}
/// work done so far (instructions, with long copies and searches charged by length)
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_work() -> u64 {
    black_box(0)
}
static REPLAYING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// natively: a single counterexample is being replayed
pub fn vp_replaying() -> bool {
    REPLAYING.load(Ordering::Relaxed)
}
/// true under the symbolic engine, false natively
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_is_sym() -> bool {
    black_box(false)
}

#[derive(Debug, PartialEq, Clone)]
pub enum Outcome {
    Done(u64),
    Assert(u64),
    Assume,
    Panic(String),
    BadTape,
}

fn parse_tape(s: &str) -> Vec<T> {
    let mut v = vec![];
    for e in s.split(',') {
        if let Some(h) = e.strip_prefix('S') {
            v.push(T::S((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()));
        } else if let Some(n) = e.strip_prefix('C') {
            v.push(T::C(n.parse().unwrap()));
        }
    }
    v
}

pub fn run_one(f: extern "C-unwind" fn(), params: Vec<u64>, tape: &str) -> Outcome {
    let t = parse_tape(tape);
    // every replay on its own thread: the code under test keeps thread-local state
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            CTX.with(|c| {
                *c.borrow_mut() = Ctx { tape: t, params, digest: 0xcbf29ce484222325, ..Default::default() }
            });
            let r = std::panic::catch_unwind(|| f());
            CTX.with(|c| {
                let c = c.borrow();
                if c.assumed {
                    return Outcome::Assume;
                }
                if let Some(i) = c.failed {
                    return Outcome::Assert(i);
                }
                if c.bad {
                    return Outcome::BadTape;
                }
                match r {
                    Ok(()) => Outcome::Done(c.digest),
                    Err(e) => {
                        let m = if let Some(s) = e.downcast_ref::<&str>() {
                            s.to_string()
                        } else if let Some(s) = e.downcast_ref::<String>() {
                            s.clone()
                        } else {
                            "?".into()
                        };
                        Outcome::Panic(m)
                    }
                }
            })
        })
        .unwrap()
        .join()
        .unwrap_or(Outcome::Panic("thread".into()))
}

fn run_apart(f: &[&str]) -> Outcome {
    let r = std::process::Command::new(std::env::current_exe().unwrap()).args(["alone", f[0], f[1], f[2]]).output().unwrap();
    let t = String::from_utf8_lossy(&r.stdout).to_string();
    if let Some(d) = t.strip_prefix("OK digest=") {
        return Outcome::Done(u64::from_str_radix(d.trim(), 16).unwrap());
    }
    if let Some(d) = t.strip_prefix("REPRODUCED assertion ") {
        return Outcome::Assert(d.trim().parse().unwrap());
    }
    if t.starts_with("OK") {
        return Outcome::Assume;
    }
    Outcome::Panic(t)
}

/// `batch FILE`: lines entry \t params \t tape \t digest; prints a summary.
/// `one ENTRY PARAMS TAPE`: replays one tape verbosely; exit 1 if the property fails.
pub fn main(table: &[(&str, extern "C-unwind" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| table.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("no entry {}", n)).1;
    let pp = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for t in table {
                println!("{}", t.0);
            }
        }
        // `isolated` replays each line in a process of its own
        Some(how @ ("batch" | "isolated")) => {
            let isolated = how == "isolated";
            std::panic::set_hook(Box::new(|_| {}));
            let src = std::fs::read_to_string(&a[2]).unwrap();
            let lines: Vec<&str> = src.lines().collect();
            let next = std::sync::atomic::AtomicUsize::new(0);
            let ok = std::sync::atomic::AtomicUsize::new(0);
            let again = std::sync::atomic::AtomicUsize::new(0);
            let bad = std::sync::Mutex::new(vec![]);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= lines.len() {
                            break;
                        }
                        let f: Vec<&str> = lines[i].split('\t').collect();
                        let want = u64::from_str_radix(f[3], 16).unwrap();
                        let mut o = if isolated { run_apart(&f) } else { run_one(find(f[0]), pp(f[1]), f[2]) };
                        // what differs is tried again on its own: the process may keep state
                        if o != Outcome::Done(want) && !isolated && again.fetch_add(1, Ordering::Relaxed) < 2000 {
                            o = run_apart(&f);
                        }
                        if o == Outcome::Done(want) {
                            ok.fetch_add(1, Ordering::Relaxed);
                        } else {
                            bad.lock().unwrap().push(format!("{} params={} tape={} engine={:016x} native={:?}", f[0], f[1], f[2], want, o));
                        }
                    });
                }
            });
            let bad = bad.into_inner().unwrap();
            println!("validated {} of {}", ok.load(Ordering::Relaxed), lines.len());
            for b in bad.iter().take(20) {
                println!("MISMATCH {}", b);
            }
            if !bad.is_empty() {
                std::process::exit(1);
            }
        }
        Some(how @ ("one" | "alone")) => {
            REPLAYING.store(how == "one", Ordering::Relaxed);
            let o = run_one(find(&a[2]), pp(&a[3]), a.get(4).map_or("", |s| s.as_str()));
            match o {
                Outcome::Done(d) => println!("OK digest={:016x}", d),
                Outcome::Assume => println!("OK (assumption not met)"),
                Outcome::Assert(i) => {
                    println!("REPRODUCED assertion {}", i);
                    std::process::exit(1)
                }
                Outcome::Panic(m) => {
                    println!("REPRODUCED panic: {}", m);
                    std::process::exit(1)
                }
                Outcome::BadTape => {
                    println!("BAD TAPE");
                    std::process::exit(2)
                }
            }
        }
        _ => {
            // never taken; keeps every entry alive in the executable
            for t in table {
                black_box(t.1);
            }
        }
    }
}
