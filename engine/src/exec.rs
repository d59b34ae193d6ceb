//! Symbolic interpreter for the parsed module.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Ans, Z3};
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone)]
pub struct Rel {
    sup: u128,
    rows: Rc<Vec<[u8; 4]>>,
    cons: Rc<Vec<u32>>,
    doms: Vec<(u16, Set)>,
}
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>,
}

impl Obj {
    fn new(n: usize) -> Self {
        Obj { data: vec![0; n], sym: vec![] }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    b: u32,
    ip: u32,
    regs: Vec<V>,
    sp: u32,
    nomerge: bool,
}

pub struct Dec {
    prev: Option<Rc<Dec>>,
    val: u64,
    len: u32,
}
impl Drop for Dec {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(rc) = p {
            match Rc::try_unwrap(rc) {
                Ok(mut d) => p = d.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Tape {
    S(u16, u16), // vars start, len
    C(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Option<Rc<Obj>>>,
    freeq: VecDeque<u32>,
    stack: Vec<Rc<Obj>>,
    muts: Vec<Rc<Obj>>,
    dom: Vec<Set>,
    cons: Vec<u32>,
    /// explicit relations of small components (a cache: implied by dom and cons)
    rels: Vec<Rel>,
    model: Rc<Vec<u8>>,
    model_ok: bool,
    dec: Option<Rc<Dec>>,
    record: bool,
    replay: Option<(Arc<Vec<u64>>, usize)>,
    merge_now: Option<usize>,
    subst: Vec<(u32, u128)>,
    tape: Vec<Tape>,
    notes: Vec<V>,
    exc: u64,
    steps: u64,
    work: u64,
    pure_floor: Option<(usize, u32)>, // (frame index, stack base) while merging
    max_depth: usize,
    asserts: u32,
    other: bool,
    /// thread-local variables of the thread that waits for the other one
    away: Option<Vec<Rc<Obj>>>,
}

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Assume,
    Assert(u64),
    Panic,
    Mem(String),
    Abort(String),
    Unreachable,
    StepLimit,
    Unsupported(String),
    MergeAbort,
}

#[derive(Clone, Debug)]
pub enum Act {
    Goto(usize),      // index of edge (condbr: 0 true 1 false; switch: target idx, targets.len() = default)
    Subst(u32, u128), // replace expression by value and re-execute
    Ret(V),           // finish builtin call with value
}

pub struct Alt {
    cond: u32,
    model: Option<Rc<Vec<u8>>>,
    act: Act,
    code: u64,
}

pub enum Ev {
    End(End),
    Fork(Vec<Alt>),
    MergeRet(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Nop0,
    Nop,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    SaddO,
    SsubO,
    SmulO,
    UaddO,
    UsubO,
    UmulO,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    IsConstant,
    ExpectFirst,
    Trap,
    Raise,
    DeleteExc,
    RustBeginUnwind,
    VpSym,
    VpAssume,
    VpAssert,
    VpChoice,
    VpParam,
    VpReach,
    VpNote,
    VpOther,
    Syscall,
    Yield,
    VpDepthReset,
    VpDepthMax,
    VpIsSym,
    VpHeapLive,
    VpWork,
    Getrandom,
    Memchr,
    Memrchr,
    Fabs,
    Copysign,
    ErrnoLoc,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    Ptrmask,
    Abort,
    FloatFmt,
    CountChars,
}

fn builtin(name: &str) -> B {
    if let Some(r) = name.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return if st("memcpy") || st("memmove") {
            B::Memcpy
        } else if st("memset") {
            B::Memset
        } else if st("umax") {
            B::Umax
        } else if st("umin") {
            B::Umin
        } else if st("smax") {
            B::Smax
        } else if st("smin") {
            B::Smin
        } else if st("usub.sat") {
            B::UsubSat
        } else if st("uadd.sat") {
            B::UaddSat
        } else if st("sadd.with.overflow") {
            B::SaddO
        } else if st("ssub.with.overflow") {
            B::SsubO
        } else if st("smul.with.overflow") {
            B::SmulO
        } else if st("uadd.with.overflow") {
            B::UaddO
        } else if st("usub.with.overflow") {
            B::UsubO
        } else if st("umul.with.overflow") {
            B::UmulO
        } else if st("ctpop") {
            B::Ctpop
        } else if st("ctlz") {
            B::Ctlz
        } else if st("cttz") {
            B::Cttz
        } else if st("bswap") {
            B::Bswap
        } else if st("bitreverse") {
            B::Bitreverse
        } else if st("fshl") {
            B::Fshl
        } else if st("fshr") {
            B::Fshr
        } else if st("abs") {
            B::Abs
        } else if st("ucmp") {
            B::Ucmp
        } else if st("scmp") {
            B::Scmp
        } else if st("is.constant") {
            B::IsConstant
        } else if st("expect") || st("threadlocal.address") || st("launder") || st("strip.inv") {
            B::ExpectFirst
        } else if st("trap") {
            B::Trap
        } else if st("fabs") {
            B::Fabs
        } else if st("copysign") {
            B::Copysign
        } else if st("vector.reduce.or") {
            B::VecReduceOr
        } else if st("vector.reduce.and") {
            B::VecReduceAnd
        } else if st("vector.reduce.add") {
            B::VecReduceAdd
        } else if st("ptrmask") {
            B::Ptrmask
        } else if st("assume") || st("lifetime") || st("experimental.noalias") || st("dbg") || st("prefetch") || st("x86.sse2.pause") || st("donothing") {
            B::Nop
        } else {
            B::None
        };
    }
    match name {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "bcmp" => B::Bcmp,
        "memcmp" => B::Memcmp,
        "strlen" => B::Strlen,
        "getrandom" => B::Getrandom,
        "__cxa_thread_atexit_impl" => B::Nop0,
        "_Unwind_RaiseException" => B::Raise,
        "_Unwind_DeleteException" => B::DeleteExc,
        "__errno_location" => B::ErrnoLoc,
        "abort" => B::Abort,
        "vp_sym" => B::VpSym,
        "vp_assume" => B::VpAssume,
        "vp_assert" => B::VpAssert,
        "vp_choice" => B::VpChoice,
        "vp_param" => B::VpParam,
        "vp_reach" => B::VpReach,
        "vp_note" => B::VpNote,
        "vp_other" => B::VpOther,
        "syscall" => B::Syscall,
        "sched_yield" => B::Yield,
        "vp_depth_reset" => B::VpDepthReset,
        "vp_depth_max" => B::VpDepthMax,
        "vp_is_sym" => B::VpIsSym,
        "vp_heap_live" => B::VpHeapLive,
        "vp_work" => B::VpWork,
        _ => {
            if name.contains("rust_begin_unwind") {
                B::RustBeginUnwind
            } else if name.starts_with("_RNvNtNtCs") && name.ends_with("4core5slice6memchr14memchr_aligned") {
                B::Memchr
            } else if name.starts_with("_RNvNtNtCs") && name.ends_with("4core5slice6memchr7memrchr") {
                B::Memrchr
            } else if name.starts_with("_RNvNtNtCs") && name.ends_with("4core3str5count14do_count_chars") {
                B::CountChars
            } else {
                B::None
            }
        }
    }
}

pub struct Prog {
    pub m: Module,
    pub builtins: Vec<B>,
    pub cdata: Vec<Arc<Vec<u8>>>,
    pub resume_fn: Option<u32>,
    /// core's float Display functions and their stand-in
    pub float_fmt: Option<(u32, u32, u32)>,
    /// core's float to decimal conversion: not encoded for symbolic floats
    pub flt2dec: Vec<bool>,
}

impl Prog {
    pub fn new(m: Module) -> Self {
        let builtins = m.funcs.iter().map(|f| builtin(&f.name)).collect();
        let cdata = m.consts.iter().map(|&g| Arc::new(m.globals[g as usize].data.clone())).collect();
        let resume_fn = m.fidx.get("vp_resume_unwind").copied();
        let find = |x: &str| m.funcs.iter().position(|f| f.name.ends_with(x)).map(|x| x as u32);
        let float_fmt = match (find("4core3fmt5floatfNtB7_7Display3fmt"), find("4core3fmt5floatdNtB7_7Display3fmt"), find("vp_float_fmt")) {
            (Some(a), Some(b), Some(c)) => Some((a, b, c)),
            _ => None,
        };
        let flt2dec = m.funcs.iter().map(|f| f.name.contains("7flt2dec")).collect();
        Prog { m, builtins, cdata, resume_fn, float_fmt, flt2dec }
    }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub name: String,
    pub entry: String,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_time: f64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub assumed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub merges: u64,
    pub merge_aborts: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_z3: u64,
    pub dom_decided: u64,
    pub rel_decided: u64,
    pub model_decided: u64,
    pub cache_hits: u64,
    pub reach: HashMap<u64, u64>,
    pub unsupported: HashMap<String, u64>,
    pub funcs: Vec<bool>,
    pub crosschecks: u64,
    pub max_depth: usize,
}

pub struct Violation {
    pub job: usize,
    pub kind: String,
    pub id: u64,
    pub tape: String,
    pub trace: Vec<String>,
}

pub struct PathRec {
    pub job: usize,
    pub tape: String,
    pub digest: u64,
    pub end: char,
}

pub struct Shared {
    pub queue: std::sync::Mutex<VecDeque<(usize, Vec<u64>)>>,
    pub cv: std::sync::Condvar,
    pub idle: AtomicUsize,
    pub nworkers: usize,
    pub qlen: AtomicUsize,
    pub stop: AtomicBool,
    pub job_left: Vec<AtomicUsize>, // outstanding tasks per job
    pub job_time: Vec<AtomicU64>,   // microseconds spent
    pub job_paths: Vec<AtomicU64>,
    pub job_viol: Vec<AtomicU64>,
    pub job_incomplete: Vec<AtomicBool>,
    pub deadline: Instant,
    /// milliseconds from `start` until the run ends, once something has been found
    pub start: Instant,
    pub ends: AtomicU64,
    pub after: u64,
}

impl Shared {
    pub fn over(&self) -> bool {
        let now = Instant::now();
        now > self.deadline || (now - self.start).as_millis() as u64 > self.ends.load(Ordering::Relaxed)
    }
}

pub struct Engine<'p> {
    pub p: &'p Prog,
    pub ar: Arena,
    pub task_unknown: u64,
    pub z3: Z3,
    pub st: Stats,
    pub jst: Vec<Stats>,
    cache: FxMap<(u64, u64), bool>,
    pub viol: Vec<Violation>,
    pub recs: Vec<PathRec>,
    pub cur_job: usize,
    jobs: &'p [Job],
    merge_fail: FxMap<u32, u32>,
    merge_ok: FxMap<u32, u32>,
    rng: u64,
    pub crosscheck: u64,
    /// seconds spent cross-checking relation decisions with z3
    cross_time: f64,
    max_recs: usize,
}

/// largest explicit relation
const MAX_ROWS: u64 = 70_000;
const MERGE_MARK: u64 = 0x8bad_f00d;
const MAX_MERGE_PATHS: u32 = 3000;
const MAX_MERGE_STEPS: u64 = 3_000_000;

type R<T> = Result<T, Ev>;

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Ev::End(End::Unsupported(s.into())))
}
fn memerr<T>(s: impl Into<String>) -> R<T> {
    Err(Ev::End(End::Mem(s.into())))
}

impl<'p> Engine<'p> {
    pub fn new(p: &'p Prog, jobs: &'p [Job], seed: u64, crosscheck: u64, max_recs: usize) -> Self {
        let mut jst = vec![];
        for _ in jobs {
            let mut s = Stats::default();
            s.funcs = vec![false; p.m.funcs.len()];
            jst.push(s);
        }
        let mut st = Stats::default();
        st.funcs = vec![false; p.m.funcs.len()];
        Engine {
            p,
            ar: Arena::new(),
            task_unknown: 0,
            z3: Z3::new(30_000),
            st,
            jst,
            cache: Default::default(),
            viol: vec![],
            recs: vec![],
            cur_job: 0,
            jobs,
            merge_fail: Default::default(),
            merge_ok: Default::default(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            crosscheck,
            cross_time: 0.0,
            max_recs,
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn initial(&mut self, job: usize) -> State {
        let entry = *self.p.m.fidx.get(&self.jobs[job].entry).unwrap_or_else(|| panic!("no entry {}", self.jobs[job].entry));
        let f = &self.p.m.funcs[entry as usize];
        assert!(f.defined);
        let muts = self.p.m.muts.iter().map(|&g| Rc::new(Obj { data: self.p.m.globals[g as usize].data.clone(), sym: vec![] })).collect();
        State {
            frames: vec![Rc::new(Frame { f: entry, b: 0, ip: 0, regs: vec![V::C(0); f.nregs as usize], sp: 0, nomerge: true })],
            heap: vec![],
            freeq: VecDeque::new(),
            stack: vec![],
            muts,
            dom: vec![],
            cons: vec![],
            rels: vec![],
            model: Rc::new(vec![]),
            model_ok: true,
            dec: None,
            record: true,
            replay: None,
            merge_now: None,
            subst: vec![],
            tape: vec![],
            notes: vec![],
            exc: 0,
            steps: 0,
            work: 0,
            pure_floor: None,
            max_depth: 0,
            other: false,
            away: None,
            asserts: 0,
        }
    }

    // ---------- constraints ----------

    fn add_con(&mut self, st: &mut State, e: u32) -> bool {
        let mut work = vec![(e, true)];
        let mut changed: u128 = 0;
        loop {
            while let Some((e, want)) = work.pop() {
                if !self.refine(st, e, want, &mut work, &mut changed) {
                    return false;
                }
            }
            if changed == 0 {
                return true;
            }
            let ch = changed;
            changed = 0;
            let mut i = 0;
            while i < st.cons.len() {
                let c = st.cons[i];
                if self.ar.sup(c) & ch != 0 {
                    st.cons.swap_remove(i);
                    work.push((c, true));
                } else {
                    i += 1;
                }
            }
            if work.is_empty() {
                return true;
            }
        }
    }
    fn refine(&mut self, st: &mut State, e: u32, want: bool, work: &mut Vec<(u32, bool)>, changed: &mut u128) -> bool {
        match self.ar.is_const(e) {
            Some(c) => return (c != 0) == want,
            None => {}
        }
        let sup = self.ar.sup(e);
        if sup.count_ones() == 1 {
            let v = sup.trailing_zeros() as usize;
            let mut t = self.ar.truth(e);
            if !want {
                t = set_not(&t);
            }
            let nd = set_and(&st.dom[v], &t);
            if nd == EMPTY {
                return false;
            }
            if nd != st.dom[v] {
                st.dom[v] = nd;
                *changed |= sup;
            }
            return true;
        }
        let n = self.ar.nodes[e as usize].n;
        match n {
            N::Bin(Bin::Xor, a, b) if b == Arena::T => {
                work.push((a, !want));
                return true;
            }
            N::Bin(Bin::And, a, b) if self.ar.w(e) == 1 => {
                if want {
                    work.push((a, true));
                    work.push((b, true));
                    return true;
                }
                match (self.ar.tri(a, &st.dom), self.ar.tri(b, &st.dom)) {
                    (Some(false), _) | (_, Some(false)) => return true,
                    (Some(true), _) => {
                        work.push((b, false));
                        return true;
                    }
                    (_, Some(true)) => {
                        work.push((a, false));
                        return true;
                    }
                    _ => {}
                }
            }
            N::Bin(Bin::Or, a, b) if self.ar.w(e) == 1 => {
                if !want {
                    work.push((a, false));
                    work.push((b, false));
                    return true;
                }
                match (self.ar.tri(a, &st.dom), self.ar.tri(b, &st.dom)) {
                    (Some(true), _) | (_, Some(true)) => return true,
                    (Some(false), _) => {
                        work.push((b, true));
                        return true;
                    }
                    (_, Some(false)) => {
                        work.push((a, true));
                        return true;
                    }
                    _ => {}
                }
            }
            N::Ite(c, a, b) => match self.ar.tri(c, &st.dom) {
                Some(true) => {
                    work.push((a, want));
                    return true;
                }
                Some(false) => {
                    work.push((b, want));
                    return true;
                }
                None => {}
            },
            _ => {}
        }
        match self.ar.tri(e, &st.dom) {
            Some(x) => return x == want,
            None => {}
        }
        let c = if want { e } else { self.ar.not(e) };
        if !st.cons.contains(&c) {
            st.cons.push(c);
        }
        true
    }

    fn slice(&self, st: &State, sup0: u128) -> (u128, Vec<u32>) {
        let mut sup = sup0;
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if !used[i] {
                    let s = self.ar.sup(c);
                    if s & sup != 0 {
                        used[i] = true;
                        sup |= s;
                        out.push(c);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort();
        (sup, out)
    }

    fn doms(&self, st: &State, sup: u128) -> Vec<(u16, Set)> {
        let mut r = vec![];
        let mut s = sup;
        while s != 0 {
            let v = s.trailing_zeros() as usize;
            s &= s - 1;
            r.push((v as u16, st.dom[v]));
        }
        r
    }

    fn ensure_model(&mut self, st: &mut State) -> bool {
        if st.model_ok {
            return true;
        }
        // pick from domains
        let mut m: Vec<u8> = vec![0; st.dom.len()];
        for i in 0..m.len() {
            match set_first(&st.dom[i]) {
                Some(v) => {
                    m[i] = if i < st.model.len() && set_has(&st.dom[i], st.model[i]) { st.model[i] } else { v }
                }
                None => return false,
            }
        }
        let all = st.cons.clone();
        let mut rest: Vec<u32> = all.iter().cloned().filter(|&c| self.ar.eval(c, &m) == 0).collect();
        // small components first
        while let Some(&c) = rest.first() {
            let (ssup, cons) = self.slice(st, self.ar.sup(c));
            let ri = match self.relation(st, ssup, &cons) {
                Some(ri) => ri,
                None => break,
            };
            let row = match st.rels[ri].rows.first() {
                Some(r) => *r,
                None => return false,
            };
            let mut s = ssup;
            let mut j = 0;
            while s != 0 {
                m[s.trailing_zeros() as usize] = row[j];
                s &= s - 1;
                j += 1;
            }
            rest.retain(|c| self.ar.sup(*c) & ssup == 0);
        }
        if !rest.is_empty() {
            let sup: u128 = all.iter().fold(0, |a, &c| a | self.ar.sup(c));
            let d = self.doms(st, sup);
            match self.z3.check(&self.ar, &d, &all, &m) {
                Ans::Sat(mm) => m = mm,
                Ans::Unsat => return false,
                Ans::Unknown => {}
            }
        }
        st.model = Rc::new(m);
        st.model_ok = true;
        true
    }

    /// The explicit relation of a small constraint component (variables `ssup`,
    /// constraints `cons`): every assignment allowed by the path so far.
    fn relation(&mut self, st: &mut State, ssup: u128, cons: &[u32]) -> Option<usize> {
        let nv = ssup.count_ones();
        if nv == 0 || nv > 4 {
            return None;
        }
        let d = self.doms(st, ssup);
        let old = st.rels.iter().position(|r| r.sup == ssup);
        let mut rel = match old {
            Some(i) => st.rels.swap_remove(i),
            None => {
                let mut prod = 1u64;
                for (_, s) in &d {
                    prod *= set_count(s) as u64;
                    if prod > MAX_ROWS {
                        return None;
                    }
                }
                let mut rows: Vec<[u8; 4]> = vec![[0; 4]];
                for (j, (_, s)) in d.iter().enumerate() {
                    let mut next = Vec::with_capacity(rows.len() * set_count(s) as usize);
                    for r in &rows {
                        for x in 0..=255u8 {
                            if set_has(s, x) {
                                let mut r = *r;
                                r[j] = x;
                                next.push(r);
                            }
                        }
                    }
                    rows = next;
                }
                Rel { sup: ssup, rows: Rc::new(rows), cons: Rc::new(vec![]), doms: d.clone() }
            }
        };
        let vars: Vec<u16> = d.iter().map(|x| x.0).collect();
        if rel.doms != d {
            let rows: Vec<[u8; 4]> = rel.rows.iter().filter(|r| d.iter().enumerate().all(|(j, (_, s))| set_has(s, r[j]))).cloned().collect();
            rel.rows = Rc::new(rows);
            rel.doms = d;
        }
        for &c in cons {
            if rel.cons.contains(&c) {
                continue;
            }
            let mut rows = Vec::with_capacity(rel.rows.len());
            let src = rel.rows.clone();
            self.ar.eval_rows(c, &vars, &src, &mut |i, v| {
                if v != 0 {
                    rows.push(src[i]);
                }
                true
            });
            rel.rows = Rc::new(rows);
            Rc::make_mut(&mut rel.cons).push(c);
        }
        st.rels.push(rel);
        Some(st.rels.len() - 1)
    }
    fn row_model(&self, st: &State, sup: u128, row: [u8; 4]) -> Rc<Vec<u8>> {
        let mut m = (*st.model).clone();
        let mut s = sup;
        let mut j = 0;
        while s != 0 {
            m[s.trailing_zeros() as usize] = row[j];
            s &= s - 1;
            j += 1;
        }
        Rc::new(m)
    }

    /// Is pc && e satisfiable? returns a model of it.
    fn feasible(&mut self, st: &mut State, e: u32) -> Option<Rc<Vec<u8>>> {
        match self.ar.is_const(e) {
            Some(0) => return None,
            Some(_) => return Some(st.model.clone()),
            None => {}
        }
        if st.model_ok {
            let m = st.model.clone();
            if self.ar.eval(e, &m) != 0 {
                return Some(m);
            }
        } else if !self.ensure_model(st) {
            return None;
        } else {
            let m = st.model.clone();
            if self.ar.eval(e, &m) != 0 {
                return Some(m);
            }
        }
        if self.ar.tri(e, &st.dom) == Some(false) {
            self.st.dom_decided += 1;
            if self.crosscheck != 0 && self.cross_time < 4.0 && self.rand() % self.crosscheck == 0 {
                self.st.crosschecks += 1;
                let t0 = Instant::now();
                let (sup, mut cons) = self.slice(st, self.ar.sup(e));
                cons.push(e);
                cons.retain(|&c| c == e || self.ar.size(c, 600) < 600);
                let small = self.ar.size(e, 600) < 600 && self.slice(st, self.ar.sup(e)).1.len() + 1 == cons.len();
                if !small {
                    self.st.crosschecks -= 1;
                    return None;
                }
                let d = self.doms(st, sup);
                if let Ans::Sat(_) = self.z3.check(&self.ar, &d, &cons, &st.model) {
                    panic!("crosscheck: domain decision disagrees with z3: {}", self.ar.show(e));
                }
                self.cross_time += t0.elapsed().as_secs_f64();
            }
            return None;
        }
        let sup = self.ar.sup(e);
        let (ssup, cons) = self.slice(st, sup);
        // local search on single variables
        if sup.count_ones() == 1 {
            let v = sup.trailing_zeros() as usize;
            let t = self.ar.truth(e);
            let d = set_and(&t, &st.dom[v]);
            if cons.is_empty() {
                self.st.dom_decided += 1;
                let x = set_first(&d)?;
                let mut m = (*st.model).clone();
                m[v] = x;
                return Some(Rc::new(m));
            }
            let mut m = (*st.model).clone();
            let mut tries = 0;
            for x in 0..=255u8 {
                if set_has(&d, x) {
                    m[v] = x;
                    if cons.iter().all(|&c| self.ar.eval(c, &m) != 0) {
                        self.st.model_decided += 1;
                        return Some(Rc::new(m));
                    }
                    tries += 1;
                    if tries > 12 {
                        break;
                    }
                }
            }
        } else {
            // try changing one variable at a time
            let mut m = (*st.model).clone();
            let mut s = sup;
            let mut budget = 64;
            'o: while s != 0 {
                let v = s.trailing_zeros() as usize;
                s &= s - 1;
                let old = m[v];
                let r = self.rand() as u8;
                for k in 0..24u8 {
                    let x = r.wrapping_add(k.wrapping_mul(11));
                    if set_has(&st.dom[v], x) {
                        m[v] = x;
                        if self.ar.eval(e, &m) != 0 && cons.iter().all(|&c| self.ar.eval(c, &m) != 0) {
                            self.st.model_decided += 1;
                            return Some(Rc::new(m));
                        }
                        budget -= 1;
                        if budget == 0 {
                            break 'o;
                        }
                    }
                }
                m[v] = old;
            }
        }
        let d = self.doms(st, ssup);
        let key = {
            let mut h1 = Fx::default();
            let mut h2 = Fx::default();
            use std::hash::Hasher;
            h2.write_u64(0xabcdef);
            for c in &cons {
                h1.write_u32(*c);
                h2.write_u32(c.wrapping_mul(31));
            }
            h1.write_u32(e);
            h2.write_u32(e.wrapping_mul(17));
            for (v, s) in &d {
                h1.write_u16(*v);
                for x in s {
                    h1.write_u64(*x);
                    h2.write_u64(x.rotate_left(7));
                }
            }
            (h1.finish(), h2.finish())
        };
        if let Some(false) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return None;
        }
        let mut all = cons.clone();
        all.push(e);
        if let Some(ri) = self.relation(st, ssup, &cons) {
            let rows = st.rels[ri].rows.clone();
            let vars: Vec<u16> = d.iter().map(|x| x.0).collect();
            let mut hit = None;
            self.ar.eval_rows(e, &vars, &rows, &mut |i, v| {
                if v != 0 {
                    hit = Some(rows[i]);
                    false
                } else {
                    true
                }
            });
            self.st.rel_decided += 1;
            if self.crosscheck != 0 && self.cross_time < 4.0 && rows.len() <= 2048 && self.rand() % self.crosscheck == 0 && all.iter().all(|&c| self.ar.size(c, 600) < 600) {
                self.st.crosschecks += 1;
                let t0 = Instant::now();
                let zr = self.z3.check(&self.ar, &d, &all, &st.model);
                self.cross_time += t0.elapsed().as_secs_f64();
                match (zr, hit) {
                    (Ans::Sat(_), None) | (Ans::Unsat, Some(_)) => panic!("crosscheck: relation decision disagrees with z3: {}", self.ar.show(e)),
                    _ => {}
                }
            }
            return match hit {
                Some(r) => Some(self.row_model(st, ssup, r)),
                None => {
                    self.cache.insert(key, false);
                    None
                }
            };
        }
        match self.z3.check(&self.ar, &d, &all, &st.model) {
            Ans::Sat(m) => Some(Rc::new(m)),
            Ans::Unsat => {
                self.cache.insert(key, false);
                None
            }
            Ans::Unknown => {
                *self.st.unsupported.entry("z3-unknown".into()).or_insert(0) += 1;
                // keep exploring without a verified model
                Some(st.model.clone())
            }
        }
    }

    // ---------- memory ----------

    fn lookup<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> R<(&'a [u8], &'a [u32], usize)> {
        let kind = addr >> KSH;
        let idx = ((addr >> OSH) & 0xfffff) as usize;
        let off = (addr & 0xffffff) as usize;
        let (d, s): (&[u8], &[u32]) = match kind {
            K_CONST => match self.p.cdata.get(idx) {
                Some(d) => (&d[..], &[]),
                None => return memerr(format!("bad const address {:#x}", addr)),
            },
            K_MUT => match st.muts.get(idx) {
                Some(o) => (&o.data, &o.sym),
                None => return memerr(format!("bad global address {:#x}", addr)),
            },
            K_HEAP => match st.heap.get(idx) {
                Some(Some(o)) => (&o.data, &o.sym),
                Some(None) => return memerr(format!("use after free {:#x}", addr)),
                None => return memerr(format!("bad heap address {:#x}", addr)),
            },
            K_STACK => match st.stack.get(idx) {
                Some(o) => (&o.data, &o.sym),
                None => return memerr(format!("dangling stack address {:#x}", addr)),
            },
            _ => return memerr(format!("invalid address {:#x}", addr)),
        };
        if off as u64 + n > d.len() as u64 {
            return memerr(format!("out of bounds: address {:#x} size {} object size {}", addr, n, d.len()));
        }
        Ok((d, s, off))
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let kind = addr >> KSH;
        let idx = ((addr >> OSH) & 0xfffff) as usize;
        let off = (addr & 0xffffff) as usize;
        if let Some((_, base)) = st.pure_floor {
            if kind != K_STACK || idx < base as usize {
                return Err(Ev::End(End::MergeAbort));
            }
        }
        let o = match kind {
            K_MUT => match st.muts.get_mut(idx) {
                Some(o) => Rc::make_mut(o),
                None => return memerr(format!("bad global address {:#x}", addr)),
            },
            K_HEAP => match st.heap.get_mut(idx) {
                Some(Some(o)) => Rc::make_mut(o),
                Some(None) => return memerr(format!("write after free {:#x}", addr)),
                None => return memerr(format!("bad heap address {:#x}", addr)),
            },
            K_STACK => match st.stack.get_mut(idx) {
                Some(o) => Rc::make_mut(o),
                None => return memerr(format!("dangling stack address {:#x}", addr)),
            },
            K_CONST => return memerr(format!("write to constant {:#x}", addr)),
            _ => return memerr(format!("invalid write address {:#x}", addr)),
        };
        if off as u64 + n > o.data.len() as u64 {
            return memerr(format!("out of bounds write: address {:#x} size {} object size {}", addr, n, o.data.len()));
        }
        Ok((o, off))
    }
    fn load_bits(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (d, s, off) = self.lookup(st, addr, n as u64)?;
        if s.is_empty() || s[off..off + n].iter().all(|x| *x == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&d[off..off + n]);
            return Ok(V::C(u128::from_le_bytes(b) & mask(w)));
        }
        let parts: Vec<(u8, u32)> = (0..n).map(|i| (d[off + i], s[off + i])).collect();
        let mut e: Option<u32> = None;
        for i in 0..n {
            let (b, sy) = parts[i];
            let x = if sy == 0 { self.ar.konst(b as u128, 8) } else { sy };
            e = Some(match e {
                None => x,
                Some(lo) => self.ar.cat(x, lo),
            });
        }
        let mut e = e.unwrap();
        if self.ar.w(e) > w {
            e = self.ar.ext(e, 0, w);
        }
        Ok(self.mkv(e))
    }
    fn mkv(&self, e: u32) -> V {
        match self.ar.is_const(e) {
            Some(c) => V::C(c),
            None => V::E(e),
        }
    }
    fn store_bits(&mut self, st: &mut State, addr: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(c) => {
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
            V::E(e) => {
                let mut e = *e;
                if self.ar.w(e) < n as u32 * 8 {
                    e = self.ar.zext(e, n as u32 * 8);
                }
                let mut parts = vec![];
                for i in 0..n {
                    let x = self.ar.ext(e, 8 * i as u32, 8);
                    parts.push((x, self.ar.is_const(x)));
                }
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    match parts[i].1 {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = parts[i].0,
                    }
                }
            }
            V::A(_) => return unsup("store agg bits"),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, addr: u64, ty: TyId) -> R<V> {
        match self.p.m.types[ty as usize].clone() {
            Ty::Int(w) => self.load_bits(st, addr, w),
            Ty::Ptr | Ty::F64 => self.load_bits(st, addr, 64),
            Ty::F32 => self.load_bits(st, addr, 32),
            Ty::Array(n, e) => {
                let s = self.p.m.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, addr + i * s, e)?);
                }
                Ok(V::A(Arc::new(v)))
            }
            Ty::Vector(n, e) => {
                let ew = self.p.m.width(e);
                if ew % 8 != 0 {
                    return unsup("vector of odd ints load");
                }
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load_bits(st, addr + i * (ew as u64 / 8), ew)?);
                }
                Ok(V::A(Arc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.load(st, addr + self.p.m.field_off(ty, i), *f)?);
                }
                Ok(V::A(Arc::new(v)))
            }
            t => unsup(format!("load {:?}", t)),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &V) -> R<()> {
        match self.p.m.types[ty as usize].clone() {
            Ty::Int(w) => {
                
                if w % 8 != 0 && w > 8 {
                    return unsup(format!("store i{}", w));
                }
                self.store_bits(st, addr, w, v)
            }
            Ty::Ptr | Ty::F64 => self.store_bits(st, addr, 64, v),
            Ty::F32 => self.store_bits(st, addr, 32, v),
            Ty::Array(_, e) => {
                let s = self.p.m.size(e);
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store(st, addr + i as u64 * s, e, x)?;
                    }
                }
                Ok(())
            }
            Ty::Vector(_, e) => {
                let ew = self.p.m.width(e);
                if ew % 8 != 0 {
                    return unsup("vector of odd ints store");
                }
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store_bits(st, addr + i as u64 * (ew as u64 / 8), ew, x)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store(st, addr + self.p.m.field_off(ty, i), fs[i], x)?;
                    }
                }
                Ok(())
            }
            t => unsup(format!("store {:?}", t)),
        }
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if st.pure_floor.is_some() {
            return Err(Ev::End(End::MergeAbort));
        }
        if n > 0xff_0000 {
            return unsup(format!("huge allocation {}", n));
        }
        let o = Rc::new(Obj::new(n as usize));
        let idx = if st.freeq.len() > 200 {
            let i = st.freeq.pop_front().unwrap();
            st.heap[i as usize] = Some(o);
            i as u64
        } else {
            st.heap.push(Some(o));
            st.heap.len() as u64 - 1
        };
        if idx >= 0xfffff {
            return unsup("too many heap objects");
        }
        Ok(mkaddr(K_HEAP, idx, 0))
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        if st.pure_floor.is_some() {
            return Err(Ev::End(End::MergeAbort));
        }
        let kind = a >> KSH;
        let idx = ((a >> OSH) & 0xfffff) as usize;
        if kind != K_HEAP || a & 0xffffff != 0 {
            return memerr(format!("free of non-heap pointer {:#x}", a));
        }
        match st.heap.get_mut(idx) {
            Some(x @ Some(_)) => *x = None,
            _ => return memerr(format!("double free {:#x}", a)),
        }
        st.freeq.push_back(idx as u32);
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        st.work += n / 4;
        let (d, s, off) = self.lookup(st, src, n)?;
        let n = n as usize;
        let db = d[off..off + n].to_vec();
        let sb: Option<Vec<u32>> = if s.is_empty() || s[off..off + n].iter().all(|x| *x == 0) { None } else { Some(s[off..off + n].to_vec()) };
        let (o, off) = self.obj_mut(st, dst, n as u64)?;
        o.data[off..off + n].copy_from_slice(&db);
        match sb {
            None => {
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
            Some(sb) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off..off + n].copy_from_slice(&sb);
            }
        }
        Ok(())
    }
    fn byte_at(&mut self, st: &State, addr: u64) -> R<V> {
        self.load_bits(st, addr, 8)
    }

    // ---------- values ----------

    fn get(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    fn ex(&mut self, v: &V, w: u32) -> u32 {
        match v {
            V::C(c) => self.ar.konst(*c, w),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            return match fold(op, w, *x, *y) {
                Some(r) => Ok(V::C(r)),
                None => memerr("division by zero"),
            };
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.bin(op, x, y);
        Ok(self.mkv(e))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                _ => {
                    let (x, y) = (sext(x, w), sext(y, w));
                    match p {
                        Pred::Sgt => x > y,
                        Pred::Sge => x >= y,
                        Pred::Slt => x < y,
                        _ => x <= y,
                    }
                }
            };
            return V::C(r as u128);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Uge => {
                let e = self.ar.ult(x, y);
                self.ar.not(e)
            }
            Pred::Ule => {
                let e = self.ar.ult(y, x);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sge => {
                let e = self.ar.slt(x, y);
                self.ar.not(e)
            }
            Pred::Sle => {
                let e = self.ar.slt(y, x);
                self.ar.not(e)
            }
        };
        self.mkv(e)
    }

    fn subst(&self, st: &State, e: u32) -> Option<u128> {
        st.subst.iter().rev().find(|(x, _)| *x == e).map(|(_, v)| *v)
    }

    /// Rewrite an expression under what the path already fixes: variables with a
    /// single remaining value and conditions already assumed.
    fn simp(&mut self, st: &State, e: u32) -> u32 {
        let sup = self.ar.sup(e);
        if sup.count_ones() <= 1 {
            return e;
        }
        let mut facts: FxMap<u32, u32> = FxMap::default();
        for &c in &st.cons {
            if self.ar.sup(c) & sup == 0 {
                continue;
            }
            match self.ar.nodes[c as usize].n {
                N::Bin(Bin::Xor, a, b) if b == Arena::T => {
                    facts.insert(a, Arena::F);
                }
                _ => {
                    facts.insert(c, Arena::T);
                }
            }
        }
        self.simp_rec(st, e, &mut facts)
    }
    fn simp_rec(&mut self, st: &State, e: u32, memo: &mut FxMap<u32, u32>) -> u32 {
        let nd = &self.ar.nodes[e as usize];
        let (n, w, sup) = (nd.n, nd.w, nd.sup);
        if sup == 0 {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        if sup.count_ones() == 1 {
            let v = sup.trailing_zeros() as usize;
            let d = st.dom[v];
            let r = if w == 1 {
                let t = self.ar.truth(e);
                let y = set_and(&t, &d);
                if y == EMPTY {
                    Arena::F
                } else if y == d {
                    Arena::T
                } else {
                    e
                }
            } else if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                let mut m = [0u8; 128];
                m[v] = set_first(&d).unwrap();
                let x = self.ar.eval(e, &m);
                self.ar.konst(x, w)
            } else {
                match n {
                    N::Var(_) => e,
                    _ => self.simp_kids(st, n, w, e, memo),
                }
            };
            memo.insert(e, r);
            return r;
        }
        let r = self.simp_kids(st, n, w, e, memo);
        let r = if w == 1 && r != e { memo.get(&r).copied().unwrap_or(r) } else { r };
        memo.insert(e, r);
        r
    }
    fn simp_kids(&mut self, st: &State, n: N, w: u32, e: u32, memo: &mut FxMap<u32, u32>) -> u32 {
        match n {
            N::Var(_) | N::Const(_) => e,
            N::Bin(op, a, b) => {
                let x = self.simp_rec(st, a, memo);
                let y = self.simp_rec(st, b, memo);
                if (x, y) == (a, b) {
                    e
                } else {
                    self.ar.bin(op, x, y)
                }
            }
            N::Cmp(k, a, b) => {
                let x = self.simp_rec(st, a, memo);
                let y = self.simp_rec(st, b, memo);
                if (x, y) == (a, b) {
                    e
                } else {
                    match k {
                        CmpK::Eq => self.ar.eq(x, y),
                        CmpK::Ult => self.ar.ult(x, y),
                        CmpK::Slt => self.ar.slt(x, y),
                    }
                }
            }
            N::ZExt(a) => {
                let x = self.simp_rec(st, a, memo);
                if x == a {
                    e
                } else {
                    self.ar.zext(x, w)
                }
            }
            N::SExt(a) => {
                let x = self.simp_rec(st, a, memo);
                if x == a {
                    e
                } else {
                    self.ar.sext(x, w)
                }
            }
            N::Ext(a, lo) => {
                let x = self.simp_rec(st, a, memo);
                if x == a {
                    e
                } else {
                    self.ar.ext(x, lo, w)
                }
            }
            N::Cat(a, b) => {
                let x = self.simp_rec(st, a, memo);
                let y = self.simp_rec(st, b, memo);
                if (x, y) == (a, b) {
                    e
                } else {
                    self.ar.cat(x, y)
                }
            }
            N::Ite(c, a, b) => {
                let cc = self.simp_rec(st, c, memo);
                if cc == Arena::T {
                    return self.simp_rec(st, a, memo);
                }
                if cc == Arena::F {
                    return self.simp_rec(st, b, memo);
                }
                let x = self.simp_rec(st, a, memo);
                let y = self.simp_rec(st, b, memo);
                if (cc, x, y) == (c, a, b) {
                    e
                } else {
                    self.ar.ite(cc, x, y)
                }
            }
            N::Tab(t, i) => {
                let x = self.simp_rec(st, i, memo);
                if x == i {
                    e
                } else if let Some(o) = self.ar.is_const(x) {
                    let v = self.ar.tab_read(t, o, w);
                    self.ar.konst(v, w)
                } else {
                    self.ar.tab(t, x, w)
                }
            }
        }
    }

    /// Make a value concrete, forking over all feasible values when necessary.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::A(_) => unsup("concretize aggregate"),
            V::E(e) => {
                let e = *e;
                if let Some(c) = self.subst(st, e) {
                    return Ok(c);
                }
                if let Some(d) = self.next_replay(st) {
                    let w = self.ar.w(e);
                    let val = if d == u64::MAX && w > 64 { u128::MAX } else { d as u128 };
                    let k = self.ar.konst(val, w);
                    let c = self.ar.eq(e, k);
                    self.add_con(st, c);
                    st.model_ok = false;
                    st.subst.push((e, val));
                    self.record(st, d);
                    return Ok(val);
                }
                let e0 = e;
                let e = self.simp(st, e);
                if let Some(val) = self.ar.is_const(e) {
                    st.subst.push((e0, val));
                    self.record(st, val as u64);
                    return Ok(val);
                }
                let vals = self.values(st, e)?;
                if vals.len() == 1 {
                    let (val, _) = vals[0];
                    st.subst.push((e0, val));
                    self.record(st, val as u64);
                    return Ok(val);
                }
                let w = self.ar.w(e);
                let mut alts = vec![];
                for (val, m) in vals {
                    let k = self.ar.konst(val, w);
                    let c = self.ar.eq(e, k);
                    alts.push(Alt { cond: c, model: m, act: Act::Subst(e0, val), code: val as u64 });
                }
                Err(Ev::Fork(alts))
            }
        }
    }
    fn values(&mut self, st: &mut State, e: u32) -> R<Vec<(u128, Option<Rc<Vec<u8>>>)>> {
        if !self.ensure_model(st) {
            return Err(Ev::End(End::Assume));
        }
        let w = self.ar.w(e);
        let mut out: Vec<(u128, Option<Rc<Vec<u8>>>)> = vec![];
        if self.ar.sup(e).count_ones() == 1 {
            let v = self.ar.sup(e).trailing_zeros() as usize;
            let dom = st.dom[v];
            for (val, _) in self.ar.values1(e, &dom) {
                let k = self.ar.konst(val, w);
                let c = self.ar.eq(e, k);
                if let Some(m) = self.feasible(st, c) {
                    out.push((val, Some(m)));
                }
            }
        } else if let (ssup, Some(ri)) = {
            let (ssup, cons) = self.slice(st, self.ar.sup(e));
            (ssup, self.relation(st, ssup, &cons))
        } {
            let rows = st.rels[ri].rows.clone();
            let vars: Vec<u16> = self.doms(st, ssup).iter().map(|x| x.0).collect();
            let mut seen: FxMap<u128, [u8; 4]> = FxMap::default();
            self.ar.eval_rows(e, &vars, &rows, &mut |i, v| {
                seen.entry(v).or_insert(rows[i]);
                seen.len() <= 600
            });
            self.st.rel_decided += 1;
            if seen.len() > 600 {
                return unsup("too many values to concretize");
            }
            for (v, r) in seen {
                let m = self.row_model(st, ssup, r);
                out.push((v, Some(m)));
            }
            out.sort_by_key(|x| x.0);
        } else {
            let mut tmp = st.clone();
            loop {
                if !tmp.model_ok && !self.ensure_model(&mut tmp) {
                    break;
                }
                let m = tmp.model.clone();
                let val = self.ar.eval(e, &m);
                let k = self.ar.konst(val, w);
                out.push((val, Some(m)));
                if out.len() > 600 {
                    return unsup("too many values to concretize");
                }
                let c = self.ar.eq(e, k);
                let nc = self.ar.not(c);
                match self.feasible(&mut tmp, nc) {
                    Some(m) => {
                        if !self.add_con(&mut tmp, nc) {
                            break;
                        }
                        tmp.model = m;
                    }
                    None => break,
                }
            }
            out.sort_by_key(|x| x.0);
        }
        if out.is_empty() {
            return Err(Ev::End(End::Assume));
        }
        Ok(out)
    }

    fn next_replay(&mut self, st: &mut State) -> Option<u64> {
        if let Some((d, pos)) = &mut st.replay {
            if *pos < d.len() {
                let v = d[*pos];
                *pos += 1;
                let done = *pos >= d.len();
                if done {
                    st.replay = None;
                }
                if v >> 32 == MERGE_MARK {
                    // the recorded path merged the call here: recompute the fork and merge
                    st.merge_now = Some((v & 0xffff_ffff) as usize);
                    return None;
                }
                return Some(v);
            }
            st.replay = None;
        }
        None
    }
    fn record(&self, st: &mut State, d: u64) {
        if st.record {
            let len = st.dec.as_ref().map_or(0, |x| x.len) + 1;
            st.dec = Some(Rc::new(Dec { prev: st.dec.take(), val: d, len }));
        }
    }

    /// Decide a boolean: concrete, forced, or fork with the given acts.
    fn decide(&mut self, st: &mut State, c: &V) -> R<bool> {
        match c {
            V::C(x) => Ok(*x & 1 == 1),
            V::A(_) => unsup("agg cond"),
            V::E(e) => {
                let e = *e;
                if let Some(x) = self.subst(st, e) {
                    return Ok(x & 1 == 1);
                }
                if let Some(d) = self.next_replay(st) {
                    let c = if d != 0 { e } else { self.ar.not(e) };
                    self.add_con(st, c);
                    st.model_ok = false;
                    self.record(st, d);
                    return Ok(d != 0);
                }
                let e = self.simp(st, e);
                if let Some(x) = self.ar.is_const(e) {
                    self.record(st, x as u64);
                    return Ok(x != 0);
                }
                let ne = self.ar.not(e);
                let mt = self.feasible(st, e);
                let mf = self.feasible(st, ne);
                match (mt, mf) {
                    (Some(mt), Some(mf)) => Err(Ev::Fork(vec![Alt { cond: e, model: Some(mt), act: Act::Goto(0), code: 1 }, Alt { cond: ne, model: Some(mf), act: Act::Goto(1), code: 0 }])),
                    (Some(_), None) => {
                        self.record(st, 1);
                        Ok(true)
                    }
                    (None, Some(_)) => {
                        self.record(st, 0);
                        Ok(false)
                    }
                    (None, None) => Err(Ev::End(End::Assume)),
                }
            }
        }
    }

    // ---------- control ----------

    fn goto(&mut self, st: &mut State, e: &Edge) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        match e.moves.len() {
            0 => {}
            1 => {
                let v = match &e.moves[0].1 {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::K(v) => v.clone(),
                };
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vals: Vec<V> = e
                    .moves
                    .iter()
                    .map(|(_, o)| match o {
                        Op::R(r) => fr.regs[*r as usize].clone(),
                        Op::K(v) => v.clone(),
                    })
                    .collect();
                for ((d, _), v) in e.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.b = e.target;
        fr.ip = 0;
        st.subst.clear();
    }
    fn cur_inst(&self, st: &State) -> &'p Inst {
        let fr = st.frames.last().unwrap();
        &self.p.m.funcs[fr.f as usize].blocks[fr.b as usize].insts[fr.ip as usize]
    }
    /// complete the call instruction at the top frame with a value
    fn finish_call(&mut self, st: &mut State, v: Option<V>) {
        let ins = self.cur_inst(st);
        if let Inst::Call(c) = ins {
            if let (Some(d), Some(v)) = (c.dst, v) {
                Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
            }
            if let Some((n, _)) = &c.inv {
                self.goto(st, n);
            } else {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
        } else {
            panic!("finish_call not at call");
        }
    }
    fn apply(&mut self, st: &mut State, act: &Act) {
        match act {
            Act::Subst(e, v) => st.subst.push((*e, *v)),
            Act::Ret(v) => self.finish_call(st, Some(v.clone())),
            Act::Goto(i) => match self.cur_inst(st) {
                Inst::CondBr { t, f, .. } => {
                    if *i == 0 {
                        self.goto(st, t)
                    } else {
                        self.goto(st, f)
                    }
                }
                Inst::Switch { def, targets, .. } => {
                    if *i == targets.len() {
                        self.goto(st, def)
                    } else {
                        self.goto(st, &targets[*i])
                    }
                }
                x => panic!("goto act at {:?}", x),
            },
        }
    }
    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<V>) -> R<()> {
        let fun = &self.p.m.funcs[f as usize];
        if !fun.defined {
            return unsup(format!("extern {}", fun.name));
        }
        if fun.wide {
            return unsup(format!("not encoded (wide integers or unknown IR): {}", fun.name));
        }
        if st.frames.len() > 200_000 {
            return Err(Ev::End(End::Abort("call depth exceeded".into())));
        }
        self.jst[self.cur_job].funcs[f as usize] = true;
        let mut regs = vec![V::C(0); fun.nregs as usize];
        for (p, a) in fun.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Rc::new(Frame { f, b: 0, ip: 0, regs, sp: st.stack.len() as u32, nomerge: !fun.merge }));
        if st.frames.len() > st.max_depth {
            st.max_depth = st.frames.len();
        }
        st.subst.clear();
        Ok(())
    }
    fn unwind(&mut self, st: &mut State, exc: u64) -> R<()> {
        if st.pure_floor.is_some() {
            return Err(Ev::End(End::MergeAbort));
        }
        // exception leaves the current frame
        loop {
            let fr = st.frames.pop().unwrap();
            st.stack.truncate(fr.sp as usize);
            if st.frames.is_empty() {
                return Err(Ev::End(End::Panic));
            }
            if let Inst::Call(c) = self.cur_inst(st) {
                if let Some((_, u)) = &c.inv {
                    st.exc = exc;
                    self.goto(st, u);
                    return Ok(());
                }
            }
        }
    }

    /// Run until an event.
    fn run(&mut self, st: &mut State, sh: &Shared) -> Ev {
        let limit = self.jobs[self.cur_job].max_steps;
        let mut zt = self.z3.time;
        loop {
            st.steps += 1;
            self.st.instrs += 1;
            if self.z3.time > zt + 0.5 {
                zt = self.z3.time;
                if sh.over() {
                    return Ev::End(End::Unsupported("time budget".into()));
                }
                if self.z3.unknown > self.task_unknown + 3 {
                    return Ev::End(End::Unsupported("solver gave no answer".into()));
                }
            }
            if st.steps & 0xffff == 0 && (sh.over() || sh.stop.load(Ordering::Relaxed)) {
                return Ev::End(End::Unsupported("time budget".into()));
            }
            if st.steps > limit {
                // another thread that spins waits for this one
                return Ev::End(if st.other { End::Assume } else { End::StepLimit });
            }
            match self.step(st) {
                Ok(()) => {}
                Err(ev) => return ev,
            }
        }
    }

    #[inline]
    fn set(&mut self, st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
        if !st.subst.is_empty() {
            st.subst.clear();
        }
    }
    fn adv(&mut self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
        if !st.subst.is_empty() {
            st.subst.clear();
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let p = self.p;
        let ins: &'p Inst = {
            let fr = st.frames.last().unwrap();
            &p.m.funcs[fr.f as usize].blocks[fr.b as usize].insts[fr.ip as usize]
        };
        macro_rules! g {
            ($o:expr) => {
                match $o {
                    Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Op::K(v) => v.clone(),
                }
            };
        }
        match ins {
            Inst::Bin { op, w, a, b, dst } => {
                let (x, y) = (g!(a), g!(b));
                if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                    if let V::E(ye) = &y {
                        // divisor must not be zero
                        let z = self.ar.konst(0, *w);
                        let c = self.ar.eq(*ye, z);
                        if self.feasible(st, c).is_some() {
                            let yc = self.conc(st, &y)?;
                            let r = self.bin(*op, *w, &x, &V::C(yc))?;
                            self.set(st, *dst, r);
                            return Ok(());
                        }
                    }
                }
                let r = self.bin(*op, *w, &x, &y)?;
                self.set(st, *dst, r);
            }
            Inst::ICmp { p, w, a, b, dst } => {
                let (x, y) = (g!(a), g!(b));
                let r = self.icmp(*p, *w, &x, &y);
                self.set(st, *dst, r);
            }
            Inst::Br(e) => self.goto(st, e),
            Inst::CondBr { c, t, f } => {
                let c = g!(c);
                if self.decide(st, &c)? {
                    self.goto(st, t)
                } else {
                    self.goto(st, f)
                }
            }
            Inst::Load { ty, p, dst } => {
                let pv = g!(p);
                let a = match pv {
                    V::C(c) => c as u64,
                    V::E(e) => {
                        if let Some(v) = self.sym_const_load(st, e, *ty)? {
                            self.set(st, *dst, v);
                            return Ok(());
                        }
                        self.conc(st, &pv)? as u64
                    }
                    _ => return unsup("agg pointer"),
                };
                let v = self.load(st, a, *ty)?;
                self.set(st, *dst, v);
            }
            Inst::Store { ty, v, p } => {
                let pv = g!(p);
                let a = self.conc(st, &pv)? as u64;
                let v = g!(v);
                self.store(st, a, *ty, &v)?;
                self.adv(st);
            }
            Inst::Gep { base, terms, k, dst } => {
                let mut acc = g!(base);
                if *k != 0 {
                    acc = self.bin(Bin::Add, 64, &acc, &V::C(*k as u128))?;
                }
                for (o, iw, scale) in terms {
                    let v = g!(o);
                    let x = match v {
                        V::C(c) => V::C((sext(c, *iw) as u64).wrapping_mul(*scale) as u128),
                        V::E(e) => {
                            let e = self.ar.sext(e, 64);
                            let ev = self.mkv(e);
                            self.bin(Bin::Mul, 64, &ev, &V::C(*scale as u128))?
                        }
                        _ => return unsup("gep vec"),
                    };
                    acc = self.bin(Bin::Add, 64, &acc, &x)?;
                }
                if let (V::E(_), V::C(b)) = (&acc, &g!(base)) {
                    if (*b as u64) >> KSH != K_CONST {
                        acc = V::C(self.conc(st, &acc)?);
                    }
                }
                self.set(st, *dst, acc);
            }
            Inst::Select { c, cty, ty, a, b, dst } => {
                let cv = g!(c);
                if let V::A(cs) = &cv {
                    let (x, y) = (g!(a), g!(b));
                    let _ = cty;
                    if let (V::A(xs), V::A(ys)) = (x, y) {
                        let mut out = vec![];
                        let ew = match p.m.types[*ty as usize] {
                            Ty::Vector(_, e) => p.m.width(e),
                            _ => 0,
                        };
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                V::C(c) => {
                                    if c & 1 == 1 {
                                        xs[i].clone()
                                    } else {
                                        ys[i].clone()
                                    }
                                }
                                V::E(e) => {
                                    let p = self.ex(&xs[i], ew);
                                    let q = self.ex(&ys[i], ew);
                                    let r = self.ar.ite(*e, p, q);
                                    self.mkv(r)
                                }
                                _ => return unsup("select"),
                            });
                        }
                        self.set(st, *dst, V::A(Arc::new(out)));
                        return Ok(());
                    }
                    return unsup("vector select");
                }
                match cv {
                    V::C(x) => {
                        let v = if x & 1 == 1 { g!(a) } else { g!(b) };
                        self.set(st, *dst, v);
                    }
                    V::E(e) => {
                        let w = match p.m.types[*ty as usize] {
                            Ty::Int(w) => w,
                            _ => 0,
                        };
                        if w == 0 {
                            let one = self.conc(st, &V::E(e))?;
                            let v = if one & 1 == 1 { g!(a) } else { g!(b) };
                            self.set(st, *dst, v);
                        } else {
                            let (x, y) = (g!(a), g!(b));
                            let (x, y) = (self.ex(&x, w), self.ex(&y, w));
                            let r = self.ar.ite(e, x, y);
                            let v = self.mkv(r);
                            self.set(st, *dst, v);
                        }
                    }
                    _ => unreachable!(),
                }
            }
            Inst::Cast { k, from, to, a, dst } => {
                let v = g!(a);
                let r = self.cast(*k, *from, *to, v)?;
                self.set(st, *dst, r);
            }
            Inst::Switch { w, v, def, cases, targets } => {
                let x = g!(v);
                match x {
                    V::C(c) => {
                        let t = cases.iter().find(|(k, _)| *k == c);
                        match t {
                            Some((_, i)) => self.goto(st, &targets[*i as usize]),
                            None => self.goto(st, def),
                        }
                    }
                    V::E(e) => {
                        if let Some(c) = self.subst(st, e) {
                            let t = cases.iter().find(|(k, _)| *k == c);
                            match t {
                                Some((_, i)) => self.goto(st, &targets[*i as usize]),
                                None => self.goto(st, def),
                            }
                            return Ok(());
                        }
                        let e = if st.replay.is_none() { self.simp(st, e) } else { e };
                        // condition per target
                        let mut conds = vec![Arena::F; targets.len()];
                        let mut any = Arena::F;
                        for (k, i) in cases {
                            let kk = self.ar.konst(*k, *w);
                            let c = self.ar.eq(e, kk);
                            conds[*i as usize] = self.ar.or(conds[*i as usize], c);
                            any = self.ar.or(any, c);
                        }
                        let dflt = self.ar.not(any);
                        conds.push(dflt);
                        // merge targets that equal the default
                        for i in 0..targets.len() {
                            if targets[i].target == def.target {
                                let c = conds[i];
                                let n = targets.len();
                                conds[n] = self.ar.or(conds[n], c);
                                conds[i] = Arena::F;
                            }
                        }
                        if let Some(d) = self.next_replay(st) {
                            let c = conds[d as usize];
                            self.add_con(st, c);
                            st.model_ok = false;
                            self.record(st, d);
                            if d as usize == targets.len() {
                                self.goto(st, def)
                            } else {
                                self.goto(st, &targets[d as usize])
                            }
                            return Ok(());
                        }
                        let mut alts = vec![];
                        for (i, c) in conds.iter().enumerate() {
                            if let Some(m) = self.feasible(st, *c) {
                                alts.push(Alt { cond: *c, model: Some(m), act: Act::Goto(i), code: i as u64 });
                            }
                        }
                        if alts.is_empty() {
                            return Err(Ev::End(End::Assume));
                        }
                        if alts.len() == 1 {
                            let i = alts[0].code as usize;
                            self.record(st, i as u64);
                            if i == targets.len() {
                                self.goto(st, def)
                            } else {
                                self.goto(st, &targets[i])
                            }
                            return Ok(());
                        }
                        return Err(Ev::Fork(alts));
                    }
                    _ => return unsup("switch agg"),
                }
            }
            Inst::Alloca { size, count, dst } => {
                let mut n = *size;
                if let Some((c, _)) = count {
                    let c = g!(c);
                    n *= self.conc(st, &c)? as u64;
                }
                st.stack.push(Rc::new(Obj::new(n as usize)));
                let idx = st.stack.len() as u64 - 1;
                if idx >= 0xfffff {
                    return Err(Ev::End(End::Abort("stack object limit".into())));
                }
                self.set(st, *dst, V::C(mkaddr(K_STACK, idx, 0) as u128));
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| g!(o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.sp as usize);
                if st.frames.is_empty() {
                    return Err(Ev::End(End::Done));
                }
                if let Some((fl, _)) = st.pure_floor {
                    if st.frames.len() == fl {
                        return Err(Ev::MergeRet(v.unwrap_or(V::C(0))));
                    }
                }
                st.subst.clear();
                self.finish_call(st, v);
            }
            Inst::ExtractValue { a, idx, dst } => {
                let mut v = g!(a);
                for i in idx {
                    v = match v {
                        V::A(vs) => vs[*i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                self.set(st, *dst, v);
            }
            Inst::InsertValue { a, ty, v, idx, dst } => {
                let base = g!(a);
                let x = g!(v);
                let r = insert_val(&p.m, &base, *ty, &x, idx);
                self.set(st, *dst, r);
            }
            Inst::Copy { a, dst } => {
                let v = g!(a);
                self.set(st, *dst, v);
            }
            Inst::LandingPad { dst } => {
                let v = V::A(Arc::new(vec![V::C(st.exc as u128), V::C(1)]));
                self.set(st, *dst, v);
            }
            Inst::Resume(o) => {
                let v = g!(o);
                let e = match v {
                    V::A(vs) => match &vs[0] {
                        V::C(c) => *c as u64,
                        _ => return unsup("resume"),
                    },
                    _ => return unsup("resume"),
                };
                return self.unwind(st, e);
            }
            Inst::Unreachable => return Err(Ev::End(End::Unreachable)),
            Inst::Nop => self.adv(st),
            Inst::AtomicRmw { op, w, p, v, dst } => {
                let pv = g!(p);
                let a = self.conc(st, &pv)? as u64;
                let x = g!(v);
                let old = self.load_bits(st, a, *w)?;
                let new = match op {
                    0 => x,
                    1 => self.bin(Bin::Add, *w, &old, &x)?,
                    2 => self.bin(Bin::Sub, *w, &old, &x)?,
                    3 => self.bin(Bin::And, *w, &old, &x)?,
                    4 => self.bin(Bin::Or, *w, &old, &x)?,
                    5 => self.bin(Bin::Xor, *w, &old, &x)?,
                    _ => return unsup("atomicrmw op"),
                };
                self.store_bits(st, a, *w, &new)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { w, p, c, n, dst } => {
                let pv = g!(p);
                let a = self.conc(st, &pv)? as u64;
                let (c, n) = (g!(c), g!(n));
                let old = self.load_bits(st, a, *w)?;
                let eq = self.icmp(Pred::Eq, *w, &old, &c);
                let ok = self.conc(st, &eq)?;
                if ok == 1 {
                    self.store_bits(st, a, *w, &n)?;
                }
                self.set(st, *dst, V::A(Arc::new(vec![old, V::C(ok)])));
            }
            Inst::VBin { op, w, a, b, dst, .. } => {
                let (x, y) = (g!(a), g!(b));
                if let (V::A(xs), V::A(ys)) = (x, y) {
                    let mut out = vec![];
                    for i in 0..xs.len() {
                        out.push(self.bin(*op, *w, &xs[i], &ys[i])?);
                    }
                    self.set(st, *dst, V::A(Arc::new(out)));
                } else {
                    return unsup("vbin");
                }
            }
            Inst::VICmp { p, w, a, b, dst, .. } => {
                let (x, y) = (g!(a), g!(b));
                if let (V::A(xs), V::A(ys)) = (x, y) {
                    let mut out = vec![];
                    for i in 0..xs.len() {
                        out.push(self.icmp(*p, *w, &xs[i], &ys[i]));
                    }
                    self.set(st, *dst, V::A(Arc::new(out)));
                } else {
                    return unsup("vicmp");
                }
            }
            Inst::ExtractElement { a, i, dst, .. } => {
                let iv = g!(i);
                let i = self.conc(st, &iv)? as usize;
                let v = match g!(a) {
                    V::A(vs) => vs[i].clone(),
                    _ => return unsup("extractelement"),
                };
                self.set(st, *dst, v);
            }
            Inst::InsertElement { a, n, v, i, dst } => {
                let iv = g!(i);
                let i = self.conc(st, &iv)? as usize;
                let mut vs = match g!(a) {
                    V::A(vs) => (*vs).clone(),
                    _ => vec![V::C(0); *n as usize],
                };
                vs[i] = g!(v);
                self.set(st, *dst, V::A(Arc::new(vs)));
            }
            Inst::Shuffle { a, b, n, mask, dst } => {
                let (x, y) = (g!(a), g!(b));
                let n = *n as usize;
                let get = |v: &V, i: usize| match v {
                    V::A(vs) => vs[i].clone(),
                    _ => V::C(0),
                };
                let out = mask
                    .iter()
                    .map(|&k| {
                        let k = k as usize;
                        if k < n {
                            get(&x, k)
                        } else {
                            get(&y, k - n)
                        }
                    })
                    .collect();
                self.set(st, *dst, V::A(Arc::new(out)));
            }
            Inst::FBin { op, w, a, b, dst } => {
                let (x, y) = (g!(a), g!(b));
                if let (V::C(x), V::C(y)) = (&x, &y) {
                    let r = if *w == 64 {
                        let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                        (match op {
                            0 => x + y,
                            1 => x - y,
                            2 => x * y,
                            3 => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u128
                    } else {
                        let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                        (match op {
                            0 => x + y,
                            1 => x - y,
                            2 => x * y,
                            3 => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u128
                    };
                    self.set(st, *dst, V::C(r));
                } else {
                    return unsup("symbolic float arithmetic");
                }
            }
            Inst::FNeg { w, a, dst } => {
                let x = g!(a);
                let r = self.bin(Bin::Xor, *w, &x, &V::C(1u128 << (*w - 1)))?;
                self.set(st, *dst, r);
            }
            Inst::FCmp { p, w, a, b, dst } => {
                let (x, y) = (g!(a), g!(b));
                let r = self.fcmp(*p, *w, &x, &y)?;
                self.set(st, *dst, r);
            }
        }
        Ok(())
    }

    /// IEEE comparison on bit patterns (symbolic or concrete).
    fn fcmp(&mut self, p: u8, w: u32, a: &V, b: &V) -> R<V> {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let ar = &mut self.ar;
        let sb = w - 1;
        let inf = if w == 64 { 0x7ff0_0000_0000_0000u128 } else { 0x7f80_0000u128 };
        let infk = ar.konst(inf, w);
        let absm = ar.konst(mask(sb), w);
        let xa = ar.bin(Bin::And, x, absm);
        let ya = ar.bin(Bin::And, y, absm);
        let xn = ar.ult(infk, xa);
        let yn = ar.ult(infk, ya);
        let uno = ar.or(xn, yn);
        let z = ar.konst(0, w);
        let xz = ar.eq(xa, z);
        let yz = ar.eq(ya, z);
        let bothz = ar.and(xz, yz);
        let same = ar.eq(x, y);
        let eq = ar.or(same, bothz);
        // lt on ordered values
        let xs = ar.ext(x, sb, 1);
        let ys = ar.ext(y, sb, 1);
        let magl = ar.ult(xa, ya);
        let magg = ar.ult(ya, xa);
        let pos = ar.ite(ys, Arena::F, magl); // x >= 0
        let neg = ar.ite(ys, magg, Arena::T);
        let lt0 = ar.ite(xs, neg, pos);
        let nbz = ar.not(bothz);
        let lt = ar.and(lt0, nbz);
        let posg = ar.ite(ys, Arena::T, magg);
        let negg = ar.ite(ys, magl, Arena::F);
        let gt0 = ar.ite(xs, negg, posg);
        let gt = ar.and(gt0, nbz);
        let r = match p & 7 {
            0 => Arena::F,
            1 => eq,
            2 => gt,
            3 => ar.or(gt, eq),
            4 => lt,
            5 => ar.or(lt, eq),
            6 => ar.not(eq),
            _ => Arena::T,
        };
        // encoding: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 ueq,9 ugt,10 uge,11 ult,12 ule,13 une,14 uno,15 true
        let r = if p <= 7 {
            let nu = ar.not(uno);
            ar.and(r, nu)
        } else if p == 14 {
            uno
        } else if p == 15 {
            Arena::T
        } else {
            let base = match p {
                8 => eq,
                9 => gt,
                10 => ar.or(gt, eq),
                11 => lt,
                12 => ar.or(lt, eq),
                _ => ar.not(eq),
            };
            ar.or(base, uno)
        };
        Ok(self.mkv(r))
    }

    fn cast(&mut self, k: CastK, from: TyId, to: TyId, v: V) -> R<V> {
        let m = &self.p.m;
        match (&m.types[from as usize], &m.types[to as usize]) {
            (Ty::Vector(_, fe), Ty::Vector(_, te)) if k != CastK::Bitcast => {
                let (fe, te) = (*fe, *te);
                if let V::A(vs) = v {
                    let mut out = vec![];
                    for x in vs.iter() {
                        out.push(self.cast(k, fe, te, x.clone())?);
                    }
                    return Ok(V::A(Arc::new(out)));
                }
                return unsup("vec cast");
            }
            (Ty::Vector(n, fe), _) if k == CastK::Bitcast => {
                // vector to scalar (or vector): flatten
                let (n, ew) = (*n, m.width(*fe));
                if let V::A(vs) = &v {
                    let mut e = self.ex(&vs[0], ew);
                    for i in 1..n as usize {
                        let x = self.ex(&vs[i], ew);
                        e = self.ar.cat(x, e);
                    }
                    let flat = self.mkv(e);
                    return self.unflatten(to, flat, n * ew);
                }
                return unsup("vec bitcast");
            }
            (_, Ty::Vector(..)) if k == CastK::Bitcast => {
                let w = m.width(from);
                return self.unflatten(to, v, w);
            }
            _ => {}
        }
        let fw = m.width(from);
        let tw = m.width(to);
        let is_f = |t: TyId| matches!(m.types[t as usize], Ty::F32 | Ty::F64);
        let _ = is_f;
        match k {
            CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::PtrToInt | CastK::IntToPtr => match v {
                V::C(c) => Ok(V::C(if k == CastK::SExt { sext(c, fw) as u128 & mask(tw) } else { c & mask(tw) })),
                V::E(e) => {
                    let r = if tw < fw {
                        self.ar.ext(e, 0, tw)
                    } else if k == CastK::SExt {
                        self.ar.sext(e, tw)
                    } else {
                        self.ar.zext(e, tw)
                    };
                    Ok(self.mkv(r))
                }
                _ => unsup("cast agg"),
            },
            CastK::Bitcast => Ok(v),
            _ => {
                let c = match v {
                    V::C(c) => c,
                    _ => return unsup("symbolic float conversion"),
                };
                let ff = |c: u128, w: u32| if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                let tf = |x: f64, w: u32| if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
                Ok(V::C(match k {
                    CastK::FpToSi => (ff(c, fw) as i128) as u128 & mask(tw),
                    CastK::FpToUi => (ff(c, fw) as u128) & mask(tw),
                    CastK::SiToFp => {
                        let s = sext(c, fw);
                        if tw == 64 {
                            (s as f64).to_bits() as u128
                        } else {
                            (s as f32).to_bits() as u128
                        }
                    }
                    CastK::UiToFp => {
                        if tw == 64 {
                            (c as f64).to_bits() as u128
                        } else {
                            (c as f32).to_bits() as u128
                        }
                    }
                    _ => tf(ff(c, fw), tw),
                }))
            }
        }
    }
    fn unflatten(&mut self, to: TyId, v: V, w: u32) -> R<V> {
        match self.p.m.types[to as usize] {
            Ty::Vector(n, e) => {
                let ew = self.p.m.width(e);
                let x = self.ex(&v, w);
                let mut out = vec![];
                for i in 0..n {
                    let q = self.ar.ext(x, i * ew, ew);
                    out.push(self.mkv(q));
                }
                Ok(V::A(Arc::new(out)))
            }
            _ => Ok(v),
        }
    }

    /// load through a symbolic pointer into a constant table
    fn sym_const_load(&mut self, st: &mut State, e: u32, ty: TyId) -> R<Option<V>> {
        if self.subst(st, e).is_some() {
            return Ok(None);
        }
        let w = match self.p.m.types[ty as usize] {
            Ty::Int(w) => w,
            _ => return Ok(None),
        };
        if !self.ensure_model(st) {
            return Err(Ev::End(End::Assume));
        }
        let m = st.model.clone();
        let a = self.ar.eval(e, &m) as u64;
        if a >> KSH != K_CONST {
            return Ok(None);
        }
        let idx = ((a >> OSH) & 0xfffff) as usize;
        let size = match self.p.cdata.get(idx) {
            Some(d) => d.len() as u64,
            None => return Ok(None),
        };
        let n = ((w + 7) / 8) as u64;
        if size > 1 << 16 || size < n {
            return Ok(None);
        }
        let base = mkaddr(K_CONST, idx as u64, 0);
        let bk = self.ar.konst(base as u128, 64);
        let off = self.ar.bin(Bin::Sub, e, bk);
        let lim = self.ar.konst((size - n + 1) as u128, 64);
        let inb = self.ar.ult(off, lim);
        let oob = self.ar.not(inb);
        if let Some(m) = self.feasible(st, oob) {
            // some value escapes the object
            let mut t = st.clone();
            t.model = m;
            *st = t;
            return Ok(None); // fall back to concretization, which reports the bad access
        }
        let data = self.p.cdata[idx].clone();
        let t = self.ar.table(idx as u64, &data);
        let ow = 64 - (size.leading_zeros());
        let o = self.ar.ext(off, 0, ow.max(1));
        // exact single-variable tables fold well; others stay symbolic
        let r = self.ar.tab(t, o, w);
        Ok(Some(self.mkv(r)))
    }

    fn call(&mut self, st: &mut State, c: &'p CallI) -> R<()> {
        let p = self.p;
        let f = match &c.callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let v = self.get(st.frames.last().unwrap(), o);
                let a = self.conc(st, &v)? as u64;
                if a >> KSH != K_FUNC {
                    return memerr(format!("call to non-function {:#x}", a));
                }
                ((a >> OSH) & 0xfffff) as u32
            }
            Callee::AsmNop => {
                self.finish_call(st, Some(V::C(0)));
                return Ok(());
            }
            Callee::AsmUnsupported(s) => return unsup(format!("asm {}", s)),
        };
        let f = match p.float_fmt {
            Some((a, b, t)) if (f == a || f == b) && self.jobs[self.cur_job].entry == "h_floatsym" => t,
            _ => f,
        };
        if p.flt2dec[f as usize] && self.jobs[self.cur_job].entry == "h_floatsym" {
            return unsup("conversion of a symbolic float");
        }
        let b = p.builtins[f as usize];
        if b != B::None {
            if b == B::Nop {
                self.finish_call(st, None);
                return Ok(());
            }
            let args: Vec<V> = {
                let fr = st.frames.last().unwrap();
                c.args.iter().map(|o| self.get(fr, o)).collect()
            };
            return self.builtin(st, c, f, b, args);
        }
        let args: Vec<V> = {
            let fr = st.frames.last().unwrap();
            c.args.iter().map(|o| self.get(fr, o)).collect()
        };
        self.push_frame(st, f, args)
    }

    fn builtin(&mut self, st: &mut State, c: &'p CallI, f: u32, b: B, a: Vec<V>) -> R<()> {
        let w = if c.argtys.is_empty() { 0 } else { self.p.m.width(c.argtys[0]) };
        let impure = matches!(b, B::VpSym | B::VpAssume | B::VpAssert | B::VpChoice | B::VpReach | B::VpNote | B::VpOther | B::Syscall | B::Yield | B::VpDepthReset | B::VpDepthMax | B::VpWork | B::Raise | B::RustBeginUnwind);
        if impure && st.pure_floor.is_some() {
            return Err(Ev::End(End::MergeAbort));
        }
        let r: V = match b {
            B::Malloc => {
                let n = self.conc(st, &a[0])? as u64;
                V::C(self.malloc(st, n)? as u128)
            }
            B::Calloc => {
                let n = self.conc(st, &a[0])? as u64 * self.conc(st, &a[1])? as u64;
                V::C(self.malloc(st, n)? as u128)
            }
            B::PosixMemalign => {
                let n = self.conc(st, &a[2])? as u64;
                let p = self.conc(st, &a[0])? as u64;
                let m = self.malloc(st, n)?;
                self.store_bits(st, p, 64, &V::C(m as u128))?;
                V::C(0)
            }
            B::Realloc => {
                let old = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let m = self.malloc(st, n)?;
                if old != 0 {
                    let on = self.lookup(st, old, 0)?.0.len() as u64;
                    self.memcpy(st, m, old, on.min(n))?;
                    self.free(st, old)?;
                }
                V::C(m as u128)
            }
            B::Free => {
                let p = self.conc(st, &a[0])? as u64;
                self.free(st, p)?;
                V::C(0)
            }
            B::Memcpy => {
                let n = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                self.memcpy(st, d, s, n)?;
                V::C(d as u128)
            }
            B::Memset => {
                let n = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])? as u64;
                if n > 0 {
                    match &a[1] {
                        V::C(v) => {
                            let v = *v as u8;
                            let (o, off) = self.obj_mut(st, d, n)?;
                            for x in &mut o.data[off..off + n as usize] {
                                *x = v;
                            }
                            if !o.sym.is_empty() {
                                for x in &mut o.sym[off..off + n as usize] {
                                    *x = 0;
                                }
                            }
                        }
                        v => {
                            for i in 0..n {
                                self.store_bits(st, d + i, 8, v)?;
                            }
                        }
                    }
                }
                V::C(d as u128)
            }
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, &a[2])? as u64;
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                if n > 0 {
                    self.lookup(st, p, n)?;
                    self.lookup(st, q, n)?;
                }
                st.work += n / 2;
                if b == B::Bcmp {
                    let mut eq = Arena::T;
                    for i in 0..n {
                        let x = self.byte_at(st, p + i)?;
                        let y = self.byte_at(st, q + i)?;
                        let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                        let e = self.ar.eq(x, y);
                        eq = self.ar.and(eq, e);
                        if eq == Arena::F {
                            break;
                        }
                    }
                    let ne = self.ar.not(eq);
                    let r = self.ar.zext(ne, 32);
                    self.mkv(r)
                } else {
                    // result: ite chain of sign
                    let mut r = self.ar.konst(0, 32);
                    let neg = self.ar.konst(u32::MAX as u128, 32);
                    let pos = self.ar.konst(1, 32);
                    for i in (0..n).rev() {
                        let x = self.byte_at(st, p + i)?;
                        let y = self.byte_at(st, q + i)?;
                        let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                        let lt = self.ar.ult(x, y);
                        let eq = self.ar.eq(x, y);
                        let s = self.ar.ite(lt, neg, pos);
                        r = self.ar.ite(eq, r, s);
                    }
                    self.mkv(r)
                }
            }
            B::Getrandom => {
                // the keys of hash maps: fixed, which no result may depend on
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                if n > 0 {
                    let (o, off) = self.obj_mut(st, p, n)?;
                    for i in 0..n as usize {
                        o.data[off + i] = (0x9d ^ (i * 37)) as u8;
                        if !o.sym.is_empty() {
                            o.sym[off + i] = 0;
                        }
                    }
                }
                V::C(n as u128)
            }
            B::Strlen => {
                let p = self.conc(st, &a[0])? as u64;
                let mut alts = vec![];
                let mut pre = Arena::T;
                let mut i = 0u64;
                loop {
                    let x = self.byte_at(st, p + i)?;
                    let x = self.ex(&x, 8);
                    let z = self.ar.konst(0, 8);
                    let e = self.ar.eq(x, z);
                    let here = self.ar.and(pre, e);
                    if here != Arena::F {
                        alts.push((here, V::C(i as u128)));
                    }
                    let ne = self.ar.not(e);
                    pre = self.ar.and(pre, ne);
                    if pre == Arena::F {
                        break;
                    }
                    i += 1;
                }
                return self.fork_ret(st, alts);
            }
            B::Memchr | B::Memrchr => {
                // memchr_aligned(x: u8, text: &[u8]) -> Option<usize>
                let p = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                let needle = self.ex(&a[0], 8);
                let mut alts = vec![];
                let mut pre = Arena::T;
                for k in 0..n {
                    st.work += 1;
                    let i = if b == B::Memchr { k } else { n - 1 - k };
                    let x = self.byte_at(st, p + i)?;
                    let x = self.ex(&x, 8);
                    let e = self.ar.eq(x, needle);
                    let here = self.ar.and(pre, e);
                    if here != Arena::F {
                        alts.push((here, V::A(Arc::new(vec![V::C(1), V::C(i as u128)]))));
                    }
                    let ne = self.ar.not(e);
                    pre = self.ar.and(pre, ne);
                    if pre == Arena::F {
                        break;
                    }
                }
                if pre != Arena::F {
                    alts.push((pre, V::A(Arc::new(vec![V::C(0), V::C(0)]))));
                }
                return self.fork_ret(st, alts);
            }
            B::CountChars => {
                // do_count_chars(s: &str) -> usize
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                st.work += n / 2;
                if n > 0 {
                    self.lookup(st, p, n)?;
                }
                let mut acc = self.ar.konst(0, 64);
                let mut conc = 0u128;
                for i in 0..n {
                    let x = self.byte_at(st, p + i)?;
                    match x {
                        V::C(c) => conc += ((c & 0xC0) != 0x80) as u128,
                        v => {
                            let e = self.ex(&v, 8);
                            let hi = self.ar.ext(e, 6, 2);
                            let k = self.ar.konst(2, 2);
                            let is = self.ar.eq(hi, k);
                            let not = self.ar.not(is);
                            if not == Arena::T {
                                conc += 1;
                            } else if not != Arena::F {
                                let z = self.ar.zext(not, 64);
                                acc = self.ar.bin(Bin::Add, acc, z);
                            }
                        }
                    }
                }
                let k = self.ar.konst(conc, 64);
                let r = self.ar.bin(Bin::Add, acc, k);
                self.mkv(r)
            }
            B::Nop0 => V::C(0),
            B::ErrnoLoc => return unsup("errno"),
            B::Umax | B::Umin | B::Smax | B::Smin => {
                if let V::A(_) = a[0] {
                    return unsup("vector minmax");
                }
                let p = match b {
                    B::Umax => Pred::Ugt,
                    B::Umin => Pred::Ult,
                    B::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                self.sel(&c, w, &a[0], &a[1])
            }
            B::UsubSat => {
                let c = self.icmp(Pred::Ugt, w, &a[0], &a[1]);
                let d = self.bin(Bin::Sub, w, &a[0], &a[1])?;
                self.sel(&c, w, &d, &V::C(0))
            }
            B::UaddSat => {
                let s = self.bin(Bin::Add, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &s, &a[0]);
                self.sel(&c, w, &V::C(mask(w)), &s)
            }
            B::UaddO => {
                let s = self.bin(Bin::Add, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &s, &a[0]);
                V::A(Arc::new(vec![s, c]))
            }
            B::UsubO => {
                let s = self.bin(Bin::Sub, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                V::A(Arc::new(vec![s, c]))
            }
            B::UmulO => {
                if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let (r, o) = x.overflowing_mul(*y);
                    V::A(Arc::new(vec![V::C(r & mask(w)), V::C((o || r > mask(w)) as u128)]))
                } else if w <= 64 {
                    let x = self.ex(&a[0], w);
                    let y = self.ex(&a[1], w);
                    let x2 = self.ar.zext(x, 2 * w);
                    let y2 = self.ar.zext(y, 2 * w);
                    let m = self.ar.bin(Bin::Mul, x2, y2);
                    let lo = self.ar.ext(m, 0, w);
                    let hi = self.ar.ext(m, w, w);
                    let z = self.ar.konst(0, w);
                    let e = self.ar.eq(hi, z);
                    let o = self.ar.not(e);
                    V::A(Arc::new(vec![self.mkv(lo), self.mkv(o)]))
                } else {
                    return unsup("umulo 128");
                }
            }
            B::SaddO | B::SsubO | B::SmulO => {
                let op = match b {
                    B::SaddO => Bin::Add,
                    B::SsubO => Bin::Sub,
                    _ => Bin::Mul,
                };
                if w > 63 {
                    if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                        let (x, y) = (sext(*x, w), sext(*y, w));
                        let (r, o) = match b {
                            B::SaddO => x.overflowing_add(y),
                            B::SsubO => x.overflowing_sub(y),
                            _ => x.overflowing_mul(y),
                        };
                        let t = r as u128 & mask(w);
                        V::A(Arc::new(vec![V::C(t), V::C((o || sext(t, w) != r) as u128)]))
                    } else if b == B::SmulO {
                        return unsup("smulo");
                    } else {
                        let s = self.bin(op, w, &a[0], &a[1])?;
                        // overflow iff sign rules
                        let x = self.ex(&a[0], w);
                        let y = self.ex(&a[1], w);
                        let r = self.ex(&s, w);
                        let (xs, ys, rs) = (self.ar.ext(x, w - 1, 1), self.ar.ext(y, w - 1, 1), self.ar.ext(r, w - 1, 1));
                        let same = if b == B::SaddO { self.ar.eq(xs, ys) } else { self.ar.bin(Bin::Xor, xs, ys) };
                        let dif = self.ar.bin(Bin::Xor, xs, rs);
                        let o = self.ar.and(same, dif);
                        V::A(Arc::new(vec![s, self.mkv(o)]))
                    }
                } else {
                    let x = self.ex(&a[0], w);
                    let y = self.ex(&a[1], w);
                    let x2 = self.ar.sext(x, 2 * w);
                    let y2 = self.ar.sext(y, 2 * w);
                    let m = self.ar.bin(op, x2, y2);
                    let lo = self.ar.ext(m, 0, w);
                    let back = self.ar.sext(lo, 2 * w);
                    let e = self.ar.eq(back, m);
                    let o = self.ar.not(e);
                    V::A(Arc::new(vec![self.mkv(lo), self.mkv(o)]))
                }
            }
            B::Ctpop => {
                if let V::A(_) = a[0] {
                    return unsup("vector ctpop");
                }
                match &a[0] {
                    V::C(c) => V::C(c.count_ones() as u128),
                    V::E(e) => {
                        let mut acc = self.ar.konst(0, w);
                        for i in 0..w {
                            let b = self.ar.ext(*e, i, 1);
                            let z = self.ar.zext(b, w);
                            acc = self.ar.bin(Bin::Add, acc, z);
                        }
                        self.mkv(acc)
                    }
                    _ => unreachable!(),
                }
            }
            B::Ctlz | B::Cttz => match &a[0] {
                V::C(c) => V::C(if b == B::Ctlz { (c.leading_zeros() - (128 - w)) as u128 } else { (c.trailing_zeros().min(w)) as u128 }),
                V::E(e) => {
                    let mut r = self.ar.konst(w as u128, w);
                    for k in 0..w {
                        // least significant decision last
                        let i = if b == B::Ctlz { k } else { w - 1 - k };
                        let bit = self.ar.ext(*e, i, 1);
                        let val = if b == B::Ctlz { w - 1 - i } else { i };
                        let kk = self.ar.konst(val as u128, w);
                        r = self.ar.ite(bit, kk, r);
                    }
                    self.mkv(r)
                }
                _ => return unsup("vector ctlz"),
            },
            B::Bswap => {
                let n = w / 8;
                let e = self.ex(&a[0], w);
                let mut r: Option<u32> = None;
                for i in 0..n {
                    let x = self.ar.ext(e, i * 8, 8);
                    r = Some(match r {
                        None => x,
                        Some(h) => self.ar.cat(h, x),
                    });
                }
                self.mkv(r.unwrap())
            }
            B::Bitreverse => match &a[0] {
                V::C(c) => V::C(c.reverse_bits() >> (128 - w)),
                _ => return unsup("bitreverse"),
            },
            B::Fshl | B::Fshr => {
                // rotate / funnel shift
                match &a[2] {
                    V::C(s) => {
                        let s = (*s % w as u128) as u32;
                        let x = self.ex(&a[0], w);
                        let y = self.ex(&a[1], w);
                        let r = if s == 0 {
                            if b == B::Fshl {
                                x
                            } else {
                                y
                            }
                        } else {
                            let sh = if b == B::Fshl { s } else { w - s };
                            let h = self.ar.ext(x, 0, w - sh);
                            let l = self.ar.ext(y, w - sh, sh);
                            self.ar.cat(h, l)
                        };
                        self.mkv(r)
                    }
                    _ => return unsup("symbolic funnel shift"),
                }
            }
            B::Abs => {
                let c = self.icmp(Pred::Slt, w, &a[0], &V::C(0));
                let n = self.bin(Bin::Sub, w, &V::C(0), &a[0])?;
                self.sel(&c, w, &n, &a[0])
            }
            B::Ucmp | B::Scmp => {
                let rw = self.p.m.width(c.ret);
                let (pl, pg) = if b == B::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(pl, w, &a[0], &a[1]);
                let gt = self.icmp(pg, w, &a[0], &a[1]);
                let g = self.sel(&gt, rw, &V::C(1), &V::C(0));
                self.sel(&lt, rw, &V::C(mask(rw)), &g)
            }
            B::IsConstant => V::C(0),
            B::ExpectFirst => a[0].clone(),
            B::Ptrmask => self.bin(Bin::And, 64, &a[0], &a[1])?,
            B::Fabs => self.bin(Bin::And, w, &a[0], &V::C(mask(w - 1)))?,
            B::Copysign => {
                let m = self.bin(Bin::And, w, &a[0], &V::C(mask(w - 1)))?;
                let s = self.bin(Bin::And, w, &a[1], &V::C(1u128 << (w - 1)))?;
                self.bin(Bin::Or, w, &m, &s)?
            }
            B::VecReduceOr | B::VecReduceAnd | B::VecReduceAdd => {
                let ew = self.p.m.width(c.ret);
                let op = match b {
                    B::VecReduceOr => Bin::Or,
                    B::VecReduceAnd => Bin::And,
                    _ => Bin::Add,
                };
                match &a[0] {
                    V::A(vs) => {
                        let mut r = vs[0].clone();
                        for x in &vs[1..] {
                            r = self.bin(op, ew, &r, x)?;
                        }
                        r
                    }
                    _ => return unsup("reduce"),
                }
            }
            B::Trap => return Err(Ev::End(End::Abort("trap".into()))),
            B::Abort => return Err(Ev::End(End::Abort("abort".into()))),
            B::Raise => {
                let e = self.conc(st, &a[0])? as u64;
                // _Unwind_RaiseException is called from a frame that has no landing pad of its own
                return self.raise(st, e);
            }
            B::DeleteExc => {
                let e = self.conc(st, &a[0])? as u64;
                // cleanup function pointer is at offset 8 of _Unwind_Exception
                let fpv = self.load_bits(st, e + 8, 64)?;
                let fp = self.conc(st, &fpv)? as u64;
                if fp != 0 {
                    return unsup("foreign exception cleanup");
                }
                V::C(0)
            }
            B::RustBeginUnwind => {
                let f = match self.p.resume_fn {
                    Some(f) => f,
                    None => return unsup("no vp_resume_unwind"),
                };
                return self.push_frame(st, f, vec![]);
            }
            B::VpSym => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let kind = self.conc(st, &a[2])?;
                let (kz, ko) = match kind {
                    1 => (0x80u8, 0u8),
                    2 => (0x40, 0x80),
                    3 => (0x20, 0xC0),
                    4 => (0x10, 0xE0),
                    5 => (0x08, 0xF0),
                    _ => (0, 0),
                };
                let start = st.dom.len();
                if start + n as usize > 128 {
                    return unsup("too many symbolic bytes");
                }
                let mut dom = EMPTY;
                for x in 0..=255u8 {
                    if x & kz == 0 && !x & ko == 0 {
                        dom[(x >> 6) as usize] |= 1 << (x & 63);
                    }
                }
                let mut m = (*st.model).clone();
                m.resize(start, 0);
                for i in 0..n as usize {
                    let v = self.ar.var((start + i) as u16, kz, ko);
                    st.dom.push(dom);
                    m.push(ko);
                    self.store_bits(st, p + i as u64, 8, &V::E(v))?;
                }
                st.model = Rc::new(m);
                st.tape.push(Tape::S(start as u16, n as u16));
                V::C(0)
            }
            B::VpAssume => {
                let x = a[0].clone();
                let e = match x {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(Ev::End(End::Assume));
                        }
                        self.finish_call(st, None);
                        return Ok(());
                    }
                    V::E(e) => {
                        if self.ar.w(e) > 1 {
                            self.ar.ext(e, 0, 1)
                        } else {
                            e
                        }
                    }
                    _ => return unsup("assume"),
                };
                match self.feasible(st, e) {
                    None => return Err(Ev::End(End::Assume)),
                    Some(m) => {
                        if !self.add_con(st, e) {
                            return Err(Ev::End(End::Assume));
                        }
                        st.model = m;
                        V::C(0)
                    }
                }
            }
            B::VpAssert => {
                self.st.asserts += 1;
                st.asserts += 1;
                let id = self.conc(st, &a[1])? as u64;
                match &a[0] {
                    V::C(c) => {
                        self.st.asserts_const += 1;
                        if c & 1 == 0 {
                            return Err(Ev::End(End::Assert(id)));
                        }
                    }
                    V::E(e) => {
                        let mut e = *e;
                        if self.ar.w(e) > 1 {
                            e = self.ar.ext(e, 0, 1);
                        }
                        self.st.asserts_z3 += 1;
                        if !self.ensure_model(st) {
                            return Err(Ev::End(End::Assume));
                        }
                        let ne = self.ar.not(e);
                        let (sup, mut cons) = self.slice(st, self.ar.sup(ne));
                        cons.push(ne);
                        let d = self.doms(st, sup);
                        let base = st.model.clone();
                        // without the large path constraints first: unsat is final
                        let light: Vec<u32> = cons.iter().cloned().filter(|&c| c == ne || self.ar.size(c, 300) < 300).collect();
                        let r = if light.len() < cons.len() {
                            match self.z3.check(&self.ar, &d, &light, &base) {
                                Ans::Unsat => Ans::Unsat,
                                _ => self.z3.check(&self.ar, &d, &cons, &base),
                            }
                        } else {
                            self.z3.check(&self.ar, &d, &cons, &base)
                        };
                        match r {
                            Ans::Unsat => {}
                            Ans::Sat(m) => {
                                st.model = Rc::new(m);
                                return Err(Ev::End(End::Assert(id)));
                            }
                            Ans::Unknown => return unsup(format!("z3 unknown on assertion {}", id)),
                        }
                    }
                    _ => return unsup("assert"),
                }
                V::C(0)
            }
            B::VpChoice => {
                let n = self.conc(st, &a[0])? as u64;
                if let Some(d) = self.next_replay(st) {
                    self.record(st, d);
                    st.tape.push(Tape::C(d));
                    V::C(d as u128)
                } else {
                    // vp_choice is identified by its return code; the tape entry is added on apply
                    let m = st.model.clone();
                    let alts = (0..n).map(|i| Alt { cond: Arena::T, model: Some(m.clone()), act: Act::Ret(V::C(i as u128)), code: i }).collect();
                    return Err(Ev::Fork(alts));
                }
            }
            B::VpParam => {
                let i = self.conc(st, &a[0])? as usize;
                V::C(self.jobs[self.cur_job].params.get(i).copied().unwrap_or(0) as u128)
            }
            B::VpReach => {
                let i = self.conc(st, &a[0])? as u64;
                *self.jst[self.cur_job].reach.entry(i).or_insert(0) += 1;
                V::C(0)
            }
            B::VpNote => {
                st.notes.push(a[0].clone());
                V::C(0)
            }
            B::VpOther => {
                // what follows happens on another thread, up to vp_other(0);
                // 2: a new one with thread-local variables of its own
                let on = self.conc(st, &a[0])?;
                st.other = on != 0;
                let p = self.p;
                let tls = || p.m.muts.iter().enumerate().filter(|(_, &g)| p.m.globals[g as usize].tls);
                if let Some(v) = st.away.take() {
                    for ((i, _), o) in tls().zip(v) {
                        st.muts[i] = o;
                    }
                }
                if on == 2 {
                    let mut v = vec![];
                    for (i, &g) in tls() {
                        let fresh = Rc::new(Obj { data: p.m.globals[g as usize].data.clone(), sym: vec![] });
                        v.push(std::mem::replace(&mut st.muts[i], fresh));
                    }
                    st.away = Some(v);
                }
                V::C(0)
            }
            B::Yield => {
                if st.other {
                    return Err(Ev::End(End::Assume));
                }
                V::C(0)
            }
            B::Syscall => {
                let n = self.conc(st, &a[0])?;
                if n != 202 {
                    return unsup(format!("extern syscall {}", n));
                }
                match self.conc(st, &a[2])? & 0x7f {
                    0 | 9 => {
                        // Waits for somebody else: the other thread for this one, which then is no schedule of its own, or this one for nobody.
                        return Err(Ev::End(if st.other { End::Assume } else { End::Abort("waits forever".into()) }));
                    }
                    1 => V::C(0),
                    _ => return unsup("extern syscall futex"),
                }
            }
            B::VpDepthReset => {
                st.max_depth = st.frames.len();
                V::C(0)
            }
            B::VpDepthMax => V::C((st.max_depth - st.frames.len()) as u128),
            B::VpWork => V::C((st.steps + st.work) as u128),
            B::VpHeapLive => V::C(st.heap.iter().filter(|x| x.is_some()).count() as u128),
            B::VpIsSym => V::C(1),
            B::FloatFmt | B::None | B::Nop => unreachable!(),
        };
        let _ = f;
        self.finish_call(st, Some(r));
        Ok(())
    }
    fn raise(&mut self, st: &mut State, exc: u64) -> R<()> {
        // if the raising call itself is an invoke, land there
        if let Inst::Call(c) = self.cur_inst(st) {
            if let Some((_, u)) = &c.inv {
                st.exc = exc;
                self.goto(st, u);
                return Ok(());
            }
        }
        self.unwind(st, exc)
    }
    fn fork_ret(&mut self, st: &mut State, alts: Vec<(u32, V)>) -> R<()> {
        if let Some(d) = self.next_replay(st) {
            let (c, v) = alts[d as usize].clone();
            self.add_con(st, c);
            st.model_ok = false;
            self.record(st, d);
            self.finish_call(st, Some(v));
            return Ok(());
        }
        let mut out = vec![];
        for (i, (c, v)) in alts.into_iter().enumerate() {
            if let Some(m) = self.feasible(st, c) {
                out.push(Alt { cond: c, model: Some(m), act: Act::Ret(v), code: i as u64 });
            }
        }
        if out.is_empty() {
            return Err(Ev::End(End::Assume));
        }
        if out.len() == 1 {
            let x = out.pop().unwrap();
            self.record(st, x.code);
            if let Act::Ret(v) = x.act {
                self.finish_call(st, Some(v));
            }
            return Ok(());
        }
        Err(Ev::Fork(out))
    }
    fn sel(&mut self, c: &V, w: u32, a: &V, b: &V) -> V {
        match c {
            V::C(x) => {
                if x & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::E(e) => {
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.ar.ite(*e, x, y);
                self.mkv(r)
            }
            _ => panic!(),
        }
    }

    // ---------- merging ----------

    fn merge_candidate(&self, st: &State) -> Option<usize> {
        let n = st.frames.len();
        let floor = st.pure_floor.map_or(0, |x| x.0 + 1);
        let lo = n.saturating_sub(8).max(floor).max(1);
        for i in (lo..n).rev() {
            let fr = &st.frames[i];
            if !fr.nomerge {
                return Some(i);
            }
        }
        None
    }
    fn take_alt(&mut self, st: &State, alt: &Alt) -> Option<State> {
        let mut s = st.clone();
        if !self.add_con(&mut s, alt.cond) {
            return None;
        }
        match &alt.model {
            Some(m) => s.model = m.clone(),
            None => s.model_ok = false,
        }
        if let Act::Ret(V::C(_)) = alt.act {
            if let Inst::Call(c) = self.cur_inst(&s) {
                if let Callee::Direct(f) = &c.callee {
                    if self.p.builtins[*f as usize] == B::VpChoice {
                        s.tape.push(Tape::C(alt.code));
                    }
                }
            }
        }
        self.record(&mut s, alt.code);
        self.apply(&mut s, &alt.act);
        Some(s)
    }
    /// explore from a fork until frame `lvl` returns; combine into one value
    fn merge_explore(&mut self, st: &State, alts: Vec<Alt>, w: u32, lvl: usize, budget: &mut (u32, u64), sh: &Shared) -> Option<V> {
        let mut results: Vec<(u32, V)> = vec![];
        for alt in alts.iter() {
            let mut s = match self.take_alt(st, alt) {
                Some(s) => s,
                None => continue,
            };
            let v = self.merge_run(&mut s, w, lvl, budget, sh)?;
            results.push((alt.cond, v));
        }
        let (_, mut acc) = results.pop()?;
        while let Some((c, v)) = results.pop() {
            acc = self.sel(&V::E(c), w, &v, &acc);
        }
        Some(acc)
    }
    fn merge_run(&mut self, s: &mut State, w: u32, lvl: usize, budget: &mut (u32, u64), sh: &Shared) -> Option<V> {
        loop {
            if budget.0 == 0 {
                return None;
            }
            let before = s.steps;
            let ev = self.run(s, sh);
            let used = s.steps - before;
            if used > budget.1 {
                return None;
            }
            budget.1 -= used;
            match ev {
                Ev::MergeRet(v) => {
                    budget.0 -= 1;
                    return Some(v);
                }
                Ev::End(_) => return None,
                Ev::Fork(alts) => {
                    // nested merge first
                    if let Some(i) = self.merge_candidate(s) {
                        if i > lvl {
                            let iw = self.p.m.width(self.p.m.funcs[s.frames[i].f as usize].ret);
                            let mut sub = s.clone();
                            sub.pure_floor = Some((i, sub.frames[i].sp));
                            if let Some(v) = self.merge_explore(&sub, alts, iw, i, budget, sh) {
                                self.pop_to(s, i, v);
                                continue;
                            }
                            return None;
                        }
                    }
                    return self.merge_explore(s, alts, w, lvl, budget, sh);
                }
            }
        }
    }
    fn pop_to(&mut self, s: &mut State, i: usize, v: V) {
        let sp = s.frames[i].sp;
        s.frames.truncate(i);
        s.stack.truncate(sp as usize);
        s.subst.clear();
        self.finish_call(s, Some(v));
    }
    fn try_merge(&mut self, st: &mut State, alts: Vec<Alt>, sh: &Shared) -> Result<(), Vec<Alt>> {
        let forced = st.merge_now.take();
        let i = match forced {
            Some(i) => i,
            None => match self.merge_candidate(st) {
                Some(i) => i,
                None => return Err(alts),
            },
        };
        let f = st.frames[i].f;
        let fails = *self.merge_fail.get(&f).unwrap_or(&0);
        let oks = *self.merge_ok.get(&f).unwrap_or(&0);
        let skip = forced.is_none() && fails >= 3 && fails > oks * 4;
        if !skip {
            let w = self.p.m.width(self.p.m.funcs[f as usize].ret);
            let mut sub = st.clone();
            sub.pure_floor = Some((i, sub.frames[i].sp));
            sub.record = false;
            sub.replay = None;
            let mut budget = (MAX_MERGE_PATHS, MAX_MERGE_STEPS);
            // keep alts for the failure case
            let copy: Vec<Alt> = alts.iter().map(|a| Alt { cond: a.cond, model: a.model.clone(), act: a.act.clone(), code: a.code }).collect();
            if let Some(v) = self.merge_explore(&sub, copy, w, i, &mut budget, sh) {
                *self.merge_ok.entry(f).or_insert(0) += 1;
                self.st.merges += 1;
                self.record(st, MERGE_MARK << 32 | i as u64);
                self.pop_to(st, i, v);
                return Ok(());
            }
            if forced.is_some() {
                panic!("replayed merge failed in {}", self.p.m.funcs[f as usize].name);
            }
            *self.merge_fail.entry(f).or_insert(0) += 1;
            self.st.merge_aborts += 1;
        }
        Rc::make_mut(&mut st.frames[i]).nomerge = true;
        Err(alts)
    }

    // ---------- driver ----------

    pub fn tape_str(&mut self, st: &State) -> String {
        let mut s = String::new();
        for t in &st.tape {
            match t {
                Tape::S(v, n) => {
                    s.push('S');
                    for i in 0..*n {
                        s.push_str(&format!("{:02x}", st.model.get((*v + i) as usize).copied().unwrap_or(0)));
                    }
                }
                Tape::C(c) => s.push_str(&format!("C{}", c)),
            }
            s.push(',');
        }
        s
    }
    fn digest(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let notes = st.notes.clone();
        let m = st.model.clone();
        for v in &notes {
            let x = match v {
                V::C(c) => *c as u64,
                V::E(e) => self.ar.eval(*e, &m) as u64,
                _ => 0,
            };
            h = (h ^ x).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h
    }
    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.p.m.funcs[f.f as usize].name.clone()).collect()
    }
    fn end_path(&mut self, st: &mut State, e: End, sh: &Shared) {
        self.st.paths += 1;
        let job = self.cur_job;
        sh.job_paths[job].fetch_add(1, Ordering::Relaxed);
        if st.max_depth > self.st.max_depth {
            self.st.max_depth = st.max_depth;
        }
        match &e {
            End::Done => {
                self.st.done += 1;
                if self.recs.len() < self.max_recs || self.rand() % 16 == 0 {
                    if self.ensure_model(st) {
                        let tape = self.tape_str(st);
                        let digest = self.digest(st);
                        let r = PathRec { job, tape, digest, end: 'D' };
                        if self.recs.len() < self.max_recs {
                            self.recs.push(r);
                        } else if self.max_recs > 0 {
                            let i = self.rand() as usize % self.max_recs;
                            self.recs[i] = r;
                        }
                    }
                }
            }
            End::Assume => {
                self.st.assumed += 1;
            }
            End::Unsupported(s) => {
                *self.jst[job].unsupported.entry(s.clone()).or_insert(0) += 1;
                sh.job_incomplete[job].store(true, Ordering::Relaxed);
                if std::env::var("VP_TRACE").is_ok() {
                    eprintln!("unsupported {} in {:#?}", s, self.trace(st));
                }
            }
            End::MergeAbort => panic!("merge abort escaped"),
            _ => {
                let at = (Instant::now() - sh.start).as_millis() as u64 + sh.after;
                sh.ends.fetch_min(at, Ordering::Relaxed);
                let n = sh.job_viol[job].fetch_add(1, Ordering::Relaxed);
                if n < 5 && self.ensure_model(st) {
                    let tape = self.tape_str(st);
                    let (kind, id) = match &e {
                        End::Assert(i) => ("assert".to_string(), *i),
                        End::Panic => ("panic".to_string(), 0),
                        End::Mem(s) => (format!("memory: {}", s), 0),
                        End::Abort(s) => (format!("abort: {}", s), 0),
                        End::Unreachable => ("unreachable code reached".to_string(), 0),
                        End::StepLimit => ("step limit (nontermination?)".to_string(), 0),
                        _ => ("?".into(), 0),
                    };
                    let trace = self.trace(st);
                    self.viol.push(Violation { job, kind, id, tape, trace });
                }
            }
        }
    }

    /// Process one task to completion (donating work when others are idle).
    pub fn run_task(&mut self, job: usize, prefix: Vec<u64>, sh: &Shared) {
        self.cur_job = job;
        self.task_unknown = self.z3.unknown;
        let t0 = Instant::now();
        self.z3.max_unknown = self.task_unknown + 3;
        let spent = sh.job_time[job].load(Ordering::Relaxed) as f64 / 1e6;
        self.z3.deadline = sh.deadline.min(t0 + std::time::Duration::from_secs_f64((self.jobs[job].max_time - spent).max(1.0)));
        let mut init = self.initial(job);
        if !prefix.is_empty() {
            init.replay = Some((Arc::new(prefix), 0));
        }
        let mut work = vec![init];
        let mut iter = 0u64;
        while let Some(mut st) = work.pop() {
            iter += 1;
            if sh.stop.load(Ordering::Relaxed) || sh.over() {
                sh.job_incomplete[job].store(true, Ordering::Relaxed);
                break;
            }
            if sh.job_viol[job].load(Ordering::Relaxed) >= 8 {
                // enough evidence for this job
                break;
            }
            if self.z3.unknown > self.task_unknown + 3 {
                sh.job_incomplete[job].store(true, Ordering::Relaxed);
                break;
            }
            if iter & 15 == 0 {
                let tot = sh.job_time[job].load(Ordering::Relaxed) as f64 / 1e6 + t0.elapsed().as_secs_f64();
                if tot > self.jobs[job].max_time {
                    sh.job_incomplete[job].store(true, Ordering::Relaxed);
                    break;
                }
            }
            // donate
            if work.len() >= 1 && sh.idle.load(Ordering::Relaxed) > sh.qlen.load(Ordering::Relaxed) {
                let s = work.remove(0);
                let mut v = vec![];
                let mut d = s.dec.clone();
                while let Some(x) = d {
                    v.push(x.val);
                    d = x.prev.clone();
                }
                v.reverse();
                sh.job_left[job].fetch_add(1, Ordering::SeqCst);
                let mut q = sh.queue.lock().unwrap();
                q.push_back((job, v));
                sh.qlen.store(q.len(), Ordering::Relaxed);
                drop(q);
                sh.cv.notify_one();
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            loop {
                    let ev = self.run(&mut st, sh);
                    match ev {
                        Ev::End(e) => {
                            self.end_path(&mut st, e, sh);
                            break;
                        }
                        Ev::MergeRet(_) => panic!("merge return at top level"),
                        Ev::Fork(alts) => {
                            let alts = if st.replay.is_none() || st.merge_now.is_some() {
                                match self.try_merge(&mut st, alts, sh) {
                                    Ok(()) => continue,
                                    Err(a) => a,
                                }
                            } else {
                                alts
                            };
                            self.st.forks += alts.len() as u64 - 1;
                            let mut kids = vec![];
                            for a in alts.iter() {
                                if let Some(s) = self.take_alt(&st, a) {
                                    kids.push(s);
                                }
                            }
                            kids.reverse();
                            match kids.pop() {
                                Some(k) => {
                                    work.append(&mut kids);
                                    st = k;
                                }
                                None => break,
                            }
                        }
                    }
                }
            }));
            if let Err(e) = r {
                let msg = match (e.downcast_ref::<String>(), e.downcast_ref::<&str>()) {
                    (Some(s), _) => s.clone(),
                    (_, Some(s)) => s.to_string(),
                    _ => String::new(),
                };
                *self.st.unsupported.entry(format!("engine: {}", msg)).or_insert(0) += 1;
                sh.job_incomplete[job].store(true, Ordering::Relaxed);
            }
        }
        // roll stats into the job
        let s = std::mem::take(&mut self.st);
        let j = &mut self.jst[job];
        j.paths += s.paths;
        j.done += s.done;
        j.assumed += s.assumed;
        j.forks += s.forks;
        j.instrs += s.instrs;
        j.merges += s.merges;
        j.merge_aborts += s.merge_aborts;
        j.asserts += s.asserts;
        j.asserts_const += s.asserts_const;
        j.asserts_z3 += s.asserts_z3;
        j.dom_decided += s.dom_decided;
        j.rel_decided += s.rel_decided;
        j.model_decided += s.model_decided;
        j.cache_hits += s.cache_hits;
        j.crosschecks += s.crosschecks;
        j.max_depth = j.max_depth.max(s.max_depth);
        for (k, v) in s.unsupported {
            *j.unsupported.entry(k).or_insert(0) += v;
        }
        self.st.funcs = s.funcs;
        sh.job_time[job].fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
        // drop large caches between tasks to bound memory
        if self.ar.nodes.len() > 3_000_000 {
            self.ar = Arena::new();
            let q = (self.z3.queries, self.z3.sat, self.z3.unsat, self.z3.unknown, self.z3.time, self.z3.max_time);
            self.z3 = Z3::new(30_000);
            self.z3.queries = q.0;
            self.z3.sat = q.1;
            self.z3.unsat = q.2;
            self.z3.unknown = q.3;
            self.z3.time = q.4;
            self.z3.max_time = q.5;
            self.cache.clear();
        }
    }
}

fn insert_val(m: &Module, base: &V, ty: TyId, x: &V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return x.clone();
    }
    let i = idx[0] as usize;
    let (n, ft) = match &m.types[ty as usize] {
        Ty::Struct(fs, _) => (fs.len(), fs[i]),
        Ty::Array(n, e) => (*n as usize, *e),
        _ => panic!("insertvalue"),
    };
    let mut vs = match base {
        V::A(v) => (**v).clone(),
        _ => vec![V::C(0); n],
    };
    vs[i] = insert_val(m, &vs[i].clone(), ft, x, &idx[1..]);
    V::A(Arc::new(vs))
}
