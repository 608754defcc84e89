//! The symbolic executor: a depth-first explorer over the decoded IR with an undo trail.
use crate::expr::{apply, Arena, Op, E, MULTI, NOVAR};
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook {
    None,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Memalign,
    Free,
    Bcmp,
    Memcmp,
    Strlen,
    Ret0,
    RetM1,
    WriteLike,
    Exit,
    F64Parse,
    U8,
    U64,
    Pin,
    Assume,
    Fail,
    Out,
    Cover,
    IsSym,
    Unsup,
}

pub fn hook_for(name: &str, has_body: bool) -> Hook {
    match name {
        "malloc" => return Hook::Malloc,
        "calloc" => return Hook::Calloc,
        "realloc" => return Hook::Realloc,
        "posix_memalign" => return Hook::Memalign,
        "free" => return Hook::Free,
        "bcmp" => return Hook::Bcmp,
        "memcmp" => return Hook::Memcmp,
        "strlen" => return Hook::Strlen,
        "isatty" | "__cxa_thread_atexit_impl" | "getenv" | "pthread_self" | "pthread_setspecific" | "poll" | "signal" | "sigaction" | "sched_yield" => return Hook::Ret0,
        "ioctl" | "syscall" => return Hook::RetM1,
        "write" => return Hook::WriteLike,
        "exit" | "abort" | "_exit" => return Hook::Exit,
        "rsx_u8" => return Hook::U8,
        "rsx_u64" => return Hook::U64,
        "rsx_pin" => return Hook::Pin,
        "rsx_assume" => return Hook::Assume,
        "rsx_fail" => return Hook::Fail,
        "rsx_out" => return Hook::Out,
        "rsx_cover" => return Hook::Cover,
        "rsx_is_sym" => return Hook::IsSym,
        _ => {}
    }
    const P: &[&str] = &[
        "4core9panicking",
        "6option13unwrap_failed",
        "6option13expect_failed",
        "6result13unwrap_failed",
        "5index16slice_index_fail",
        "slice_start_index_len_fail",
        "slice_end_index_len_fail",
        "slice_index_order_fail",
        "3str16slice_error_fail",
        "17len_mismatch_fail",
        "4cell22panic_already",
        "7raw_vec12handle_error",
        "7raw_vec17capacity_overflow",
        "5alloc18handle_alloc_error",
        "3std9panicking11begin_panic",
        "rust_begin_unwind",
        "3std7process5abort",
        "3std7process4exit",
        "panic_on_ord_violation",
        "13assert_failed",
        "unwrap_failed",
        "expect_failed",
    ];
    for p in P {
        if name.contains(p) {
            return Hook::Panic;
        }
    }
    if name.contains("float_parse") && name.contains("8from_str") && name.contains("FromStr") && name.contains("parsed") {
        return Hook::F64Parse;
    }
    if has_body {
        Hook::None
    } else {
        Hook::Unsup
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    C(u64),
    S(E),
}

#[derive(Clone, Copy)]
struct Frame {
    func: *const Func,
    pc: u32,
    base: u32,
    sp: u64,
    dst: u32,
}

enum Tr {
    Mem { idx: u32, len: u8, old: u64 },
    Sym { idx: u32, e: E },
    Reg { idx: u32, old: Val },
    Frame { idx: u32, f: Frame },
    Dom { v: u32, old: [u64; 4] },
    Wit { v: u32, old: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    Val(u64),
    Br { side: bool, alt: bool },
}

struct Cp {
    trail: usize,
    nframes: usize,
    top: Frame,
    regs_top: u32,
    log_sp: u64,
    log_nframes: usize,
    sp: u64,
    heap: u64,
    nvars: usize,
    nmcs: usize,
    nouts: usize,
    ncov: usize,
    nuf: usize,
    ndec: usize,
    steps: u64,
    cond: E,
    alt: bool,
    delta: Vec<(u32, u64)>,
    given_away: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Infeasible,
    Panic(String),
    Fail(String),
    Steps,
    Unsup(String),
    Stop,
}

enum Stop {
    End(End),
    Retry,
}
type R<T> = Result<T, Stop>;
fn end<T>(e: End) -> R<T> {
    Err(Stop::End(e))
}
fn unsup<T>(s: impl Into<String>) -> R<T> {
    end(End::Unsup(s.into()))
}

pub struct HSpec {
    pub name: String,
    pub arg: u64,
    pub entry: u32,
    pub optional: bool,
    pub label: String,
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub h: usize,
    pub inputs: Vec<u64>,
    pub outs: Vec<u64>,
    pub end: End,
    pub approx: bool,
}

#[derive(Default)]
pub struct HStat {
    pub paths: AtomicU64,
    pub done: AtomicU64,
    pub infeasible: AtomicU64,
    pub forks: AtomicU64,
    pub decisions: AtomicU64,
    pub insts: AtomicU64,
    pub maxvars: AtomicU64,
    pub pending: AtomicUsize,
    pub started: AtomicBool,
    pub maxsteps: AtomicU64,
}

pub struct Shared<'a> {
    pub m: &'a Module,
    pub specs: Vec<HSpec>,
    pub stats: Vec<HStat>,
    pub queue: Mutex<BTreeMap<usize, VecDeque<Vec<Dec>>>>,
    pub qlen: AtomicUsize,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub nworkers: usize,
    pub stop: AtomicBool,
    pub cache: Vec<Mutex<HashMap<u128, (Res, Vec<(u32, u64)>)>>>,
    pub certs: Mutex<HashSet<u128>>,
    pub q_total: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub q_cert: AtomicU64,
    pub q_cached: AtomicU64,
    pub q_ns: AtomicU64,
    pub quick_dom: AtomicU64,
    pub quick_wit: AtomicU64,
    pub samples: Mutex<Vec<Witness>>,
    pub problems: Mutex<Vec<Witness>>,
    pub covers: Mutex<BTreeMap<(usize, u32), u64>>,
    pub fns: Mutex<HashSet<u32>>,
    pub smt: Mutex<Vec<(String, bool)>>,
    pub deadline: Instant,
    pub opt_deadline: Instant,
    pub max_steps: u64,
    pub sample_cap: usize,
    pub problem_cap: usize,
    pub problem_keep: usize,
    pub nproblems: AtomicUsize,
    pub solver_ms: u32,
    pub profile: bool,
    pub forkprof: Mutex<HashMap<String, u64>>,
}

const STACK: u64 = 24 << 20;
const HEAP: u64 = 96 << 20;

pub struct Worker<'a> {
    sh: &'a Shared<'a>,
    m: &'a Module,
    pub ar: Arena,
    z: Z3,
    mem: Vec<u8>,
    fl: Vec<u8>,
    shd: Vec<u32>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    trail: Vec<Tr>,
    cps: Vec<Cp>,
    // logging thresholds
    l_regs: u32,
    l_sp: u64,
    l_heap: u64,
    sp: u64,
    heap: u64,
    heap0: u64,
    stack0: u64,
    cur_pc: u32,
    // symbolic state
    vars: Vec<(u8, bool)>, // width, is_uf
    wit: Vec<u64>,
    dom: Vec<[u64; 4]>,
    link: Vec<u32>,
    mcs: Vec<E>,
    outs: Vec<Val>,
    cov: Vec<u32>,
    ufs: Vec<(Vec<E>, u32)>,
    decs: Vec<Dec>,
    forced: Vec<Dec>,
    fpos: usize,
    steps: u64,
    h: usize,
    seen: Vec<bool>,
    certed: HashSet<u128>,
    nsample: u64,
    rng: u64,
    smtcount: u64,
}

fn pop4(m: &[u64; 4]) -> u32 {
    m.iter().map(|x| x.count_ones()).sum()
}
fn and4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn not4(a: &[u64; 4]) -> [u64; 4] {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn has4(m: &[u64; 4], v: u64) -> bool {
    v < 256 && m[(v / 64) as usize] >> (v % 64) & 1 == 1
}
fn nth4(m: &[u64; 4], mut n: u32) -> u64 {
    for i in 0..256u64 {
        if has4(m, i) {
            if n == 0 {
                return i;
            }
            n -= 1;
        }
    }
    0
}
/// prefer printable values for readable witnesses
fn pick4(m: &[u64; 4]) -> u64 {
    for r in [97..123u64, 48..58, 65..91, 32..127, 0..256] {
        for i in r {
            if has4(m, i) {
                return i;
            }
        }
    }
    0
}

#[inline]
fn msk(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl<'a> Worker<'a> {
    pub fn new(sh: &'a Shared<'a>, id: u64) -> Self {
        let m = sh.m;
        let img = m.image.len() as u64;
        let stack0 = GBASE + img;
        let heap0 = stack0 + STACK;
        let total = (img + STACK + HEAP) as usize;
        let mut mem = vec![0u8; total];
        mem[..m.image.len()].copy_from_slice(&m.image);
        Worker {
            sh,
            m,
            ar: Arena::new(),
            z: Z3::new(sh.solver_ms),
            mem,
            fl: vec![0u8; total],
            shd: vec![0u32; total],
            regs: vec![Val::C(0); 1 << 20],
            frames: Vec::with_capacity(4096),
            trail: vec![],
            cps: vec![],
            l_regs: 0,
            l_sp: 0,
            l_heap: 0,
            sp: stack0,
            heap: heap0,
            heap0,
            stack0,
            cur_pc: 0,
            vars: vec![],
            wit: vec![],
            dom: vec![],
            link: vec![],
            mcs: vec![],
            outs: vec![],
            cov: vec![],
            ufs: vec![],
            decs: vec![],
            forced: vec![],
            fpos: 0,
            steps: 0,
            h: 0,
            seen: vec![false; m.fns.len()],
            certed: HashSet::new(),
            nsample: 0,
            rng: 0x9E3779B97F4A7C15 ^ (id + 1).wrapping_mul(0xD1B54A32D192ED03),
            smtcount: 0,
        }
    }

    // ---------------------------------------------------------------- driver
    pub fn work(&mut self) {
        loop {
            let task = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Relaxed) {
                        return;
                    }
                    let mut got = None;
                    if let Some((&h, v)) = q.iter_mut().next() {
                        let p = v.pop_front().unwrap();
                        if v.is_empty() {
                            q.remove(&h);
                        }
                        got = Some((h, p));
                    }
                    if let Some(t) = got {
                        self.sh.qlen.fetch_sub(1, SeqCst);
                        break t;
                    }
                    let n = self.sh.idle.fetch_add(1, SeqCst) + 1;
                    if n == self.sh.nworkers {
                        self.sh.stop.store(true, SeqCst);
                        self.sh.cv.notify_all();
                        return;
                    }
                    q = self.sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                    self.sh.idle.fetch_sub(1, SeqCst);
                }
            };
            self.run_task(task.0, task.1);
        }
    }

    fn run_task(&mut self, h: usize, prefix: Vec<Dec>) {
        self.h = h;
        let st = &self.sh.stats[h];
        st.started.store(true, Relaxed);
        let opt = self.sh.specs[h].optional;
        let dl = if opt { self.sh.opt_deadline } else { self.sh.deadline };
        if Instant::now() > dl {
            return; // pending stays > 0: incomplete
        }
        // reset
        self.trail.clear();
        self.cps.clear();
        self.frames.clear();
        self.sp = self.stack0;
        self.heap = self.heap0;
        self.vars.clear();
        self.wit.clear();
        self.dom.clear();
        self.link.clear();
        self.mcs.clear();
        self.outs.clear();
        self.cov.clear();
        self.ufs.clear();
        self.decs.clear();
        self.forced = prefix;
        self.fpos = 0;
        self.steps = 0;
        self.z.trim();
        let f = self.m.func(self.sh.specs[h].entry).unwrap() as *const Func;
        self.seen[self.sh.specs[h].entry as usize] = true;
        self.frames.push(Frame { func: f, pc: 0, base: 0, sp: self.sp, dst: 0 });
        self.regs[0] = Val::C(self.sh.specs[h].arg);
        // root choice point: undoes everything when the task ends
        self.push_cp(0, false, vec![]);
        loop {
            let r = self.run();
            self.finish_path(&r);
            if r == End::Stop {
                self.unwind_to_root();
                self.flush_seen();
                return;
            }
            if Instant::now() > dl || self.sh.stop.load(Relaxed) {
                self.unwind_to_root();
                self.flush_seen();
                return;
            }
            self.maybe_donate();
            if !self.backtrack() {
                break;
            }
        }
        self.flush_seen();
        self.sh.stats[h].pending.fetch_sub(1, SeqCst);
    }

    fn flush_seen(&mut self) {
        let mut g = self.sh.fns.lock().unwrap();
        for (i, s) in self.seen.iter().enumerate() {
            if *s {
                g.insert(i as u32);
            }
        }
    }

    fn maybe_donate(&mut self) {
        if self.sh.idle.load(Relaxed) == 0 || self.sh.qlen.load(Relaxed) > 2 * self.sh.nworkers {
            return;
        }
        let n = self.cps.len();
        for i in 1..n {
            if !self.cps[i].given_away {
                let c = &mut self.cps[i];
                c.given_away = true;
                let mut p: Vec<Dec> = self.decs[..c.ndec].to_vec();
                p.push(Dec::Br { side: c.alt, alt: true });
                self.sh.stats[self.h].pending.fetch_add(1, SeqCst);
                let mut q = self.sh.queue.lock().unwrap();
                q.entry(self.h).or_default().push_back(p);
                self.sh.qlen.fetch_add(1, SeqCst);
                drop(q);
                self.sh.cv.notify_one();
                return;
            }
        }
    }

    fn push_cp(&mut self, cond: E, alt: bool, delta: Vec<(u32, u64)>) {
        let mut top = *self.frames.last().unwrap();
        top.pc = self.cur_pc;
        // locations alive at any choice point still on the stack must be logged: cumulative maxima
        let mut regs_top = top.base + unsafe { (*top.func).nregs };
        let mut log_sp = self.sp;
        let mut log_nframes = self.frames.len();
        if let Some(c) = self.cps.last() {
            regs_top = regs_top.max(c.regs_top);
            log_sp = log_sp.max(c.log_sp);
            log_nframes = log_nframes.max(c.log_nframes);
        }
        self.cps.push(Cp {
            trail: self.trail.len(),
            nframes: self.frames.len(),
            top,
            regs_top,
            log_sp,
            log_nframes,
            sp: self.sp,
            heap: self.heap,
            nvars: self.vars.len(),
            nmcs: self.mcs.len(),
            nouts: self.outs.len(),
            ncov: self.cov.len(),
            nuf: self.ufs.len(),
            ndec: self.decs.len(),
            steps: self.steps,
            cond,
            alt,
            delta,
            given_away: false,
        });
        self.set_l();
    }
    fn set_l(&mut self) {
        if let Some(c) = self.cps.last() {
            self.l_regs = c.regs_top;
            self.l_sp = c.log_sp;
            self.l_heap = c.heap;
        }
    }

    fn restore(&mut self, c: &Cp) {
        while self.trail.len() > c.trail {
            match self.trail.pop().unwrap() {
                Tr::Mem { idx, len, old } => {
                    let i = idx as usize;
                    let b = old.to_le_bytes();
                    self.mem[i..i + len as usize].copy_from_slice(&b[..len as usize]);
                    for k in 0..len as usize {
                        self.fl[i + k] = 0;
                    }
                }
                Tr::Sym { idx, e } => {
                    self.fl[idx as usize] = 1;
                    self.shd[idx as usize] = e;
                }
                Tr::Reg { idx, old } => self.regs[idx as usize] = old,
                Tr::Frame { idx, f } => {
                    if self.frames.len() <= idx as usize {
                        self.frames.resize(idx as usize + 1, f);
                    }
                    self.frames[idx as usize] = f;
                }
                Tr::Dom { v, old } => self.dom[v as usize] = old,
                Tr::Wit { v, old } => self.wit[v as usize] = old,
            }
        }
        if self.frames.len() < c.nframes {
            self.frames.resize(c.nframes, c.top);
        }
        self.frames.truncate(c.nframes);
        *self.frames.last_mut().unwrap() = c.top;
        self.sp = c.sp;
        self.heap = c.heap;
        while self.mcs.len() > c.nmcs {
            let e = self.mcs.pop().unwrap();
            for v in self.ar.varset(e).iter() {
                self.link[*v as usize] -= 1;
            }
        }
        self.vars.truncate(c.nvars);
        self.wit.truncate(c.nvars);
        self.dom.truncate(c.nvars);
        self.link.truncate(c.nvars);
        self.outs.truncate(c.nouts);
        self.cov.truncate(c.ncov);
        self.ufs.truncate(c.nuf);
        self.decs.truncate(c.ndec);
        self.steps = c.steps;
        self.cur_pc = c.top.pc;
    }

    fn unwind_to_root(&mut self) {
        while let Some(c) = self.cps.pop() {
            self.restore(&c);
        }
    }

    /// returns false when the task is exhausted
    fn backtrack(&mut self) -> bool {
        loop {
            let c = self.cps.pop().unwrap();
            self.restore(&c);
            if self.cps.is_empty() {
                return false;
            }
            self.set_l();
            if c.given_away {
                continue;
            }
            self.decs.push(Dec::Br { side: c.alt, alt: true });
            for (v, x) in &c.delta {
                self.set_wit(*v, *x);
            }
            self.add_constraint(c.cond, c.alt);
            return true;
        }
    }

    fn set_wit(&mut self, v: u32, x: u64) {
        let old = self.wit[v as usize];
        if old != x {
            self.trail.push(Tr::Wit { v, old });
            self.wit[v as usize] = x;
        }
    }

    fn finish_path(&mut self, e: &End) {
        let st = &self.sh.stats[self.h];
        match e {
            End::Stop => return,
            End::Infeasible => {
                st.infeasible.fetch_add(1, Relaxed);
                return;
            }
            _ => {}
        }
        let np = st.paths.fetch_add(1, Relaxed);
        st.insts.fetch_add(self.steps, Relaxed);
        st.maxvars.fetch_max(self.vars.len() as u64, Relaxed);
        st.maxsteps.fetch_max(self.steps, Relaxed);
        if !self.cov.is_empty() {
            let mut g = self.sh.covers.lock().unwrap();
            for c in &self.cov {
                *g.entry((self.h, *c)).or_insert(0) += 1;
            }
        }
        if *e == End::Done {
            st.done.fetch_add(1, Relaxed);
            // sample for native validation
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            let keep = np < 64 || self.rng % (1 + np / 64) == 0;
            if keep {
                let w = self.witness(End::Done);
                let mut g = self.sh.samples.lock().unwrap();
                if g.len() < self.sh.sample_cap {
                    g.push(w);
                } else {
                    let i = (self.rng >> 20) as usize % g.len();
                    g[i] = w;
                }
            }
        } else {
            let w = self.witness(e.clone());
            let mut g = self.sh.problems.lock().unwrap();
            // per harness and kind of problem: keep the smallest few, stop when there are very many
            let same: Vec<usize> = (0..g.len()).filter(|i| g[*i].h == w.h && g[*i].end == w.end).collect();
            if same.len() < self.sh.problem_keep {
                g.push(w);
            } else {
                let worst = same.into_iter().max_by(|a, b| (g[*a].inputs.len(), &g[*a].inputs).cmp(&(g[*b].inputs.len(), &g[*b].inputs))).unwrap();
                if (w.inputs.len(), &w.inputs) < (g[worst].inputs.len(), &g[worst].inputs) {
                    g[worst] = w;
                }
            }
            if self.sh.nproblems.fetch_add(1, Relaxed) + 1 >= self.sh.problem_cap {
                self.sh.stop.store(true, SeqCst);
            }
        }
    }

    fn witness(&mut self, e: End) -> Witness {
        let wit = self.wit.clone();
        let outs: Vec<u64> = self
            .outs
            .clone()
            .into_iter()
            .map(|v| match v {
                Val::C(c) => c,
                Val::S(x) => self.ar.eval(x, &wit) as u64,
            })
            .collect();
        let inputs = (0..self.vars.len()).filter(|i| !self.vars[*i].1).map(|i| wit[i]).collect();
        Witness { h: self.h, inputs, outs, end: e, approx: self.vars.iter().any(|v| v.1) }
    }

    // ---------------------------------------------------------------- solver layer
    fn certify(&mut self, e: E, v: u32, m: &[u64; 4]) -> R<()> {
        let s = self.ar.shape[e as usize];
        if !self.certed.insert(s) {
            return Ok(());
        }
        if !self.sh.certs.lock().unwrap().insert(s) {
            return Ok(());
        }
        let t = Instant::now();
        let mut d = String::new();
        let want = self.smtcount < 12;
        let r = self.z.certify(&self.ar, e, v, m, if want { Some(&mut d) } else { None });
        self.sh.q_ns.fetch_add(t.elapsed().as_nanos() as u64, Relaxed);
        self.sh.q_total.fetch_add(1, Relaxed);
        self.sh.q_cert.fetch_add(1, Relaxed);
        if self.sh.profile && t.elapsed().as_millis() > 100 {
            eprintln!("SLOWCERT {:?} {} ms {} at {}", r, t.elapsed().as_millis(), d, self.where_am_i());
        }
        if want {
            self.smtcount += 1;
            self.sh.smt.lock().unwrap().push((d, r == Res::Sat));
        }
        match r {
            Res::Unsat => {
                self.sh.q_unsat.fetch_add(1, Relaxed);
                Ok(())
            }
            Res::Sat => unsup("engine self-check: solver disagrees with a byte table"),
            Res::Unknown => unsup("solver returned unknown on a byte-table certificate"),
        }
    }

    fn mask_of(&mut self, e: E, v: u32) -> R<[u64; 4]> {
        let (m, _) = self.ar.mask256(e);
        self.certify(e, v, &m)?;
        Ok(m)
    }

    fn mcs_hold(&mut self, touched: &[u32]) -> bool {
        for i in 0..self.mcs.len() {
            let e = self.mcs[i];
            let vs = self.ar.varset(e);
            if touched.iter().any(|t| vs.binary_search(t).is_ok()) {
                if self.ar.eval(e, &self.wit) != 1 {
                    return false;
                }
            }
        }
        true
    }

    /// Is (e == side) satisfiable together with the path condition?  The current witness does not satisfy it.
    fn feasible(&mut self, e: E, side: bool) -> R<Option<Vec<(u32, u64)>>> {
        if let Some(v) = self.ar.is_byte_single(e) {
            let m = self.mask_of(e, v)?;
            let m = if side { m } else { not4(&m) };
            let d = and4(&self.dom[v as usize], &m);
            let n = pop4(&d);
            if n == 0 {
                self.sh.quick_dom.fetch_add(1, Relaxed);
                return Ok(None);
            }
            if self.link[v as usize] == 0 {
                self.sh.quick_dom.fetch_add(1, Relaxed);
                return Ok(Some(vec![(v, pick4(&d))]));
            }
            let old = self.wit[v as usize];
            for k in 0..n.min(8) {
                let x = if k == 0 { pick4(&d) } else { nth4(&d, (k * n) / n.min(8)) };
                self.wit[v as usize] = x;
                let ok = self.mcs_hold(&[v]);
                self.wit[v as usize] = old;
                if ok {
                    self.sh.quick_wit.fetch_add(1, Relaxed);
                    return Ok(Some(vec![(v, x)]));
                }
            }
        } else {
            // cheap local search on single-variable changes
            let vs = self.ar.varset(e);
            if vs.len() <= 8 {
                for &v in vs.iter() {
                    if self.vars[v as usize].0 != 8 {
                        continue;
                    }
                    let old = self.wit[v as usize];
                    let d = self.dom[v as usize];
                    let n = pop4(&d);
                    for k in 0..n.min(6) {
                        let x = nth4(&d, (k * n) / n.min(6));
                        if x == old {
                            continue;
                        }
                        self.wit[v as usize] = x;
                        let ok = (self.ar.eval(e, &self.wit) == 1) == side && self.mcs_hold(&[v]);
                        self.wit[v as usize] = old;
                        if ok {
                            self.sh.quick_wit.fetch_add(1, Relaxed);
                            return Ok(Some(vec![(v, x)]));
                        }
                    }
                }
            }
        }
        // solver on the independent slice
        let mut set: Vec<u32> = self.ar.varset(e).to_vec();
        let mut used = vec![false; self.mcs.len()];
        loop {
            let mut ch = false;
            for i in 0..self.mcs.len() {
                if used[i] {
                    continue;
                }
                let vs = self.ar.varset(self.mcs[i]);
                if vs.iter().any(|v| set.contains(v)) {
                    used[i] = true;
                    ch = true;
                    for v in vs.iter() {
                        if !set.contains(v) {
                            set.push(*v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        set.sort_unstable();
        let mut hs: Vec<u128> = (0..self.mcs.len()).filter(|i| used[*i]).map(|i| self.ar.hash[self.mcs[i] as usize]).collect();
        hs.sort_unstable();
        hs.dedup();
        let mut key = self.ar.hash[e as usize] ^ (side as u128);
        let mut mixk = |x: u128| {
            key = (key ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835u128).rotate_left(59) ^ (key >> 77);
        };
        for h in &hs {
            mixk(*h);
        }
        mixk(0xfeed);
        for v in &set {
            mixk(*v as u128 + 1);
            if self.vars[*v as usize].0 == 8 {
                let d = self.dom[*v as usize];
                mixk(d[0] as u128 | (d[1] as u128) << 64);
                mixk(d[2] as u128 | (d[3] as u128) << 64);
            }
        }
        let slot = (key % 64) as usize;
        if let Some((r, mdl)) = self.sh.cache[slot].lock().unwrap().get(&key) {
            self.sh.q_cached.fetch_add(1, Relaxed);
            return match r {
                Res::Sat => Ok(Some(mdl.clone())),
                Res::Unsat => Ok(None),
                Res::Unknown => unsup("solver unknown (cached)"),
            };
        }
        let t = Instant::now();
        let mut asserts = vec![];
        for v in &set {
            if self.vars[*v as usize].0 == 8 {
                let d = self.dom[*v as usize];
                if pop4(&d) < 256 {
                    let pv = self.z.var(*v, 8);
                    asserts.push(self.z.in_set(pv, &d));
                }
            }
        }
        for i in 0..self.mcs.len() {
            if used[i] {
                asserts.push(self.z.boolean(&self.ar, self.mcs[i]));
            }
        }
        let ce = if side { e } else { self.ar.not1(e) };
        asserts.push(self.z.boolean(&self.ar, ce));
        let vl: Vec<(u32, u8)> = set.iter().map(|v| (*v, self.vars[*v as usize].0)).collect();
        let mut d = String::new();
        let want = self.smtcount < 40;
        let (r, mdl) = self.z.check(&asserts, &vl, if want { Some(&mut d) } else { None });
        self.sh.q_ns.fetch_add(t.elapsed().as_nanos() as u64, Relaxed);
        self.sh.q_total.fetch_add(1, Relaxed);
        if self.sh.profile && t.elapsed().as_millis() > 300 {
            eprintln!("SLOW {:?} {} ms {} at {}", r, t.elapsed().as_millis(), d, self.where_am_i());
        }
        if want && r != Res::Unknown {
            self.smtcount += 1;
            self.sh.smt.lock().unwrap().push((d, r == Res::Sat));
        }
        let out: Vec<(u32, u64)> = set.iter().cloned().zip(mdl.iter().cloned()).collect();
        self.sh.cache[slot].lock().unwrap().insert(key, (r, out.clone()));
        match r {
            Res::Sat => {
                self.sh.q_sat.fetch_add(1, Relaxed);
                Ok(Some(out))
            }
            Res::Unsat => {
                self.sh.q_unsat.fetch_add(1, Relaxed);
                Ok(None)
            }
            Res::Unknown => {
                self.sh.q_unknown.fetch_add(1, Relaxed);
                unsup("solver unknown (time cap)")
            }
        }
    }

    fn add_constraint(&mut self, e: E, side: bool) {
        if self.ar.kval(e).is_some() {
            return;
        }
        if let Some(n) = self.ar.is_not1(e) {
            return self.add_constraint(n, !side);
        }
        let nd = self.ar.n[e as usize];
        if nd.w == 1 && ((side && nd.op == Op::And) || (!side && nd.op == Op::Or)) {
            self.add_constraint(nd.a, side);
            self.add_constraint(nd.b, side);
            return;
        }
        if let Some(v) = self.ar.is_byte_single(e) {
            let (m, _) = self.ar.mask256(e);
            let _ = self.certify(e, v, &m);
            let m = if side { m } else { not4(&m) };
            let old = self.dom[v as usize];
            let new = and4(&old, &m);
            if new != old {
                self.trail.push(Tr::Dom { v, old });
                self.dom[v as usize] = new;
            }
            return;
        }
        let c = if side { e } else { self.ar.not1(e) };
        for v in self.ar.varset(c).iter() {
            self.link[*v as usize] += 1;
        }
        self.mcs.push(c);
    }

    fn fork(&mut self, e: E) -> R<bool> {
        if let Some(k) = self.ar.kval(e) {
            return Ok(k == 1);
        }
        self.sh.stats[self.h].decisions.fetch_add(1, Relaxed);
        let wv = self.ar.eval(e, &self.wit) == 1;
        let delta = match self.feasible(e, !wv)? {
            None => return Ok(wv),
            Some(d) => d,
        };
        if self.fpos < self.forced.len() {
            let d = self.forced[self.fpos];
            self.fpos += 1;
            self.decs.push(d);
            match d {
                Dec::Br { side, alt } => {
                    if side != wv {
                        for (v, x) in &delta {
                            self.set_wit(*v, *x);
                        }
                    }
                    self.add_constraint(e, side);
                    if alt {
                        return Err(Stop::Retry);
                    }
                    return Ok(side);
                }
                _ => return unsup("engine: replay desynchronised (branch)"),
            }
        }
        self.sh.stats[self.h].forks.fetch_add(1, Relaxed);
        if self.sh.profile {
            let nm = self.where_am_i();
            *self.sh.forkprof.lock().unwrap().entry(nm).or_insert(0) += 1;
        }
        self.push_cp(e, !wv, delta);
        self.decs.push(Dec::Br { side: wv, alt: false });
        self.add_constraint(e, wv);
        Ok(wv)
    }

    fn where_am_i(&self) -> String {
        let mut s = vec![];
        for f in self.frames.iter().rev().take(3) {
            let id = unsafe { (*f.func).id };
            s.push(self.m.fns[id as usize].name.clone());
        }
        s.join(" < ")
    }

    /// force a concrete value (forking over all feasible values)
    fn pin(&mut self, v: Val, w: u32) -> R<u64> {
        let e = match v {
            Val::C(c) => return Ok(c),
            Val::S(e) => e,
        };
        if let Some(k) = self.ar.kval(e) {
            return Ok(k as u64);
        }
        loop {
            let x = if self.fpos < self.forced.len() {
                let d = self.forced[self.fpos];
                self.fpos += 1;
                match d {
                    Dec::Val(x) => x,
                    _ => return unsup("engine: replay desynchronised (value)"),
                }
            } else {
                self.ar.eval(e, &self.wit) as u64
            };
            self.decs.push(Dec::Val(x));
            let _ = w;
            let ew = self.ar.w(e);
            let k = self.ar.konst(ew, x as u128);
            let c = self.ar.bin(Op::Eq, e, k);
            if self.fork(c)? {
                return Ok(x);
            }
        }
    }

    fn assume(&mut self, e: E) -> R<()> {
        if let Some(k) = self.ar.kval(e) {
            return if k == 1 { Ok(()) } else { end(End::Infeasible) };
        }
        if self.ar.eval(e, &self.wit) != 1 {
            match self.feasible(e, true)? {
                None => return end(End::Infeasible),
                Some(d) => {
                    for (v, x) in d {
                        self.set_wit(v, x);
                    }
                }
            }
        }
        self.add_constraint(e, true);
        Ok(())
    }

    // ---------------------------------------------------------------- values and memory
    #[inline(always)]
    fn get(&mut self, base: u32, o: Opd) -> Val {
        match o {
            Opd::R(r) => unsafe { *self.regs.get_unchecked((base + r) as usize) },
            Opd::C(c) => Val::C(c),
            Opd::W(k) => Val::S(self.ar.konst(128, k)),
        }
    }
    #[inline(always)]
    fn set(&mut self, idx: u32, v: Val) {
        unsafe {
            if idx < self.l_regs {
                let old = *self.regs.get_unchecked(idx as usize);
                self.trail.push(Tr::Reg { idx, old });
            }
            *self.regs.get_unchecked_mut(idx as usize) = v;
        }
    }
    fn ex(&mut self, v: Val, w: u32) -> E {
        match v {
            Val::C(c) => self.ar.konst(w as u8, c as u128),
            Val::S(e) => {
                let ew = self.ar.w(e) as u32;
                if ew == w {
                    e
                } else if ew > w {
                    self.ar.extract(e, 0, w as u8)
                } else {
                    self.ar.zext(e, w as u8)
                }
            }
        }
    }
    fn vl(&mut self, e: E) -> Val {
        let n = &self.ar.n[e as usize];
        if n.op == Op::Const && n.w <= 64 {
            Val::C(n.k as u64)
        } else {
            Val::S(e)
        }
    }
    #[inline(always)]
    fn mi(&self, a: u64, n: u64) -> R<usize> {
        let i = a.wrapping_sub(GBASE);
        if i < self.mem.len() as u64 && i + n <= self.mem.len() as u64 {
            Ok(i as usize)
        } else {
            end(End::Unsup(format!("memory fault at {:#x} in {}", a, self.where_am_i())))
        }
    }
    #[inline(always)]
    fn needs_log(&self, a: u64) -> bool {
        a < self.l_sp || (a >= self.heap0 && a < self.l_heap)
    }
    fn log_range(&mut self, a: u64, n: u64) {
        let mut i = (a - GBASE) as usize;
        let e = i + n as usize;
        while i < e {
            let l = (e - i).min(8);
            for k in 0..l {
                if self.fl[i + k] != 0 {
                    self.trail.push(Tr::Sym { idx: (i + k) as u32, e: self.shd[i + k] });
                }
            }
            let mut b = [0u8; 8];
            b[..l].copy_from_slice(&self.mem[i..i + l]);
            self.trail.push(Tr::Mem { idx: i as u32, len: l as u8, old: u64::from_le_bytes(b) });
            i += l;
        }
    }
    fn load(&mut self, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        let i = self.mi(a, n)?;
        if n <= 8 {
            let f = &self.fl[i..i + n as usize];
            let clean = match n {
                8 => unsafe { (f.as_ptr() as *const u64).read_unaligned() == 0 },
                4 => unsafe { (f.as_ptr() as *const u32).read_unaligned() == 0 },
                _ => f.iter().all(|x| *x == 0),
            };
            if clean {
                let p = unsafe { self.mem.as_ptr().add(i) };
                let v = unsafe {
                    match n {
                        1 => *p as u64,
                        2 => (p as *const u16).read_unaligned() as u64,
                        4 => (p as *const u32).read_unaligned() as u64,
                        8 => (p as *const u64).read_unaligned(),
                        _ => {
                            let mut b = [0u8; 8];
                            b[..n as usize].copy_from_slice(&self.mem[i..i + n as usize]);
                            u64::from_le_bytes(b)
                        }
                    }
                };
                return Ok(Val::C(v & msk(w)));
            }
        }
        // general: concat bytes
        let mut e: Option<E> = None;
        for k in 0..n as usize {
            let b = if self.fl[i + k] != 0 { self.shd[i + k] } else { self.ar.konst(8, self.mem[i + k] as u128) };
            e = Some(match e {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        let e = e.unwrap();
        let e = if (n * 8) as u32 != w { self.ar.extract(e, 0, w as u8) } else { e };
        Ok(self.vl(e))
    }
    fn store(&mut self, a: u64, v: Val, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let i = self.mi(a, n)?;
        if self.needs_log(a) {
            self.log_range(a, n);
        }
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                if n <= 8 {
                    self.mem[i..i + n as usize].copy_from_slice(&b[..n as usize]);
                } else {
                    self.mem[i..i + 8].copy_from_slice(&b);
                    self.mem[i + 8..i + n as usize].fill(0);
                }
                self.fl[i..i + n as usize].fill(0);
            }
            Val::S(_) => {
                let e = self.ex(v, w);
                let e = self.ar.zext(e, (n * 8) as u8);
                for k in 0..n as usize {
                    let b = self.ar.extract(e, (k * 8) as u8, 8);
                    match self.ar.kval(b) {
                        Some(x) => {
                            self.mem[i + k] = x as u8;
                            self.fl[i + k] = 0;
                        }
                        None => {
                            self.fl[i + k] = 1;
                            self.shd[i + k] = b;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn copy_mem(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let di = self.mi(d, n)?;
        let si = self.mi(s, n)?;
        // split logging: the range may straddle a threshold only at its start region; be conservative
        if self.needs_log(d) || self.needs_log(d + n - 1) {
            self.log_range(d, n);
        }
        let nn = n as usize;
        self.mem.copy_within(si..si + nn, di);
        let anysym = self.fl[si..si + nn].iter().any(|x| *x != 0);
        if anysym {
            self.fl.copy_within(si..si + nn, di);
            self.shd.copy_within(si..si + nn, di);
        } else {
            self.fl[di..di + nn].fill(0);
        }
        Ok(())
    }
    fn fill_mem(&mut self, d: u64, v: Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let di = self.mi(d, n)?;
        if self.needs_log(d) || self.needs_log(d + n - 1) {
            self.log_range(d, n);
        }
        let nn = n as usize;
        match v {
            Val::C(c) => {
                self.mem[di..di + nn].fill(c as u8);
                self.fl[di..di + nn].fill(0);
            }
            Val::S(_) => {
                let e = self.ex(v, 8);
                self.fl[di..di + nn].fill(1);
                self.shd[di..di + nn].fill(e);
            }
        }
        Ok(())
    }
    fn byte(&mut self, a: u64) -> R<Val> {
        self.load(a, 8)
    }
    fn alloc(&mut self, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let a = (self.heap + al - 1) / al * al;
        let e = a + n.max(1);
        if e > GBASE + self.mem.len() as u64 {
            return end(End::Unsup("heap exhausted on one path".into()));
        }
        let i = (a - GBASE) as usize;
        let nn = n as usize;
        self.mem[i..i + nn].fill(0);
        self.fl[i..i + nn].fill(0);
        self.heap = e;
        // remember the size just below (for realloc): keep in a side header
        Ok(a)
    }
    fn malloc(&mut self, n: u64, al: u64) -> R<u64> {
        // 16-byte header holding the size
        let al = al.max(16);
        let h = (self.heap + 16 + al - 1) / al * al; // address returned
        self.heap = h - 16;
        let hdr = self.alloc(16, 16)?;
        debug_assert_eq!(hdr, h - 16);
        let i = (hdr - GBASE) as usize;
        self.mem[i..i + 8].copy_from_slice(&n.to_le_bytes());
        let a = self.alloc(n, 16)?;
        debug_assert_eq!(a, h);
        Ok(a)
    }
    fn block_size(&self, a: u64) -> u64 {
        let i = (a - 16 - GBASE) as usize;
        u64::from_le_bytes(self.mem[i..i + 8].try_into().unwrap())
    }

    // ---------------------------------------------------------------- operators
    #[inline(always)]
    fn bin(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = msk(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (sx64(x, w) >> y.min(63).min(w as u64 - 1)) as u64,
                    BinOp::UDiv => {
                        if y == 0 {
                            return unsup("udiv by zero");
                        }
                        x / y
                    }
                    BinOp::URem => {
                        if y == 0 {
                            return unsup("urem by zero");
                        }
                        x % y
                    }
                    BinOp::SDiv => {
                        if y == 0 {
                            return unsup("sdiv by zero");
                        }
                        sx64(x, w).wrapping_div(sx64(y, w)) as u64
                    }
                    BinOp::SRem => {
                        if y == 0 {
                            return unsup("srem by zero");
                        }
                        sx64(x, w).wrapping_rem(sx64(y, w)) as u64
                    }
                };
                return Ok(Val::C(r & m));
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        };
        let e = self.ar.bin(o, x, y);
        Ok(self.vl(e))
    }
    #[inline(always)]
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx64(x, w) > sx64(y, w),
                    Pred::Sge => sx64(x, w) >= sx64(y, w),
                    Pred::Slt => sx64(x, w) < sx64(y, w),
                    Pred::Sle => sx64(x, w) <= sx64(y, w),
                };
                return Val::C(r as u64);
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let e = match p {
            Pred::Eq => ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let q = ar.bin(Op::Eq, x, y);
                ar.not1(q)
            }
            Pred::Ult => ar.bin(Op::Ult, x, y),
            Pred::Ule => ar.bin(Op::Ule, x, y),
            Pred::Ugt => ar.bin(Op::Ult, y, x),
            Pred::Uge => ar.bin(Op::Ule, y, x),
            Pred::Slt => ar.bin(Op::Slt, x, y),
            Pred::Sle => ar.bin(Op::Sle, x, y),
            Pred::Sgt => ar.bin(Op::Slt, y, x),
            Pred::Sge => ar.bin(Op::Sle, y, x),
        };
        self.vl(e)
    }
    fn cast(&mut self, k: CastOp, w1: u32, w2: u32, v: Val) -> R<Val> {
        match k {
            CastOp::Zext | CastOp::Sext | CastOp::Trunc => {
                if let Val::C(c) = v {
                    if w2 <= 64 {
                        return Ok(Val::C(match k {
                            CastOp::Zext => c,
                            CastOp::Sext => sx64(c, w1) as u64 & msk(w2),
                            _ => c & msk(w2),
                        }));
                    }
                }
                let e = self.ex(v, w1);
                let r = match k {
                    CastOp::Zext => self.ar.zext(e, w2 as u8),
                    CastOp::Sext => self.ar.sext(e, w2 as u8),
                    _ => self.ar.extract(e, 0, w2 as u8),
                };
                Ok(self.vl(r))
            }
            CastOp::Copy => Ok(v),
            _ => {
                let c = self.pin(v, w1)?;
                let r = match k {
                    CastOp::UiToFp => fp(w2, c as f64, c as f32),
                    CastOp::SiToFp => fp(w2, sx64(c, w1) as f64, sx64(c, w1) as f32),
                    CastOp::FpToUi => tof(w1, c) as u64 & msk(w2),
                    CastOp::FpToSi => tof(w1, c) as i64 as u64 & msk(w2),
                    CastOp::FpExt => tof(w1, c).to_bits(),
                    CastOp::FpTrunc => (tof(w1, c) as f32).to_bits() as u64,
                    _ => unreachable!(),
                };
                Ok(Val::C(r))
            }
        }
    }
    fn addr(&mut self, v: Val) -> R<u64> {
        self.pin(v, 64)
    }
    /// load through a possibly symbolic address
    fn load_at(&mut self, v: Val, w: u32) -> R<Val> {
        let e = match v {
            Val::C(a) => return self.load(a, w),
            Val::S(e) => e,
        };
        if let Some(k) = self.ar.kval(e) {
            return self.load(k as u64, w);
        }
        if w <= 64 {
            if let Some(var) = self.ar.is_byte_single(e) {
                let t = self.ar.table256(e);
                let d = self.dom[var as usize];
                let mut out = [0u64; 256];
                let mut ok = true;
                let mut first = None;
                for x in 0..256usize {
                    if !has4(&d, x as u64) {
                        continue;
                    }
                    let a = t[x] as u64;
                    let n = ((w + 7) / 8) as u64;
                    if a < GBASE || a - GBASE + n > self.mem.len() as u64 {
                        ok = false;
                        break;
                    }
                    let i = (a - GBASE) as usize;
                    if self.fl[i..i + n as usize].iter().any(|f| *f != 0) {
                        ok = false;
                        break;
                    }
                    match self.load(a, w)? {
                        Val::C(c) => out[x] = c,
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                    if first.is_none() {
                        first = Some(out[x]);
                    }
                }
                if ok {
                    // address table certified by the solver
                    let s = self.ar.shape[e as usize] ^ 0x5a5a;
                    if self.certed.insert(s) && self.sh.certs.lock().unwrap().insert(s) {
                        let ti = Instant::now();
                        let r = self.z.certify_vals(&self.ar, e, var, &t);
                        if self.sh.profile && ti.elapsed().as_millis() > 100 {
                            eprintln!("SLOWVALS {:?} {} ms at {}", r, ti.elapsed().as_millis(), self.where_am_i());
                        }
                        self.sh.q_ns.fetch_add(ti.elapsed().as_nanos() as u64, Relaxed);
                        self.sh.q_total.fetch_add(1, Relaxed);
                        self.sh.q_cert.fetch_add(1, Relaxed);
                        if r != Res::Unsat {
                            return unsup("engine self-check: address table not certified");
                        }
                        self.sh.q_unsat.fetch_add(1, Relaxed);
                    }
                    for x in 0..256usize {
                        if !has4(&d, x as u64) {
                            out[x] = first.unwrap_or(0);
                        }
                    }
                    let ve = self.ar.var(var, 8);
                    let r = self.ar.tab(ve, w as u8, out);
                    return Ok(self.vl(r));
                }
            }
        }
        let a = self.pin(v, 64)?;
        self.load(a, w)
    }

    // ---------------------------------------------------------------- main loop
    fn run(&mut self) -> End {
        loop {
            match self.run_inner() {
                Err(Stop::Retry) => {
                    let pc = self.cur_pc;
                    self.frames.last_mut().unwrap().pc = pc;
                    continue;
                }
                Err(Stop::End(e)) => {
                    let st = &self.sh.stats[self.h];
                    let _ = st;
                    return e;
                }
                Ok(()) => return End::Done,
            }
        }
    }

    fn jump(&mut self, f: &Func, base: u32, e: u32) -> u32 {
        let ed = unsafe { f.edges.get_unchecked(e as usize) };
        match ed.copies.len() {
            0 => {}
            1 => {
                let v = self.get(base, ed.copies[0].1);
                self.set(base + ed.copies[0].0, v);
            }
            n if n <= 16 => {
                let mut tmp = [Val::C(0); 16];
                for i in 0..n {
                    tmp[i] = self.get(base, ed.copies[i].1);
                }
                for i in 0..n {
                    self.set(base + ed.copies[i].0, tmp[i]);
                }
            }
            _ => {
                let tmp: Vec<Val> = ed.copies.iter().map(|c| self.get(base, c.1)).collect();
                for (i, v) in tmp.into_iter().enumerate() {
                    self.set(base + ed.copies[i].0, v);
                }
            }
        }
        ed.pc
    }

    fn run_inner(&mut self) -> R<()> {
        let fr = *self.frames.last().unwrap();
        let mut f: &Func = unsafe { &*fr.func };
        let mut pc = fr.pc;
        let mut base = fr.base;
        let max_steps = self.sh.max_steps;
        let start_steps = self.steps;
        let mut tick = 0u32;
        let _ = start_steps;
        loop {
            self.steps += 1;
            tick += 1;
            if tick & 0xffff == 0 {

                if self.steps > max_steps {
                    return end(End::Steps);
                }
                if tick & 0xfffff == 0 && (self.sh.stop.load(Relaxed) || Instant::now() > self.sh.deadline) {
                    return end(End::Stop);
                }
            }
            self.cur_pc = pc;
            let inst = unsafe { f.code.get_unchecked(pc as usize) };
            match inst {
                Inst::Bin(op, w, d, a, b) => {
                    let (x, y) = (self.get(base, *a), self.get(base, *b));
                    if *w > 128 { return unsup("wide op"); }
                    // wide constants are stored as 128-bit
                    if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                        if let Val::S(_) = y {
                            // divisor must be non-zero on this path (guarded in Rust): concretise if unsure
                            let ye = self.ex(y, *w);
                            let z = self.ar.konst(*w as u8, 0);
                            let nz = self.ar.bin(Op::Eq, ye, z);
                            if self.fork(nz)? {
                                return unsup("symbolic division by zero");
                            }
                        }
                    }
                    let r = self.bin(*op, *w, x, y)?;
                    self.set(base + d, r);
                    pc += 1;
                }
                Inst::ICmp(p, w, d, a, b) => {
                    let (x, y) = (self.get(base, *a), self.get(base, *b));
                    let r = self.icmp(*p, *w, x, y);
                    self.set(base + d, r);
                    pc += 1;
                }
                Inst::Select(d, c, a, b, ws) => {
                    let cv = self.get(base, *c);
                    match cv {
                        Val::C(k) => {
                            let src = if k & 1 == 1 { a } else { b };
                            if src.len() == 1 {
                                let v = self.get(base, src[0]);
                                self.set(base + d, v);
                            } else {
                                let tmp: Vec<Val> = src.iter().map(|o| self.get(base, *o)).collect();
                                for (i, v) in tmp.into_iter().enumerate() {
                                    self.set(base + d + i as u32, v);
                                }
                            }
                        }
                        Val::S(ce) => {
                            for i in 0..a.len() {
                                let (x, y) = (self.get(base, a[i]), self.get(base, b[i]));
                                let r = if x == y {
                                    x
                                } else {
                                    let (xe, ye) = (self.ex(x, ws[i]), self.ex(y, ws[i]));
                                    let e = self.ar.ite(ce, xe, ye);
                                    self.vl(e)
                                };
                                self.set(base + d + i as u32, r);
                            }
                        }
                    }
                    pc += 1;
                }
                Inst::Cast(k, w1, w2, d, a) => {
                    let v = self.get(base, *a);
                    let r = self.cast(*k, *w1, *w2, v)?;
                    self.set(base + d, r);
                    pc += 1;
                }
                Inst::Gep(d, b, off, terms) => {
                    let bv = self.get(base, *b);
                    let mut acc = match bv {
                        Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
                        v => self.bin(BinOp::Add, 64, v, Val::C(*off as u64))?,
                    };
                    for (o, w, s) in terms.iter() {
                        let v = self.get(base, *o);
                        match (v, acc) {
                            (Val::C(i), Val::C(x)) => acc = Val::C(x.wrapping_add((sx64(i, *w).wrapping_mul(*s)) as u64)),
                            _ => {
                                let v = self.cast(CastOp::Sext, *w, 64, v)?;
                                let t = if *s == 1 { v } else { self.bin(BinOp::Mul, 64, v, Val::C(*s as u64))? };
                                acc = self.bin(BinOp::Add, 64, acc, t)?;
                            }
                        }
                    }
                    self.set(base + d, acc);
                    pc += 1;
                }
                Inst::Load(d, p, w) => {
                    let a = self.get(base, *p);
                    let v = match a {
                        Val::C(x) => self.load(x, *w)?,
                        v => self.load_at(v, *w)?,
                    };
                    self.set(base + d, v);
                    pc += 1;
                }
                Inst::Store(v, p, w) => {
                    let a = self.get(base, *p);
                    let a = match a {
                        Val::C(x) => x,
                        v => self.addr(v)?,
                    };
                    let x = self.get(base, *v);
                    self.store(a, x, *w)?;
                    pc += 1;
                }
                Inst::LoadN(d, p, lv) => {
                    let a = self.get(base, *p);
                    let a = self.addr(a)?;
                    for (i, (off, w)) in lv.iter().enumerate() {
                        let v = self.load(a + off, *w)?;
                        self.set(base + d + i as u32, v);
                    }
                    pc += 1;
                }
                Inst::StoreN(vs, p, lv) => {
                    let a = self.get(base, *p);
                    let a = self.addr(a)?;
                    for (i, (off, w)) in lv.iter().enumerate() {
                        let v = self.get(base, vs[i]);
                        self.store(a + off, v, *w)?;
                    }
                    pc += 1;
                }
                Inst::Alloca(d, sz, al, n) => {
                    let c = match self.get(base, *n) {
                        Val::C(c) => c,
                        v => self.pin(v, 64)?,
                    };
                    let al = (*al).max(8);
                    let a = (self.sp + al - 1) / al * al;
                    let nsp = a + sz * c;
                    if nsp > self.heap0 {
                        return end(End::Panic("stack overflow (engine stack of 24 MiB)".into()));
                    }
                    let i = (a - GBASE) as usize;
                    let e = (nsp - GBASE) as usize;
                    if a < self.l_sp && e > i {
                        self.log_range(a, (e - i) as u64);
                    }
                    self.mem[i..e].fill(0);
                    self.fl[i..e].fill(0);
                    self.sp = nsp;
                    self.set(base + d, Val::C(a));
                    pc += 1;
                }
                Inst::Copy(d, srcs) => {
                    if srcs.len() == 1 {
                        let v = self.get(base, srcs[0]);
                        self.set(base + d, v);
                    } else if srcs.len() == 2 {
                        let v = self.get(base, srcs[0]);
                        let u = self.get(base, srcs[1]);
                        self.set(base + d, v);
                        self.set(base + d + 1, u);
                    } else {
                        let tmp: Vec<Val> = srcs.iter().map(|o| self.get(base, *o)).collect();
                        for (i, v) in tmp.into_iter().enumerate() {
                            self.set(base + d + i as u32, v);
                        }
                    }
                    pc += 1;
                }
                Inst::PackBits(d, vs, ew) => {
                    let mut allc = true;
                    let mut acc = 0u128;
                    let vals: Vec<Val> = vs.iter().map(|o| self.get(base, *o)).collect();
                    for (i, v) in vals.iter().enumerate() {
                        match v {
                            Val::C(c) => acc |= (*c as u128) << (i as u32 * ew),
                            _ => {
                                allc = false;
                                break;
                            }
                        }
                    }
                    let tw = vs.len() as u32 * ew;
                    let r = if allc && tw <= 64 {
                        Val::C(acc as u64)
                    } else {
                        let mut e = None;
                        for v in vals {
                            let x = self.ex(v, *ew);
                            e = Some(match e {
                                None => x,
                                Some(l) => self.ar.concat(x, l),
                            });
                        }
                        self.vl(e.unwrap())
                    };
                    self.set(base + d, r);
                    pc += 1;
                }
                Inst::UnpackBits(d, n, v, ew) => {
                    let v = self.get(base, *v);
                    for i in 0..*n {
                        let r = match v {
                            Val::C(c) => Val::C((c >> (i * ew)) & msk(*ew)),
                            Val::S(_) => {
                                let e = self.ex(v, n * ew);
                                let x = self.ar.extract(e, (i * ew) as u8, *ew as u8);
                                self.vl(x)
                            }
                        };
                        self.set(base + d + i, r);
                    }
                    pc += 1;
                }
                Inst::Br(e) => {
                    pc = self.jump(f, base, *e);
                }
                Inst::CondBr(c, t, e) => {
                    let k = match self.get(base, *c) {
                        Val::C(c) => c & 1 == 1,
                        Val::S(x) => self.fork(x)?,
                    };
                    pc = self.jump(f, base, if k { *t } else { *e });
                }
                Inst::Switch(v, w, cs, d, map) => {
                    let x = self.get(base, *v);
                    let e = match x {
                        Val::C(c) => {
                            if cs.len() <= 6 {
                                let mut r = *d;
                                for (k, e) in cs.iter() {
                                    if *k as u64 == c {
                                        r = *e;
                                        break;
                                    }
                                }
                                r
                            } else {
                                let m = map.get_or_init(|| cs.iter().map(|(k, e)| (*k as u64, *e)).collect());
                                m.get(&c).copied().unwrap_or(*d)
                            }
                        }
                        Val::S(x) => self.sym_switch(f, x, *w, cs, *d)?,
                    };
                    pc = self.jump(f, base, e);
                }
                Inst::Ret(vs) => {
                    let fr = *self.frames.last().unwrap();
                    if self.frames.len() == 1 {
                        return Ok(());
                    }
                    let mut tmp = [Val::C(0); 8];
                    if vs.len() > 8 {
                        return unsup("ret of > 8 slots");
                    }
                    for (i, o) in vs.iter().enumerate() {
                        tmp[i] = self.get(base, *o);
                    }
                    self.pop_frame();
                    let top = *self.frames.last().unwrap();
                    f = unsafe { &*top.func };
                    base = top.base;
                    pc = top.pc + 1;
                    self.sp = fr.sp;
                    for i in 0..vs.len() {
                        self.set(base + fr.dst + i as u32, tmp[i]);
                    }
                }
                Inst::Call(d, _n, callee, args, rw) => {
                    let fid = match callee {
                        Callee::Direct(id) => *id,
                        Callee::Indirect(o) => {
                            let v = self.get(base, *o);
                            let a = self.addr(v)?;
                            if a < FBASE || a >= GBASE || (a - FBASE) / 16 >= self.m.fns.len() as u64 {
                                return unsup(format!("indirect call to {:#x}", a));
                            }
                            ((a - FBASE) / 16) as u32
                        }
                        Callee::Intrinsic(nm, rw) => {
                            self.intrinsic(nm, *rw, base, *d, args)?;
                            pc += 1;
                            continue;
                        }
                        Callee::Asm(s) => {
                            self.asm(s, base, *d, args)?;
                            pc += 1;
                            continue;
                        }
                    };
                    let hook = self.m.fns[fid as usize].hook;
                    if hook != Hook::None {
                        if !(hook == Hook::F64Parse && !self.f64_needs_model(base, args)?) {
                            self.hooked(hook, fid, base, *d, args, *rw)?;
                            pc += 1;
                            continue;
                        }
                    }
                    let g = match self.m.func(fid) {
                        Some(g) => g,
                        None => return unsup(format!("call of external {}", self.m.fns[fid as usize].name)),
                    };
                    self.seen[fid as usize] = true;
                    let nbase = base + f.nregs;
                    if (nbase + g.nregs + 64) as usize > self.regs.len() || self.frames.len() > 4000 {
                        return end(End::Panic("stack overflow (call depth)".into()));
                    }
                    for (i, o) in args.iter().enumerate() {
                        let v = self.get(base, *o);
                        self.set(nbase + i as u32, v);
                    }
                    let n = self.frames.len() - 1;
                    // the caller frame's pc is about to change: log it if a choice point needs it
                    if n < self.cps_nframes() {
                        let old = self.frames[n];
                        self.trail.push(Tr::Frame { idx: n as u32, f: old });
                    }
                    self.frames[n].pc = pc;
                    self.frames.push(Frame { func: g, pc: 0, base: nbase, sp: self.sp, dst: *d });
                    f = g;
                    base = nbase;
                    pc = 0;
                }
                Inst::Unreachable => return end(End::Panic(format!("reached unreachable code in {}", self.where_am_i()))),
                Inst::FBin(op, w, d, a, b) => {
                    let (x, y) = (self.get(base, *a), self.get(base, *b));
                    let x = self.pin(x, *w)?;
                    let y = self.pin(y, *w)?;
                    let r = if *w == 64 {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                        }
                        .to_bits()
                    } else {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                        }
                        .to_bits() as u64
                    };
                    self.set(base + d, Val::C(r));
                    pc += 1;
                }
                Inst::FNeg(w, d, a) => {
                    let x = self.get(base, *a);
                    let r = self.bin(BinOp::Xor, *w, x, Val::C(1 << (w - 1)))?;
                    self.set(base + d, r);
                    pc += 1;
                }
                Inst::FCmp(p, w, d, a, b) => {
                    let (x, y) = (self.get(base, *a), self.get(base, *b));
                    // equality of identical non-NaN-by-construction values
                    if x == y {
                        if let Val::S(_) = x {
                            let r = matches!(p.as_str(), "oeq" | "ueq" | "ole" | "oge" | "ule" | "uge" | "ord");
                            self.set(base + d, Val::C(r as u64));
                            pc += 1;
                            continue;
                        }
                    }
                    let x = tof(*w, self.pin(x, *w)?);
                    let y = tof(*w, self.pin(y, *w)?);
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "one" => x != y && !un,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => un || x != y,
                        "true" => true,
                        _ => false,
                    };
                    self.set(base + d, Val::C(r as u64));
                    pc += 1;
                }
                Inst::AtomicRmw(k, w, d, p, v) => {
                    let a = self.get(base, *p);
                    let a = self.addr(a)?;
                    let old = self.load(a, *w)?;
                    let v = self.get(base, *v);
                    let n = match k.as_str() {
                        "add" => self.bin(BinOp::Add, *w, old, v)?,
                        "sub" => self.bin(BinOp::Sub, *w, old, v)?,
                        "and" => self.bin(BinOp::And, *w, old, v)?,
                        "or" => self.bin(BinOp::Or, *w, old, v)?,
                        "xor" => self.bin(BinOp::Xor, *w, old, v)?,
                        "xchg" => v,
                        _ => return unsup("atomicrmw"),
                    };
                    self.store(a, n, *w)?;
                    self.set(base + d, old);
                    pc += 1;
                }
                Inst::CmpXchg(w, d, p, a, b) => {
                    let ad = self.get(base, *p);
                    let ad = self.addr(ad)?;
                    let old = self.load(ad, *w)?;
                    let (x, y) = (self.get(base, *a), self.get(base, *b));
                    let eq = self.icmp(Pred::Eq, *w, old, x);
                    let eq = match eq {
                        Val::C(c) => c == 1,
                        Val::S(e) => self.fork(e)?,
                    };
                    if eq {
                        self.store(ad, y, *w)?;
                    }
                    self.set(base + d, old);
                    self.set(base + d + 1, Val::C(eq as u64));
                    pc += 1;
                }
                Inst::Nop => pc += 1,
                Inst::Unsup(s) => return unsup(format!("instruction {}", s)),
            }
        }
    }

    #[inline(always)]
    fn cps_nframes(&self) -> usize {
        match self.cps.last() {
            Some(c) => c.log_nframes,
            None => 0,
        }
    }

    fn pop_frame(&mut self) {
        let n = self.frames.len() - 1;
        let k = self.cps_nframes();
        if n < k {
            let f = self.frames[n];
            self.trail.push(Tr::Frame { idx: n as u32, f });
        }
        if n >= 1 && n - 1 < k {
            let f = self.frames[n - 1];
            self.trail.push(Tr::Frame { idx: n as u32 - 1, f });
        }
        self.frames.pop();
    }

    fn sym_switch(&mut self, f: &Func, x: E, w: u32, cs: &[(u128, u32)], d: u32) -> R<u32> {
        // group the cases by destination block and phi inputs (edge identity)
        loop {
            let want: u32 = if self.fpos < self.forced.len() {
                let dd = self.forced[self.fpos];
                self.fpos += 1;
                match dd {
                    Dec::Val(v) => v as u32,
                    _ => return unsup("engine: replay desynchronised (switch)"),
                }
            } else {
                let v = self.ar.eval(x, &self.wit);
                cs.iter().find(|(k, _)| *k == v).map(|(_, e)| *e).unwrap_or(d)
            };
            self.decs.push(Dec::Val(want as u64));
            let same = |a: u32, b: u32| {
                let (ea, eb) = (&f.edges[a as usize], &f.edges[b as usize]);
                ea.block == eb.block && ea.copies == eb.copies
            };
            let mut any: Option<E> = None; // in some case that goes to `want`
            let mut none: Option<E> = None; // in some case that goes elsewhere
            for (k, e) in cs.iter() {
                let kk = self.ar.konst(w as u8, *k);
                let q = self.ar.bin(Op::Eq, x, kk);
                let slot = if same(*e, want) { &mut any } else { &mut none };
                *slot = Some(match *slot {
                    None => q,
                    Some(p) => self.ar.bin(Op::Or, p, q),
                });
            }
            let cond = if same(d, want) {
                match none {
                    None => return Ok(want),
                    Some(p) => self.ar.not1(p),
                }
            } else {
                match any {
                    None => return unsup("switch edge"),
                    Some(p) => p,
                }
            };
            if self.fork(cond)? {
                return Ok(want);
            }
        }
    }

    fn f64_needs_model(&mut self, base: u32, args: &[Opd]) -> R<bool> {
        let p = self.get(base, args[1]);
        let n = self.get(base, args[2]);
        let p = self.addr(p)?;
        let n = self.pin(n, 64)?;
        let i = self.mi(p, n)?;
        Ok(self.fl[i..i + n as usize].iter().any(|x| *x != 0))
    }

    fn new_var(&mut self, w: u8, dom: [u64; 4], uf: bool) -> E {
        let idx = self.vars.len() as u32;
        self.vars.push((w, uf));
        self.dom.push(dom);
        self.link.push(0);
        self.wit.push(if w == 8 { pick4(&dom) } else { 0 });
        // expressions are keyed by (index, width): widths may differ between paths
        self.ar.var(idx, w)
    }

    fn hooked(&mut self, hook: Hook, fid: u32, base: u32, d: u32, args: &[Opd], rw: u32) -> R<()> {
        let mut a = [Val::C(0); 8];
        for (i, o) in args.iter().enumerate().take(8) {
            a[i] = self.get(base, *o);
        }
        let mut ret = None;
        match hook {
            Hook::Panic => {
                let s = self.panic_msg(fid, &a, args.len());
                return end(End::Panic(s));
            }
            Hook::Malloc => {
                let n = self.pin(a[0], 64)?;
                ret = Some(Val::C(self.malloc(n, 16)?));
            }
            Hook::Calloc => {
                let n = self.pin(a[0], 64)?;
                let k = self.pin(a[1], 64)?;
                ret = Some(Val::C(self.malloc(n * k, 16)?));
            }
            Hook::Memalign => {
                let p = self.addr(a[0])?;
                let al = self.pin(a[1], 64)?;
                let n = self.pin(a[2], 64)?;
                let x = self.malloc(n, al)?;
                self.store(p, Val::C(x), 64)?;
                ret = Some(Val::C(0));
            }
            Hook::Realloc => {
                let p = self.addr(a[0])?;
                let n = self.pin(a[1], 64)?;
                let x = self.malloc(n, 16)?;
                if p != 0 {
                    let old = self.block_size(p);
                    self.copy_mem(x, p, old.min(n))?;
                }
                ret = Some(Val::C(x));
            }
            Hook::Free => {}
            Hook::Bcmp | Hook::Memcmp => {
                let p = self.addr(a[0])?;
                let q = self.addr(a[1])?;
                let n = self.pin(a[2], 64)?;
                if n > 1 << 20 {
                    return unsup("huge memcmp");
                }
                // nothing is compared, whatever the addresses
                let (pi, qi) = if n == 0 { (0, 0) } else { (self.mi(p, n)?, self.mi(q, n)?) };
                let nn = n as usize;
                let conc = self.fl[pi..pi + nn].iter().all(|x| *x == 0) && self.fl[qi..qi + nn].iter().all(|x| *x == 0);
                if conc {
                    let r = self.mem[pi..pi + nn].cmp(&self.mem[qi..qi + nn]);
                    ret = Some(Val::C((r as i32) as u32 as u64));
                } else if hook == Hook::Bcmp {
                    // definite mismatch on concrete bytes?
                    for k in 0..nn {
                        if self.fl[pi + k] == 0 && self.fl[qi + k] == 0 && self.mem[pi + k] != self.mem[qi + k] {
                            ret = Some(Val::C(1));
                            break;
                        }
                    }
                    if ret.is_none() {
                        let mut acc = self.ar.konst(1, 1);
                        for k in 0..n {
                            let (x, y) = (self.byte(p + k)?, self.byte(q + k)?);
                            let (x, y) = (self.ex(x, 8), self.ex(y, 8));
                            let e = self.ar.bin(Op::Eq, x, y);
                            acc = self.ar.bin(Op::And, acc, e);
                        }
                        let z = self.ar.konst(32, 0);
                        let o = self.ar.konst(32, 1);
                        let r = self.ar.ite(acc, z, o);
                        ret = Some(self.vl(r));
                    }
                } else {
                    let mut acc = self.ar.konst(32, 0);
                    let o = self.ar.konst(32, 1);
                    let m1 = self.ar.konst(32, 0xffff_ffff);
                    for k in (0..n).rev() {
                        let (x, y) = (self.byte(p + k)?, self.byte(q + k)?);
                        let (x, y) = (self.ex(x, 8), self.ex(y, 8));
                        let e = self.ar.bin(Op::Eq, x, y);
                        let l = self.ar.bin(Op::Ult, x, y);
                        let ne = self.ar.ite(l, m1, o);
                        acc = self.ar.ite(e, acc, ne);
                    }
                    ret = Some(self.vl(acc));
                }
            }
            Hook::Strlen => {
                let p = self.addr(a[0])?;
                let mut n = 0;
                loop {
                    match self.byte(p + n)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return unsup("symbolic strlen"),
                    }
                }
                ret = Some(Val::C(n));
            }
            Hook::Ret0 => ret = Some(Val::C(0)),
            Hook::RetM1 => ret = Some(Val::C(msk(rw.max(1)))),
            Hook::WriteLike => ret = Some(a[2]),
            Hook::Exit => return end(End::Panic(format!("call of {}", self.m.fns[fid as usize].name))),
            Hook::U8 => {
                let p = self.addr(a[0])?;
                let mut m = [0u64; 4];
                for k in 0..4 {
                    m[k] = match self.load(p + 8 * k as u64, 64)? {
                        Val::C(c) => c,
                        _ => return unsup("symbolic set"),
                    };
                }
                if pop4(&m) == 0 {
                    return end(End::Infeasible);
                }
                let e = self.new_var(8, m, false);
                ret = Some(if pop4(&m) == 1 { Val::C(nth4(&m, 0)) } else { Val::S(e) });
            }
            Hook::U64 => {
                let e = self.new_var(64, [!0; 4], false);
                ret = Some(Val::S(e));
            }
            Hook::Pin => {
                let x = self.pin(a[0], 64)?;
                ret = Some(Val::C(x));
            }
            Hook::IsSym => {
                ret = Some(Val::C(match a[0] {
                    Val::C(_) => 0,
                    Val::S(_) => 1,
                }))
            }
            Hook::Assume => {
                let z = Val::C(0);
                match self.icmp(Pred::Ne, 32, a[0], z) {
                    Val::C(1) => {}
                    Val::C(_) => return end(End::Infeasible),
                    Val::S(e) => self.assume(e)?,
                }
            }
            Hook::Fail => {
                let s = self.cstr(a[0], a[1]);
                return end(End::Fail(s));
            }
            Hook::Out => self.outs.push(a[0]),
            Hook::Cover => {
                let x = self.pin(a[0], 32)?;
                self.cov.push(x as u32);
            }
            Hook::F64Parse => {
                // result area, pointer, length; the text contains symbolic bytes: the value is an
                // uninterpreted function of the text once the text is known to be a plain decimal literal
                let out = self.addr(a[0])?;
                let p = self.addr(a[1])?;
                let n = self.pin(a[2], 64)?;
                let mut bytes = vec![];
                for k in 0..n {
                    let v = self.byte(p + k)?;
                    bytes.push(self.ex(v, 8));
                }
                if !self.f64_syntax(&bytes)? {
                    // not a plain decimal literal: pin the text, and the result is known
                    let mut t = vec![];
                    for k in 0..n {
                        let v = self.byte(p + k)?;
                        t.push(self.pin(v, 8)? as u8);
                    }
                    match std::str::from_utf8(&t).ok().and_then(|s| s.parse::<f64>().ok()) {
                        Some(f) => {
                            self.store(out, Val::C(0), 64)?;
                            self.store(out + 8, Val::C(f.to_bits() as _), 64)?;
                        }
                        None => {
                            // Err(ParseFloatError { kind: Empty = 0, Invalid = 1 })
                            self.store(out, Val::C(1), 8)?;
                            self.store(out + 1, Val::C(if t.is_empty() { 0 } else { 1 }), 8)?;
                        }
                    }
                    return Ok(());
                }
                let bytes = self.f64_canon(bytes)?;
                let e = match self.ufs.iter().find(|(b, _)| *b == bytes) {
                    Some((_, e)) => *e,
                    None => {
                        let e = self.new_var(64, [!0; 4], true);
                        let idx = self.vars.len() - 1;
                        let wit = self.wit.clone();
                        let txt: String = bytes.clone().iter().map(|b| self.ar.eval(*b, &wit) as u8 as char).collect();
                        self.wit[idx] = txt.parse::<f64>().unwrap_or(0.0).to_bits();
                        self.ufs.push((bytes, e));
                        e
                    }
                };
                self.store(out, Val::C(0), 64)?;
                self.store(out + 8, Val::S(e), 64)?;
            }
            Hook::Unsup | Hook::None => return unsup(format!("external function {}", self.m.fns[fid as usize].name)),
        }
        if let Some(v) = ret {
            if rw > 0 {
                self.set(base + d, v);
            }
        }
        Ok(())
    }

    fn f64_syntax(&mut self, b: &[E]) -> R<bool> {
        // digits [. digits] [e [+-] digits]
        let n = b.len();
        let mut i = 0;
        let st = i;
        while i < n && self.in_range(b[i], b'0', b'9')? {
            i += 1;
        }
        if i == st {
            return Ok(false);
        }
        if i < n && self.in_range(b[i], b'.', b'.')? {
            i += 1;
            while i < n && self.in_range(b[i], b'0', b'9')? {
                i += 1;
            }
        }
        if i < n && (self.in_range(b[i], b'e', b'e')? || self.in_range(b[i], b'E', b'E')?) {
            i += 1;
            if i < n && (self.in_range(b[i], b'+', b'+')? || self.in_range(b[i], b'-', b'-')?) {
                i += 1;
            }
            let s2 = i;
            while i < n && self.in_range(b[i], b'0', b'9')? {
                i += 1;
            }
            if s2 == i {
                return Ok(false);
            }
        }
        Ok(i == n)
    }
    /// One spelling per value for the texts which differ in `E`/`e` and `e+`/`e` only.
    fn f64_canon(&mut self, b: Vec<E>) -> R<Vec<E>> {
        let mut o: Vec<E> = vec![];
        let le = self.ar.konst(8, b'e' as u128);
        for x in b {
            if self.in_range(x, b'e', b'e')? || self.in_range(x, b'E', b'E')? {
                o.push(le);
            } else if !(o.last() == Some(&le) && self.in_range(x, b'+', b'+')?) {
                o.push(x);
            }
        }
        Ok(o)
    }
    fn in_range(&mut self, e: E, lo: u8, hi: u8) -> R<bool> {
        let l = self.ar.konst(8, lo as u128);
        let h = self.ar.konst(8, hi as u128);
        let x = self.ar.bin(Op::Ule, l, e);
        let y = self.ar.bin(Op::Ule, e, h);
        let c = self.ar.bin(Op::And, x, y);
        self.fork(c)
    }

    fn cstr(&mut self, p: Val, n: Val) -> String {
        if let (Val::C(p), Val::C(n)) = (p, n) {
            if let Ok(i) = self.mi(p, n) {
                return String::from_utf8_lossy(&self.mem[i..i + n as usize]).into_owned();
            }
        }
        "?".into()
    }

    fn panic_msg(&mut self, fid: u32, a: &[Val; 8], n: usize) -> String {
        let name = self.m.fns[fid as usize].name.clone();
        let mut loc = String::new();
        let mut msg = String::new();
        for i in (0..n.min(8)).rev() {
            if let Val::C(p) = a[i] {
                if self.m.is_const_addr(p, 24) && loc.is_empty() {
                    let g = |s: &Self, o: u64, k: usize| -> u64 {
                        let i = (p + o - GBASE) as usize;
                        let mut b = [0u8; 8];
                        b[..k].copy_from_slice(&s.mem[i..i + k]);
                        u64::from_le_bytes(b)
                    };
                    let fp = g(self, 0, 8);
                    let fl = g(self, 8, 8);
                    let line = g(self, 16, 4);
                    let col = g(self, 20, 4);
                    if fl > 0 && fl < 300 && self.m.is_const_addr(fp, fl) {
                        let s = self.cstr(Val::C(fp), Val::C(fl));
                        if s.ends_with(".rs") {
                            loc = format!("{}:{}:{}", s, line, col);
                        }
                    }
                }
            }
        }
        if let (Val::C(p), Val::C(l)) = (a[0], a[1]) {
            if l > 0 && l < 200 && self.m.is_const_addr(p, l) {
                msg = self.cstr(Val::C(p), Val::C(l));
            }
        }
        let short = name.split("4core").last().unwrap_or(&name).to_string();
        let repo = self.repo_frame();
        format!("{} {} at {} in {}", short, msg, loc, repo)
    }

    fn repo_frame(&self) -> String {
        for f in self.frames.iter().rev() {
            let nm = &self.m.fns[unsafe { (*f.func).id } as usize].name;
            if nm.contains("ruruby_parse") {
                return nm.clone();
            }
        }
        String::new()
    }

    fn asm(&mut self, s: &str, base: u32, d: u32, args: &[Opd]) -> R<()> {
        if s.is_empty() {
            return Ok(());
        }
        if s.starts_with("div ") && args.len() == 3 {
            // rdx:rax / divisor : operands (divisor, hi(dx), lo(ax)) -> (rem in dx?, ...) outputs =&{dx},=&{ax}
            let dv = self.get(base, args[0]);
            let hi = self.get(base, args[1]);
            let lo = self.get(base, args[2]);
            // outputs: first = dx (remainder), second = ax (quotient); inputs tied 0 -> dx (hi), 1 -> ax (lo)
            let (dv, hi, lo) = (self.ex(dv, 64), self.ex(hi, 64), self.ex(lo, 64));
            let n = self.ar.concat(hi, lo);
            let d128 = self.ar.zext(dv, 128);
            let q = self.ar.bin(Op::UDiv, n, d128);
            let r = self.ar.bin(Op::URem, n, d128);
            let q = self.ar.extract(q, 0, 64);
            let r = self.ar.extract(r, 0, 64);
            let (q, r) = (self.vl(q), self.vl(r));
            self.set(base + d, r);
            self.set(base + d + 1, q);
            return Ok(());
        }
        unsup(format!("inline asm {}", s))
    }

    fn intrinsic(&mut self, nm: &str, rw: u32, base: u32, d: u32, args: &[Opd]) -> R<()> {
        let mut a = [Val::C(0); 4];
        for (i, o) in args.iter().enumerate().take(4) {
            a[i] = self.get(base, *o);
        }
        let root = nm.split('.').next().unwrap();
        match root {
            "memcpy" | "memmove" => {
                let dd = self.addr(a[0])?;
                let s = self.addr(a[1])?;
                let n = self.pin(a[2], 64)?;
                return self.copy_mem(dd, s, n);
            }
            "memset" => {
                let dd = self.addr(a[0])?;
                let n = self.pin(a[2], 64)?;
                return self.fill_mem(dd, a[1], n);
            }
            "trap" => return end(End::Panic("trap".into())),
            _ => {}
        }
        let conc = |v: &[Val]| v.iter().all(|x| matches!(x, Val::C(_)));
        let w = rw;
        let r = match root {
            "umax" | "umin" | "smax" | "smin" => {
                let p = match root {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, a[0], a[1]);
                self.sel(c, a[0], a[1], w)
            }
            "abs" => {
                let c = self.icmp(Pred::Slt, w, a[0], Val::C(0));
                let n = self.bin(BinOp::Sub, w, Val::C(0), a[0])?;
                self.sel(c, n, a[0], w)
            }
            "usub" if nm.starts_with("usub.sat") => {
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                let s = self.bin(BinOp::Sub, w, a[0], a[1])?;
                self.sel(c, Val::C(0), s, w)
            }
            "uadd" if nm.starts_with("uadd.sat") => {
                let s = self.bin(BinOp::Add, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, s, a[0]);
                self.sel(c, Val::C(msk(w)), s, w)
            }
            "ucmp" | "scmp" => {
                let aw: u32 = nm.rsplit(".i").next().unwrap().parse().unwrap();
                let p = if root == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, aw, a[0], a[1]);
                let eq = self.icmp(Pred::Eq, aw, a[0], a[1]);
                let x = self.sel(eq, Val::C(0), Val::C(1), w);
                self.sel(lt, Val::C(msk(w)), x, w)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let w: u32 = nm.rsplit(".i").next().unwrap().parse().unwrap();
                let (v, o) = self.with_overflow(root, w, a[0], a[1])?;
                self.set(base + d, v);
                self.set(base + d + 1, o);
                return Ok(());
            }
            "fshl" | "fshr" => {
                let k = self.pin(a[2], w)? % w as u64;
                if conc(&a[..2]) && w <= 64 {
                    let (x, y) = match (a[0], a[1]) {
                        (Val::C(x), Val::C(y)) => (x, y),
                        _ => unreachable!(),
                    };
                    let cc = ((x as u128) << w) | y as u128;
                    let r = if root == "fshl" { (cc << k) >> w } else { cc >> k };
                    Val::C(r as u64 & msk(w))
                } else {
                    if k == 0 {
                        if root == "fshl" { a[0] } else { a[1] }
                    } else {
                        let (x, y) = (self.ex(a[0], w), self.ex(a[1], w));
                        let k = if root == "fshl" { k } else { w as u64 - k };
                        // (x << k) | (y >> (w-k))
                        let h = self.ar.extract(x, 0, (w as u64 - k) as u8);
                        let l = self.ar.extract(y, (w as u64 - k) as u8, k as u8);
                        let e = self.ar.concat(h, l);
                        self.vl(e)
                    }
                }
            }
            "ctpop" | "ctlz" | "cttz" | "bitreverse" => {
                match a[0] {
                    Val::S(e) if self.ar.w(e) <= 8 && self.ar.is_byte_single(e).is_some() || matches!(a[0], Val::S(e) if self.ar.w(e) <= 64) => {
                        // symbolic: build from bits
                        let e = self.ex(a[0], w);
                        let mut acc;
                        match root {
                            "ctpop" => {
                                acc = self.ar.konst(w as u8, 0);
                                for i in 0..w {
                                    let b = self.ar.extract(e, i as u8, 1);
                                    let b = self.ar.zext(b, w as u8);
                                    acc = self.ar.bin(Op::Add, acc, b);
                                }
                            }
                            "cttz" => {
                                acc = self.ar.konst(w as u8, w as u128);
                                for i in (0..w).rev() {
                                    let b = self.ar.extract(e, i as u8, 1);
                                    let k = self.ar.konst(w as u8, i as u128);
                                    acc = self.ar.ite(b, k, acc);
                                }
                            }
                            "ctlz" => {
                                acc = self.ar.konst(w as u8, w as u128);
                                for i in 0..w {
                                    let b = self.ar.extract(e, i as u8, 1);
                                    let k = self.ar.konst(w as u8, (w - 1 - i) as u128);
                                    acc = self.ar.ite(b, k, acc);
                                }
                            }
                            _ => {
                                acc = self.ar.extract(e, 0, 1);
                                for i in 1..w {
                                    let b = self.ar.extract(e, i as u8, 1);
                                    acc = self.ar.concat(acc, b);
                                }
                            }
                        }
                        self.vl(acc)
                    }
                    v => {
                        let x = self.pin(v, w)?;
                        Val::C(match root {
                            "ctpop" => x.count_ones() as u64,
                            "ctlz" => (x.leading_zeros() as u64) - (64 - w as u64),
                            "cttz" => (x.trailing_zeros() as u64).min(w as u64),
                            _ => x.reverse_bits() >> (64 - w),
                        })
                    }
                }
            }
            "bswap" => {
                let n = w / 8;
                match a[0] {
                    Val::C(x) => Val::C(x.swap_bytes() >> (64 - w)),
                    v => {
                        let e = self.ex(v, w);
                        let mut acc = None;
                        for i in 0..n {
                            let b = self.ar.extract(e, (i * 8) as u8, 8);
                            acc = Some(match acc {
                                None => b,
                                Some(h) => self.ar.concat(h, b),
                            });
                        }
                        self.vl(acc.unwrap())
                    }
                }
            }
            "x86" => {
                if nm == "x86.addcarry.64" || nm == "x86.subborrow.64" {
                    // {i8, i64} (i8 c, i64 a, i64 b)
                    let c = self.ex(a[0], 8);
                    let z8 = self.ar.konst(8, 0);
                    let c0 = self.ar.bin(Op::Eq, c, z8);
                    let c1 = self.ar.not1(c0);
                    let c = self.ar.zext(c1, 65);
                    let x = self.ex(a[1], 64);
                    let y = self.ex(a[2], 64);
                    let (x, y) = (self.ar.zext(x, 65), self.ar.zext(y, 65));
                    let op = if nm.contains("add") { Op::Add } else { Op::Sub };
                    let s = self.ar.bin(op, x, y);
                    let s = self.ar.bin(op, s, c);
                    let co = self.ar.extract(s, 64, 1);
                    let co = self.ar.zext(co, 8);
                    let v = self.ar.extract(s, 0, 64);
                    let (co, v) = (self.vl(co), self.vl(v));
                    self.set(base + d, co);
                    self.set(base + d + 1, v);
                    return Ok(());
                }
                return unsup(format!("intrinsic {}", nm));
            }
            "fabs" => self.bin(BinOp::And, w, a[0], Val::C(msk(w) >> 1))?,
            "sqrt" | "ceil" | "floor" | "log2" | "trunc" | "round" | "rint" => {
                let x = tof(w, self.pin(a[0], w)?);
                let y = match root {
                    "sqrt" => x.sqrt(),
                    "ceil" => x.ceil(),
                    "floor" => x.floor(),
                    "log2" => x.log2(),
                    "trunc" => x.trunc(),
                    "round" => x.round(),
                    _ => return unsup("rint"),
                };
                Val::C(fp(w, y, y as f32))
            }
            "fptoui" => {
                let aw = if nm.ends_with("f64") { 64 } else { 32 };
                let x = tof(aw, self.pin(a[0], aw)?);
                Val::C((x as u64).min(msk(w)))
            }
            "fptosi" => {
                let aw = if nm.ends_with("f64") { 64 } else { 32 };
                let x = tof(aw, self.pin(a[0], aw)?);
                if w != 64 {
                    return unsup("fptosi.sat width");
                }
                Val::C(x as i64 as u64)
            }
            _ => return unsup(format!("intrinsic {}", nm)),
        };
        if w > 0 {
            self.set(base + d, r);
        }
        Ok(())
    }

    fn sel(&mut self, c: Val, a: Val, b: Val, w: u32) -> Val {
        match c {
            Val::C(k) => {
                if k == 1 {
                    a
                } else {
                    b
                }
            }
            Val::S(ce) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.ar.ite(ce, x, y);
                self.vl(e)
            }
        }
    }

    fn with_overflow(&mut self, root: &str, w: u32, a: Val, b: Val) -> R<(Val, Val)> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (r, o) = match root {
                "uadd" => {
                    let s = x as u128 + y as u128;
                    (s as u64 & msk(w), s > msk(w) as u128)
                }
                "usub" => (x.wrapping_sub(y) & msk(w), x < y),
                "umul" => {
                    let s = x as u128 * y as u128;
                    (s as u64 & msk(w), s > msk(w) as u128)
                }
                _ => {
                    let (p, q) = (sx64(x, w) as i128, sx64(y, w) as i128);
                    let s = match root {
                        "sadd" => p + q,
                        "ssub" => p - q,
                        _ => p * q,
                    };
                    let r = s as u64 & msk(w);
                    (r, sx64(r, w) as i128 != s)
                }
            };
            return Ok((Val::C(r), Val::C(o as u64)));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ww = match root {
            "umul" | "smul" => 2 * w,
            _ => w + 1,
        };
        if ww > 128 {
            return unsup("overflow intrinsic width");
        }
        let s = root.starts_with('s');
        let (xx, yy) = if s { (self.ar.sext(x, ww as u8), self.ar.sext(y, ww as u8)) } else { (self.ar.zext(x, ww as u8), self.ar.zext(y, ww as u8)) };
        let op = match &root[1..] {
            "add" => Op::Add,
            "sub" => Op::Sub,
            _ => Op::Mul,
        };
        let full = self.ar.bin(op, xx, yy);
        let opn = self.ar.bin(op, x, y);
        let back = if s { self.ar.sext(opn, ww as u8) } else { self.ar.zext(opn, ww as u8) };
        let eq = self.ar.bin(Op::Eq, back, full);
        let o = self.ar.not1(eq);
        Ok((self.vl(opn), self.vl(o)))
    }
}

fn tof(w: u32, c: u64) -> f64 {
    if w == 64 {
        f64::from_bits(c)
    } else {
        f32::from_bits(c as u32) as f64
    }
}
fn fp(w: u32, a: f64, b: f32) -> u64 {
    if w == 64 {
        a.to_bits()
    } else {
        b.to_bits() as u64
    }
}

#[allow(dead_code)]
fn _unused() {
    let _ = (apply as usize, MULTI, NOVAR);
}
