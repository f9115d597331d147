//! The symbolic executor: depth-first exploration of all feasible paths by re-execution.

use crate::expr::{Arena, Eid, Op, MAX_SYMS};
use crate::ir::*;
use crate::parse::sext128;
use crate::z3::{Sat, Solver, Stats};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const SBASE: u64 = 0x7f00_0000_0000;
const HBASE: u64 = 0x20_0000_0000;
const UNBOUNDED: u64 = 1 << 40;
/// What counts for an allocation of this size or a larger one.
const ASKED: u64 = 1 << 40;
/// The depth at which expressions are taken for hashes.
const MIX: u8 = 40;
const FANOUT: usize = 4096;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Dec {
    v: u64,
    implied: bool,
}

pub struct Work {
    h: usize,
    dec: Vec<Dec>,
    model: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub detail: String,
    pub input: Vec<u8>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub implied: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub symbols: usize,
    pub reached: BTreeMap<u64, u64>,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub functions: HashSet<u32>,
    pub stats: Stats,
    pub pending: u64,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_violations: usize,
    pub samples: usize,
    pub deadline: Instant,
    pub grace_ms: u64,
    pub query_ms: u32,
    pub dump: Option<String>,
}

enum Stop {
    Done,
    Assumed,
    Violation(String, u64, String),
    Error(String),
}

type R<T> = Result<T, Stop>;

struct Obj {
    base: u64,
    size: u64,
    data: Vec<u8>,
    tags: Vec<u64>,
    live: bool,
}

impl Obj {
    fn ensure(&mut self, n: usize) {
        if self.data.len() < n {
            self.data.resize(n, 0);
        }
        if !self.tags.is_empty() && self.tags.len() < n {
            self.tags.resize(n, 0);
        }
    }
}

struct Frame {
    f: u32,
    block: usize,
    ip: usize,
    base: usize,
    dst: Option<u32>,
    normal: Option<u32>,
    stack_mark: usize,
    sp: u64,
}

struct Queue {
    items: Vec<Vec<Work>>,
    active: usize,
}

pub struct Shared<'m> {
    pub m: &'m Module,
    pub harnesses: Vec<(String, u32)>,
    pub limits: Limits,
    queue: Mutex<Queue>,
    cv: Condvar,
    pub reports: Mutex<Vec<Report>>,
    kinds: Vec<Intercept>,
    stop: AtomicBool,
    start: Instant,
    /// When to stop, in milliseconds since the start.
    until: std::sync::atomic::AtomicU64,
    turn: std::sync::atomic::AtomicU64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Intercept {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Zero,
    KeyCreate,
    Write,
    Writev,
    RandomKeys,
    HashOne,
    Panic,
    Abort,
    SxBytes,
    SxAssume,
    SxCheck,
    SxReach,
    SxConc,
    SxObserve,
    SxSymbolic,
    SxAllocated,
    Llvm,
    Unknown,
}

fn classify(f: &Func) -> Intercept {
    let n = f.name.as_str();
    match n {
        "malloc" => return Intercept::Malloc,
        "calloc" => return Intercept::Calloc,
        "realloc" => return Intercept::Realloc,
        "free" => return Intercept::Free,
        "posix_memalign" => return Intercept::PosixMemalign,
        "memcpy" | "memmove" => return Intercept::Memcpy,
        "memset" => return Intercept::Memset,
        "bcmp" => return Intercept::Bcmp,
        "memcmp" => return Intercept::Memcmp,
        "strlen" => return Intercept::Strlen,
        "abort" | "_exit" | "exit" => return Intercept::Abort,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "pthread_getspecific" | "getenv" => {
            return Intercept::Zero
        }
        "pthread_key_create" => return Intercept::KeyCreate,
        "write" => return Intercept::Write,
        "writev" => return Intercept::Writev,
        "sx_bytes" => return Intercept::SxBytes,
        "sx_assume" => return Intercept::SxAssume,
        "sx_check" => return Intercept::SxCheck,
        "sx_reach" => return Intercept::SxReach,
        "sx_concretize" => return Intercept::SxConc,
        "sx_observe" => return Intercept::SxObserve,
        "sx_symbolic" => return Intercept::SxSymbolic,
        "sx_allocated" => return Intercept::SxAllocated,
        _ => {}
    }
    if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") {
        return Intercept::Memcpy;
    }
    if n.starts_with("llvm.memset") {
        return Intercept::Memset;
    }
    if n.starts_with("llvm.trap") || n.starts_with("llvm.ubsantrap") {
        return Intercept::Abort;
    }
    if n.starts_with("llvm.") {
        return Intercept::Llvm;
    }
    if n.contains("hashmap_random_keys") {
        return Intercept::RandomKeys;
    }
    if n.contains("8hash_one") {
        return Intercept::HashOne;
    }
    if (n.contains("4core9panicking") && !n.contains("Location"))
        || n.contains("rust_begin_unwind")
        || n.contains("17handle_alloc_error")
        || n.contains("5alloc7raw_vec12handle_error")
        || n.contains("17capacity_overflow")
        || n.contains("4core6option13unwrap_failed")
        || n.contains("4core6option13expect_failed")
        || n.contains("4core6result13unwrap_failed")
        || n.contains("22panic_already_borrowed")
        || n.contains("26panic_already_mutably")
        || n.contains("slice_index_fail")
        || n.contains("slice_error_fail")
        || n.contains("18panic_access_error")
        || n.contains("11begin_panic")
        || n.contains("10rust_panic")
        || n.contains("13panic_handler")
        || n.contains("_index_len_fail")
        || n.contains("_index_order_fail")
        || n.contains("len_mismatch_fail")
    {
        return Intercept::Panic;
    }
    if f.defined {
        Intercept::None
    } else {
        Intercept::Unknown
    }
}

impl<'m> Shared<'m> {
    pub fn new(m: &'m Module, harnesses: Vec<(String, u32)>, limits: Limits) -> Self {
        let kinds = m.funcs.iter().map(classify).collect();
        let until = limits.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        let n = harnesses.len();
        let items = (0..n).map(|h| vec![Work { h, dec: vec![], model: vec![] }]).collect();
        Shared {
            m,
            harnesses,
            limits,
            queue: Mutex::new(Queue { items, active: 0 }),
            cv: Condvar::new(),
            reports: Mutex::new(vec![Report::default(); n]),
            kinds,
            stop: AtomicBool::new(false),
            start: Instant::now(),
            until: std::sync::atomic::AtomicU64::new(until),
            turn: std::sync::atomic::AtomicU64::new(0),
        }
    }

    fn over(&self) -> bool {
        self.start.elapsed().as_millis() as u64 > self.until.load(Ordering::Relaxed)
    }

    /// Do not go on for long once there is something to report.
    fn hurry(&self) {
        let now = self.start.elapsed().as_millis() as u64;
        self.until.fetch_min(now + self.limits.grace_ms, Ordering::Relaxed);
    }

    fn pop(&self) -> Option<Work> {
        let mut q = self.queue.lock().unwrap();
        loop {
            if self.stop.load(Ordering::Relaxed) {
                return None;
            }
            // harnesses take turns; depth first, with an occasional look elsewhere
            let turn = self.turn.fetch_add(1, Ordering::Relaxed) as usize;
            let n = q.items.len();
            let next = (0..n).map(|i| (turn / 16 + i) % n).find(|h| !q.items[*h].is_empty());
            if let Some(h) = next {
                let items = &mut q.items[h];
                let n = items.len();
                if turn % 8 == 7 && n > 16 {
                    let k = (turn.wrapping_mul(0x9E3779B97F4A7C15) >> 33) % n;
                    items.swap(k, n - 1);
                }
                let w = items.pop().unwrap();
                q.active += 1;
                return Some(w);
            }
            if q.active == 0 {
                self.cv.notify_all();
                return None;
            }
            q = self.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
        }
    }

    fn push(&self, w: Work) {
        let h = w.h;
        self.queue.lock().unwrap().items[h].push(w);
        self.cv.notify_one();
    }

    fn done(&self) {
        let mut q = self.queue.lock().unwrap();
        q.active -= 1;
        if q.active == 0 && q.items.iter().all(|items| items.is_empty()) {
            self.cv.notify_all();
        }
    }

    pub fn leftovers(&self) {
        let q = self.queue.lock().unwrap();
        let mut r = self.reports.lock().unwrap();
        for w in q.items.iter().flatten() {
            r[w.h].pending += 1;
        }
    }

    pub fn worker(&self) {
        let mut x = Exec::new(self);
        while let Some(w) = self.pop() {
            let h = w.h;
            let out = x.run(w);
            let sample = match out {
                Stop::Done => Some(Sample { input: x.input(), obs: x.observed() }),
                _ => None,
            };
            {
                let mut rs = self.reports.lock().unwrap();
                let r = &mut rs[h];
                r.steps += x.steps;
                r.max_steps = r.max_steps.max(x.steps);
                r.forks += x.forks;
                r.implied += x.implied;
                r.checks += x.checks;
                r.checks_const += x.checks_const;
                r.symbols = r.symbols.max(x.nsyms);
                for f in x.funcs.drain() {
                    r.functions.insert(f);
                }
                r.stats.add(&x.z.stats);
                x.z.stats = Stats::default();
                for v in x.found.drain(..) {
                    self.hurry();
                    add_violation(r, v, self.limits.max_violations);
                }
                for (e, n) in x.soft.drain() {
                    *r.errors.entry(e).or_insert(0) += n;
                }
                match out {
                    Stop::Done => {
                        r.paths += 1;
                        for k in x.reached.iter() {
                            *r.reached.entry(*k).or_insert(0) += 1;
                        }
                        // the first paths, then an ever sparser selection of the later ones
                        let cap = self.limits.samples;
                        if r.samples.len() < cap {
                            r.samples.push(sample.unwrap());
                        } else if cap > 0 {
                            let k = (r.paths.wrapping_mul(0x9E3779B97F4A7C15) >> 33) as usize % r.paths as usize;
                            if k < cap {
                                r.samples[k] = sample.unwrap();
                            }
                        }
                    }
                    Stop::Assumed => r.infeasible += 1,
                    Stop::Violation(kind, id, detail) => {
                        r.paths += 1;
                        for k in x.reached.iter() {
                            *r.reached.entry(*k).or_insert(0) += 1;
                        }
                        let v = Violation { kind, id, detail, input: x.input(), trace: x.trace() };
                        self.hurry();
                    add_violation(r, v, self.limits.max_violations);
                    }
                    Stop::Error(e) => {
                        r.paths += 1;
                        *r.errors.entry(e).or_insert(0) += 1;
                    }
                }
            }
            if self.over() {
                self.stop.store(true, Ordering::Relaxed);
                self.cv.notify_all();
            }
            self.done();
            if x.ar.nodes.len() > 3_000_000 {
                x.recycle();
            }
        }
    }
}

fn add_violation(r: &mut Report, v: Violation, cap: usize) {
    let same = r.violations.iter().filter(|o| o.kind == v.kind && o.id == v.id && o.detail == v.detail).count();
    if same < 2 && r.violations.len() < cap {
        r.violations.push(v);
    }
}

pub struct Exec<'a, 'm> {
    sh: &'a Shared<'m>,
    m: &'m Module,
    pub ar: Arena,
    pub z: Solver,
    cache: HashMap<Vec<Eid>, (Sat, Vec<(u16, u8)>)>,
    // path state
    h: usize,
    dec: Vec<Dec>,
    pos: usize,
    model: Vec<u8>,
    cons: Vec<Eid>,
    known: HashSet<Eid>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    gobj: HashMap<u32, Obj>,
    gaddr: Vec<u64>,
    stack: Vec<Obj>,
    sp: u64,
    heap: Vec<Obj>,
    hp: u64,
    /// The sum of the sizes asked for on the path, each of at most `ASKED`.
    asked: Val,
    nsyms: usize,
    obs: Vec<Val>,
    reached: Vec<u64>,
    steps: u64,
    forks: u64,
    implied: u64,
    checks: u64,
    checks_const: u64,
    funcs: HashSet<u32>,
    found: Vec<Violation>,
    soft: HashMap<String, u64>,
}

fn f32c(v: u128) -> f32 {
    f32::from_bits(v as u32)
}

impl<'a, 'm> Exec<'a, 'm> {
    fn new(sh: &'a Shared<'m>) -> Self {
        let mut z = Solver::new(sh.limits.query_ms);
        z.dump = sh.limits.dump.clone();
        Exec {
            sh,
            m: sh.m,
            ar: Arena::new(),
            z,
            cache: HashMap::new(),
            h: 0,
            dec: vec![],
            pos: 0,
            model: vec![],
            cons: vec![],
            known: HashSet::new(),
            regs: vec![],
            frames: vec![],
            gobj: HashMap::new(),
            gaddr: sh.m.globals.iter().map(|g| g.addr).collect(),
            stack: vec![],
            sp: SBASE,
            heap: vec![],
            hp: HBASE,
            asked: Val::C(0),
            nsyms: 0,
            obs: vec![],
            reached: vec![],
            steps: 0,
            forks: 0,
            implied: 0,
            checks: 0,
            checks_const: 0,
            funcs: HashSet::new(),
            found: vec![],
            soft: HashMap::new(),
        }
    }

    fn recycle(&mut self) {
        self.ar = Arena::new();
        let dump = self.z.dump.clone();
        self.z = Solver::new(self.sh.limits.query_ms);
        self.z.dump = dump;
        self.cache.clear();
    }

    fn input(&self) -> Vec<u8> {
        let mut v = self.model.clone();
        v.resize(self.nsyms, 0);
        v
    }

    fn observed(&mut self) -> Vec<u64> {
        self.ar.new_model();
        let obs = std::mem::take(&mut self.obs);
        obs.iter()
            .map(|v| match v {
                Val::C(x) => *x as u64,
                Val::S(e) => self.ar.eval(*e, &self.model) as u64,
                _ => 0,
            })
            .collect()
    }

    fn trace(&self) -> Vec<String> {
        self.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f as usize].name.clone()).collect()
    }

    fn run(&mut self, w: Work) -> Stop {
        self.h = w.h;
        self.dec = w.dec;
        self.model = w.model;
        self.pos = 0;
        self.cons.clear();
        self.known.clear();
        self.regs.clear();
        self.frames.clear();
        self.gobj.clear();
        self.stack.clear();
        self.sp = SBASE;
        self.heap.clear();
        self.hp = HBASE;
        self.asked = Val::C(0);
        self.nsyms = 0;
        self.obs.clear();
        self.reached.clear();
        self.steps = 0;
        self.forks = 0;
        self.implied = 0;
        self.checks = 0;
        self.checks_const = 0;
        self.ar.new_model();
        let f = self.sh.harnesses[self.h].1;
        let r = self.enter(f, vec![], None, None).and_then(|_| self.go());
        match r {
            Ok(()) => Stop::Done,
            Err(e) => e,
        }
    }

    // solver

    fn add_con(&mut self, c: Eid) {
        if self.ar.konst(c).is_some() || !self.known.insert(c) {
            return;
        }
        let n = *self.ar.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_con(n.a);
            self.add_con(n.b);
            return;
        }
        self.cons.push(c);
    }

    /// Is the path condition together with `q` satisfiable? If so, the model.
    fn query(&mut self, q: Eid) -> (Sat, Option<Vec<u8>>) {
        if let Some(k) = self.ar.konst(q) {
            return if k == 1 { (Sat::Sat, Some(self.model.clone())) } else { (Sat::Unsat, None) };
        }
        let mut set = self.ar.syms[q as usize];
        let mut used = vec![false; self.cons.len()];
        let mut conj = vec![q];
        loop {
            let mut grown = false;
            for (i, c) in self.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let t = self.ar.syms[*c as usize];
                if (0..8).any(|k| t[k] & set[k] != 0) {
                    used[i] = true;
                    grown = true;
                    for k in 0..8 {
                        set[k] |= t[k];
                    }
                    conj.push(*c);
                }
            }
            if !grown {
                break;
            }
        }
        conj.sort_unstable();
        if let Some((r, bytes)) = self.cache.get(&conj) {
            self.z.stats.cached += 1;
            if *r == Sat::Sat {
                let mut m = self.model.clone();
                m.resize(self.nsyms, 0);
                for (i, b) in bytes {
                    m[*i as usize] = *b;
                }
                return (Sat::Sat, Some(m));
            }
            return (*r, None);
        }
        if self.sh.over() {
            // have the limit noticed as soon as possible
            self.steps |= 0xfff;
            return (Sat::Unknown, None);
        }
        let mut m = self.model.clone();
        m.resize(self.nsyms, 0);
        let r = self.z.check(&self.ar, &conj, &mut m);
        let mut bytes = vec![];
        if r == Sat::Sat {
            for i in 0..self.nsyms {
                if set[i / 64] >> (i % 64) & 1 == 1 {
                    bytes.push((i as u16, m[i]));
                }
            }
            // the solver's answer has to satisfy our own evaluator
            self.ar.new_model();
            let ok = conj.iter().all(|c| self.ar.eval(*c, &m) == 1);
            self.ar.new_model();
            if !ok {
                *self.soft.entry("solver model does not satisfy the query".into()).or_insert(0) += 1;
                return (Sat::Unknown, None);
            }
        }
        self.cache.insert(conj, (r, bytes));
        match r {
            Sat::Sat => (r, Some(m)),
            _ => (r, None),
        }
    }

    fn fork(&mut self, d: Dec, model: Vec<u8>) {
        let mut dec = self.dec.clone();
        dec.push(d);
        self.forks += 1;
        self.sh.push(Work { h: self.h, dec, model });
    }

    fn decided(&mut self) -> Option<Dec> {
        if self.pos < self.dec.len() {
            let d = self.dec[self.pos];
            self.pos += 1;
            return Some(d);
        }
        None
    }

    fn record(&mut self, v: u64, implied: bool) {
        self.dec.push(Dec { v, implied });
        self.pos += 1;
        if implied {
            self.implied += 1;
        }
    }

    fn branch(&mut self, c: Eid) -> R<bool> {
        if let Some(k) = self.ar.konst(c) {
            return Ok(k == 1);
        }
        if self.known.contains(&c) {
            return Ok(true);
        }
        let nc = self.ar.not(c);
        if self.known.contains(&nc) {
            return Ok(false);
        }
        if let Some(d) = self.decided() {
            let t = if d.v == 1 { c } else { nc };
            if d.implied {
                self.known.insert(t);
            } else {
                self.add_con(t);
            }
            return Ok(d.v == 1);
        }
        let mv = self.ar.eval(c, &self.model) == 1;
        let (t, o) = if mv { (c, nc) } else { (nc, c) };
        match self.query(o) {
            (Sat::Unsat, _) => {
                self.known.insert(t);
                self.record(mv as u64, true);
            }
            (Sat::Sat, Some(m)) => {
                if self.sh.limits.dump.is_some() {
                    eprintln!("fork {:?}", self.trace());
                }
                self.fork(Dec { v: !mv as u64, implied: false }, m);
                self.record(mv as u64, false);
                self.add_con(t);
            }
            _ => {
                *self.soft.entry("undecided branch".into()).or_insert(0) += 1;
                self.record(mv as u64, false);
                self.add_con(t);
            }
        }
        Ok(mv)
    }

    /// Split the path by the value of the expression.
    fn pick(&mut self, e: Eid) -> R<u64> {
        if let Some(k) = self.ar.konst(e) {
            return Ok(k as u64);
        }
        let w = self.ar.w(e);
        if let Some(d) = self.decided() {
            let k = self.ar.cst(d.v as u128, w);
            let c = self.ar.eq(e, k);
            if d.implied {
                self.known.insert(c);
            } else {
                self.add_con(c);
            }
            return Ok(d.v);
        }
        let v0 = self.ar.eval(e, &self.model) as u64;
        let mut excl = {
            let k = self.ar.cst(v0 as u128, w);
            let q = self.ar.eq(e, k);
            self.ar.not(q)
        };
        let mut others = 0;
        loop {
            match self.query(excl) {
                (Sat::Unsat, _) => break,
                (Sat::Sat, Some(m)) => {
                    self.ar.new_model();
                    let v = self.ar.eval(e, &m) as u64;
                    self.ar.new_model();
                    self.fork(Dec { v, implied: false }, m);
                    others += 1;
                    if others > FANOUT {
                        return Err(Stop::Error("too many values to enumerate".into()));
                    }
                    let k = self.ar.cst(v as u128, w);
                    let q = self.ar.eq(e, k);
                    let n = self.ar.not(q);
                    excl = self.ar.and(excl, n);
                }
                _ => {
                    *self.soft.entry("undecided enumeration".into()).or_insert(0) += 1;
                    break;
                }
            }
        }
        self.record(v0, others == 0);
        let k = self.ar.cst(v0 as u128, w);
        let c = self.ar.eq(e, k);
        if others == 0 {
            self.known.insert(c);
        } else {
            self.add_con(c);
        }
        Ok(v0)
    }

    fn conc(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x as u64),
            Val::S(e) => self.pick(*e),
            Val::A(_) => Err(Stop::Error("aggregate address".into())),
        }
    }

    fn assume(&mut self, c: Eid) -> R<()> {
        if let Some(k) = self.ar.konst(c) {
            return if k == 1 { Ok(()) } else { Err(Stop::Assumed) };
        }
        if self.ar.eval(c, &self.model) != 1 {
            match self.query(c) {
                (Sat::Unsat, _) => return Err(Stop::Assumed),
                (Sat::Sat, Some(m)) => {
                    self.model = m;
                    self.ar.new_model();
                }
                _ => return Err(Stop::Error("undecided assumption".into())),
            }
        }
        self.add_con(c);
        Ok(())
    }

    fn assertion(&mut self, c: Eid, id: u64) -> R<()> {
        if let Some(k) = self.ar.konst(c) {
            self.checks_const += 1;
            if k == 1 {
                return Ok(());
            }
            return Err(Stop::Violation("check".into(), id, String::new()));
        }
        if let Some(d) = self.decided() {
            if d.implied {
                self.known.insert(c);
            } else {
                self.add_con(c);
            }
            return Ok(());
        }
        self.checks += 1;
        let nc = self.ar.not(c);
        match self.query(nc) {
            (Sat::Unsat, _) => {
                self.known.insert(c);
                self.record(1, true);
            }
            (Sat::Sat, Some(m)) => {
                let keep = std::mem::replace(&mut self.model, m);
                let v = Violation {
                    kind: "check".into(),
                    id,
                    detail: String::new(),
                    input: self.input(),
                    trace: self.trace(),
                };
                self.found.push(v);
                self.model = keep;
                self.ar.new_model();
                self.record(1, false);
                return self.assume(c);
            }
            _ => {
                if self.sh.limits.dump.is_some() {
                    eprintln!("undecided assertion {id} near {:?}", self.input());
                }
                *self.soft.entry(format!("undecided assertion {id}")).or_insert(0) += 1;
                self.record(1, false);
                return self.assume(c);
            }
        }
        Ok(())
    }

    // values

    fn e(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(x) => self.ar.cst(*x, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate used as a scalar"),
        }
    }

    fn v(&self, e: Eid) -> Val {
        match self.ar.konst(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }

    fn get(&self, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => self.regs[self.frames[self.frames.len() - 1].base + *r as usize].clone(),
            Opnd::K(v) => v.clone(),
            Opnd::Pending(_) => unreachable!(),
        }
    }

    fn set(&mut self, r: u32, v: Val) {
        let b = self.frames[self.frames.len() - 1].base;
        self.regs[b + r as usize] = v;
    }

    // memory

    fn bad<T>(&self, what: &str, a: u64) -> R<T> {
        Err(Stop::Violation("memory".into(), 0, format!("{what} at {a:#x}")))
    }

    fn gindex(&self, a: u64) -> Option<usize> {
        let i = self.gaddr.partition_point(|x| *x <= a);
        if i == 0 {
            None
        } else {
            Some(i - 1)
        }
    }

    fn with_obj<T>(
        &mut self,
        a: u64,
        n: u64,
        write: bool,
        body: impl FnOnce(&mut Obj, usize) -> T,
    ) -> R<T> {
        if a >= SBASE {
            let i = self.stack.partition_point(|o| o.base <= a);
            if i > 0 {
                let o = &mut self.stack[i - 1];
                let off = a - o.base;
                if off + n <= o.size {
                    return Ok(body(o, off as usize));
                }
            }
            return self.bad("stack access out of bounds", a);
        }
        if a >= HBASE {
            let i = self.heap.partition_point(|o| o.base <= a);
            if i > 0 {
                let o = &mut self.heap[i - 1];
                let off = a - o.base;
                if o.live && off + n <= o.size {
                    if off + n > 1 << 27 {
                        return Err(Stop::Error("object grows too large".into()));
                    }
                    return Ok(body(o, off as usize));
                }
            }
            return self.bad("heap access out of bounds or after free", a);
        }
        if a >= GBASE {
            if let Some(i) = self.gindex(a) {
                let off = a - self.gaddr[i];
                let size = self.m.images[i].len() as u64;
                if off + n <= size {
                    if write && self.m.globals[i].constant {
                        return self.bad("write to constant", a);
                    }
                    let m = self.m;
                    let o = self.gobj.entry(i as u32).or_insert_with(|| Obj {
                        base: m.globals[i].addr,
                        size,
                        data: m.images[i].to_vec(),
                        tags: vec![],
                        live: true,
                    });
                    return Ok(body(o, off as usize));
                }
            }
        }
        self.bad("invalid address", a)
    }

    /// A read-only view for constants avoids copying their image.
    fn rom(&self, a: u64, n: u64) -> Option<&'m [u8]> {
        if a >= GBASE && a < HBASE {
            if let Some(i) = self.gindex(a) {
                let off = a - self.gaddr[i];
                let im = &self.m.images[i];
                if self.m.globals[i].constant && off + n <= im.len() as u64 {
                    return Some(&im[off as usize..(off + n) as usize]);
                }
            }
        }
        None
    }

    fn load_scalar(&mut self, a: u64, n: usize, w: u32) -> R<Val> {
        if n == 0 {
            return Ok(Val::C(0));
        }
        if let Some(b) = self.rom(a, n as u64) {
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(b);
            return Ok(Val::C(u128::from_le_bytes(x) & mask(w)));
        }
        let mut x = [0u8; 16];
        let mut t = [0u64; 16];
        let sym = self.with_obj(a, n as u64, false, |o, off| {
            o.ensure(off + n);
            x[..n].copy_from_slice(&o.data[off..off + n]);
            if o.tags.is_empty() {
                return false;
            }
            t[..n].copy_from_slice(&o.tags[off..off + n]);
            t[..n].iter().any(|k| *k != 0)
        })?;
        if !sym {
            return Ok(Val::C(u128::from_le_bytes(x) & mask(w)));
        }
        // whole value stored at once
        let e0 = (t[0] >> 8) as Eid;
        if e0 != 0 && (0..n).all(|i| t[i] == ((e0 as u64) << 8 | i as u64)) {
            let ew = self.ar.w(e0);
            if ew == w {
                return Ok(self.v(e0));
            }
            if ew > w {
                let e = self.ar.extract(e0, 0, w);
                return Ok(self.v(e));
            }
        }
        let mut acc: Option<Eid> = None;
        for i in 0..n {
            let b = self.tag_byte(t[i], x[i]);
            acc = Some(match acc {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        let mut e = acc.unwrap();
        if self.ar.w(e) > w {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.v(e))
    }

    fn tag_byte(&mut self, t: u64, b: u8) -> Eid {
        if t == 0 {
            return self.ar.cst(b as u128, 8);
        }
        let e = (t >> 8) as Eid;
        let i = (t & 255) as u32;
        let ew = self.ar.w(e);
        if ew == 8 {
            return e;
        }
        if (i + 1) * 8 > ew {
            // the top of a value whose width is not a whole number of bytes
            let p = self.ar.extract(e, i * 8, ew - i * 8);
            return self.ar.zext(p, 8);
        }
        self.ar.extract(e, i * 8, 8)
    }

    fn store_scalar(&mut self, a: u64, n: usize, v: &Val) -> R<()> {
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                self.with_obj(a, n as u64, true, |o, off| {
                    o.ensure(off + n);
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                    if !o.tags.is_empty() {
                        o.tags[off..off + n].fill(0);
                    }
                })
            }
            Val::S(e) => {
                let e = *e as u64;
                self.with_obj(a, n as u64, true, |o, off| {
                    o.ensure(off + n);
                    if o.tags.is_empty() {
                        o.tags = vec![0; o.data.len()];
                    }
                    for i in 0..n {
                        o.tags[off + i] = e << 8 | i as u64;
                    }
                })
            }
            Val::A(_) => panic!("aggregate store"),
        }
    }

    fn load(&mut self, t: &Ty, a: u64) -> R<Val> {
        match t {
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() {
                    v.push(self.load(x, a + t.field_offset(i))?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Vec(x, n) if **x == Ty::Int(1) => {
                let s = self.load_scalar(a, t.size() as usize, (*n) as u32)?;
                self.split(&s, *n as usize, 1)
            }
            Ty::Arr(x, n) | Ty::Vec(x, n) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(x, a + i * x.size())?);
                }
                Ok(Val::A(v.into()))
            }
            _ => self.load_scalar(a, t.store_size() as usize, t.bits()),
        }
    }

    fn store(&mut self, t: &Ty, a: u64, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Struct(ts, _), Val::A(xs)) => {
                for (i, x) in ts.iter().enumerate() {
                    self.store(x, a + t.field_offset(i), &xs[i])?;
                }
                Ok(())
            }
            (Ty::Vec(x, n), Val::A(_)) if **x == Ty::Int(1) => {
                let j = self.join(v, 1);
                let _ = n;
                self.store_scalar(a, t.size() as usize, &j)
            }
            (Ty::Arr(x, _) | Ty::Vec(x, _), Val::A(xs)) => {
                for (i, k) in xs.iter().enumerate() {
                    self.store(x, a + i as u64 * x.size(), k)?;
                }
                Ok(())
            }
            _ => self.store_scalar(a, t.store_size() as usize, v),
        }
    }

    /// A load at an address that is not a single value: a case distinction over a small object,
    /// or a split of the path.
    fn load_at(&mut self, t: &Ty, p: &Val) -> R<Val> {
        let e = match p {
            Val::C(a) => return self.load(t, *a as u64),
            Val::S(e) => *e,
            Val::A(_) => return Err(Stop::Error("aggregate address".into())),
        };
        if let Ty::Int(w) = t {
            let n = t.store_size();
            let a0 = self.ar.eval(e, &self.model) as u64;
            if let Some((base, size)) = self.extent(a0) {
                let stride = 1u64 << self.tz(e).min(4);
                if size <= 4096 && size >= n && size / stride <= 600 && base % stride == 0 {
                    let b = self.ar.cst(base as u128, 64);
                    let off = self.ar.sub(e, b);
                    let top = self.ar.cst((size - n) as u128, 64);
                    let inb = self.ar.ule(off, top);
                    if !self.branch(inb)? {
                        let a = self.pick(e)?;
                        return self.load(t, a);
                    }
                    let (lo, hi) = self.ar.rng[off as usize];
                    let mut acc: Option<Eid> = None;
                    let mut k = 0;
                    let mut parts: Vec<(u64, Eid)> = vec![];
                    while k + n <= size {
                        if (lo < 0 || k as i128 >= lo) && (hi < 0 || k as i128 <= hi) {
                            let v = self.load_scalar(base + k, n as usize, *w)?;
                            parts.push((k, self.e(&v, *w)));
                        }
                        k += stride;
                    }
                    for (k, v) in parts.into_iter().rev() {
                        acc = Some(match acc {
                            None => v,
                            Some(r) => {
                                let kk = self.ar.cst(k as u128, 64);
                                let c = self.ar.eq(off, kk);
                                self.ar.ite(c, v, r)
                            }
                        });
                    }
                    if let Some(r) = acc {
                        return Ok(self.v(r));
                    }
                }
            }
        }
        let a = self.pick(e)?;
        self.load(t, a)
    }

    fn extent(&self, a: u64) -> Option<(u64, u64)> {
        if a >= SBASE {
            let i = self.stack.partition_point(|o| o.base <= a);
            return (i > 0).then(|| (self.stack[i - 1].base, self.stack[i - 1].size));
        }
        if a >= HBASE {
            let i = self.heap.partition_point(|o| o.base <= a);
            return (i > 0).then(|| (self.heap[i - 1].base, self.heap[i - 1].size));
        }
        if a >= GBASE {
            let i = self.gindex(a)?;
            return Some((self.gaddr[i], self.m.images[i].len() as u64));
        }
        None
    }

    fn tz(&self, e: Eid) -> u32 {
        let n = self.ar.n(e);
        match n.op {
            Op::Const => (n.k as u64).trailing_zeros(),
            Op::Add | Op::Sub | Op::Or => self.tz(n.a).min(self.tz(n.b)),
            Op::Shl => self.ar.konst(n.b).map_or(0, |k| (self.tz(n.a) + k as u32).min(64)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(64),
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Concat => {
                let l = self.tz(n.b);
                let w = self.ar.w(n.b);
                if l >= w {
                    w + self.tz(n.a)
                } else {
                    l
                }
            }
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }

    fn ask(&mut self, size: &Val) -> R<()> {
        let size = match size {
            Val::C(n) => Val::C((*n).min(ASKED as u128)),
            Val::S(e) => {
                let top = self.ar.cst(ASKED as u128, 64);
                let less = self.ar.ult(*e, top);
                let e = self.ar.ite(less, *e, top);
                self.v(e)
            }
            Val::A(_) => unreachable!(),
        };
        let asked = std::mem::replace(&mut self.asked, Val::C(0));
        self.asked = self.bin(BinOp::Add, &Ty::Int(64), asked, size)?;
        Ok(())
    }

    fn alloc(&mut self, size: &Val, align: u64, zero: bool) -> R<u64> {
        let _ = zero;
        self.ask(size)?;
        let a = align.max(16);
        self.hp = (self.hp + a - 1) / a * a;
        let base = self.hp;
        let n = match size {
            Val::C(n) if (*n as u64) < UNBOUNDED / 2 => *n as u64,
            // never refused: an impossible request would be reported by the caller's capacity check
            _ => UNBOUNDED,
        };
        self.hp += n + 32;
        if self.hp > SBASE / 2 {
            return Err(Stop::Error("address space exhausted".into()));
        }
        self.heap.push(Obj { base, size: n, data: vec![], tags: vec![], live: true });
        Ok(base)
    }

    fn release(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let i = self.heap.partition_point(|o| o.base <= a);
        if i > 0 && self.heap[i - 1].base == a && self.heap[i - 1].live {
            let o = &mut self.heap[i - 1];
            o.live = false;
            o.data = vec![];
            o.tags = vec![];
            return Ok(());
        }
        self.bad("free of an invalid pointer", a)
    }

    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if n > 1 << 26 {
            return Err(Stop::Error("copy of an unreasonable length".into()));
        }
        let n = n as usize;
        let mut tags = vec![];
        let data = if let Some(b) = self.rom(s, n as u64) {
            b.to_vec()
        } else {
            self.with_obj(s, n as u64, false, |o, off| {
                o.ensure(off + n);
                if !o.tags.is_empty() {
                    tags = o.tags[off..off + n].to_vec();
                }
                o.data[off..off + n].to_vec()
            })?
        };
        let any = tags.iter().any(|t| *t != 0);
        self.with_obj(d, n as u64, true, |o, off| {
            o.ensure(off + n);
            o.data[off..off + n].copy_from_slice(&data);
            if any {
                if o.tags.is_empty() {
                    o.tags = vec![0; o.data.len()];
                }
                o.tags[off..off + n].copy_from_slice(&tags);
            } else if !o.tags.is_empty() {
                o.tags[off..off + n].fill(0);
            }
        })
    }

    fn bytes_of(&mut self, a: u64, n: u64) -> R<Vec<Eid>> {
        let mut v = vec![];
        for i in 0..n {
            let x = self.load_scalar(a + i, 1, 8)?;
            v.push(self.e(&x, 8));
        }
        Ok(v)
    }

    // vectors

    fn split(&mut self, v: &Val, n: usize, w: u32) -> R<Val> {
        let mut out = vec![];
        for i in 0..n {
            out.push(match v {
                Val::C(x) => Val::C((x >> (i as u32 * w)) & mask(w)),
                Val::S(e) => {
                    let p = self.ar.extract(*e, i as u32 * w, w);
                    self.v(p)
                }
                Val::A(_) => unreachable!(),
            });
        }
        Ok(Val::A(out.into()))
    }

    fn join(&mut self, v: &Val, w: u32) -> Val {
        match v {
            Val::A(xs) => {
                if xs.iter().all(|x| matches!(x, Val::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in xs.iter().enumerate() {
                        if let Val::C(k) = x {
                            r |= k << (i as u32 * w);
                        }
                    }
                    return Val::C(r);
                }
                let mut acc: Option<Eid> = None;
                for x in xs.iter() {
                    let b = self.e(x, w);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.ar.concat(b, l),
                    });
                }
                self.v(acc.unwrap())
            }
            _ => v.clone(),
        }
    }

    fn map2(&mut self, t: &Ty, a: Val, b: Val, f: &mut dyn FnMut(&mut Self, &Ty, Val, Val) -> R<Val>) -> R<Val> {
        match (t, &a, &b) {
            (Ty::Vec(x, _), Val::A(p), Val::A(q)) => {
                let mut out = vec![];
                for (l, r) in p.iter().zip(q.iter()) {
                    out.push(f(self, x, l.clone(), r.clone())?);
                }
                Ok(Val::A(out.into()))
            }
            _ => f(self, t, a, b),
        }
    }

    fn bin(&mut self, op: BinOp, t: &Ty, a: Val, b: Val) -> R<Val> {
        let w = t.bits();
        if let (Val::C(x), Val::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sext128(x, w) >> (y as u32).min(w - 1)) as u128 & m,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return Err(Stop::Violation("trap".into(), 0, "division by zero".into()));
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sext128(x, w).wrapping_div(sext128(y, w)) as u128 & m,
                        _ => sext128(x, w).wrapping_rem(sext128(y, w)) as u128 & m,
                    }
                }
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    if w == 32 {
                        let (p, q) = (f32c(x), f32c(y));
                        (match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        })
                        .to_bits() as u128
                    } else {
                        let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                        (match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        })
                        .to_bits() as u128
                    }
                }
            };
            return Ok(Val::C(r));
        }
        if op == BinOp::FRem {
            let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
            if matches!(b, Val::C(k) if k & mask(w - 1) == one) {
                // exact; zeros take the sign of the dividend, and infinities give not-a-number
                let t = self.round_float("trunc", w, &a)?;
                let r = self.bin(BinOp::FSub, &Ty::Int(w), a.clone(), t)?;
                return self.with_sign(w, r, &a);
            }
            let x = Val::C(self.conc(&a)? as u128);
            let y = Val::C(self.conc(&b)? as u128);
            return self.bin(op, t, x, y);
        }
        let (x, y) = (self.e(&a, w), self.e(&b, w));
        let ar = &mut self.ar;
        let r = match op {
            BinOp::Add => ar.add(x, y),
            BinOp::Sub => ar.sub(x, y),
            BinOp::Mul => ar.mul(x, y),
            BinOp::And => ar.and(x, y),
            BinOp::Or => ar.or(x, y),
            BinOp::Xor => ar.xor(x, y),
            BinOp::Shl => ar.shl(x, y),
            BinOp::LShr => ar.lshr(x, y),
            BinOp::AShr => ar.ashr(x, y),
            BinOp::UDiv => ar.div(Op::UDiv, x, y),
            BinOp::URem => ar.div(Op::URem, x, y),
            BinOp::SDiv => ar.div(Op::SDiv, x, y),
            BinOp::SRem => ar.div(Op::SRem, x, y),
            BinOp::FAdd => ar.fbin(Op::FAdd, x, y),
            BinOp::FSub => ar.fbin(Op::FSub, x, y),
            BinOp::FMul => ar.fbin(Op::FMul, x, y),
            BinOp::FDiv => ar.fbin(Op::FDiv, x, y),
            BinOp::FRem => unreachable!(),
        };
        if self.ar.mix[r as usize] >= MIX && w == 64 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Xor) {
            // a hash of something symbolic is useless: split the path by what is hashed
            let mut todo = vec![r];
            let mut leaves = vec![];
            let mut seen = HashSet::new();
            while let Some(e) = todo.pop() {
                if !seen.insert(e) {
                    continue;
                }
                let n = *self.ar.n(e);
                if self.ar.mix[e as usize] >= 4 {
                    todo.extend([n.a, n.b, n.c].into_iter().filter(|e| *e != 0));
                } else if self.ar.w(e) > 64 {
                    return Err(Stop::Error("a wide leaf".into()));
                } else if n.op != Op::Const {
                    leaves.push(e);
                }
            }
            leaves.sort();
            for e in leaves {
                self.pick(e)?;
            }
            let x = self.ar.eval(r, &self.model);
            return Ok(Val::C(x));
        }
        Ok(self.v(r))
    }

    fn icmp(&mut self, p: Pred, t: &Ty, a: Val, b: Val) -> R<Val> {
        let w = t.bits();
        if let (Val::C(x), Val::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let s = |v| sext128(v, w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Ok(Val::C(r as u128));
        }
        let (x, y) = (self.e(&a, w), self.e(&b, w));
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let q = ar.eq(x, y);
                ar.not(q)
            }
            Pred::Ugt => ar.ult(y, x),
            Pred::Uge => ar.ule(y, x),
            Pred::Ult => ar.ult(x, y),
            Pred::Ule => ar.ule(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sge => ar.sle(y, x),
            Pred::Slt => ar.slt(x, y),
            Pred::Sle => ar.sle(x, y),
        };
        Ok(self.v(r))
    }

    fn fcmp(&mut self, k: u8, t: &Ty, a: Val, b: Val) -> R<Val> {
        // k: bit 0 equal, bit 1 greater, bit 2 less, bit 3 unordered
        let w = t.bits();
        if let (Val::C(x), Val::C(y)) = (&a, &b) {
            let (p, q) = if w == 32 {
                (f32c(*x) as f64, f32c(*y) as f64)
            } else {
                (f64::from_bits(*x as u64), f64::from_bits(*y as u64))
            };
            let r = (k & 1 != 0 && p == q)
                || (k & 2 != 0 && p > q)
                || (k & 4 != 0 && p < q)
                || (k & 8 != 0 && (p.is_nan() || q.is_nan()));
            return Ok(Val::C(r as u128));
        }
        let (x, y) = (self.e(&a, w), self.e(&b, w));
        let ar = &mut self.ar;
        let mut acc = match k & 7 {
            0 => ar.cst(0, 1),
            1 => ar.fcmp(Op::FEq, x, y),
            2 => ar.fcmp(Op::FLt, y, x),
            3 => ar.fcmp(Op::FLe, y, x),
            4 => ar.fcmp(Op::FLt, x, y),
            5 => ar.fcmp(Op::FLe, x, y),
            6 => {
                // ordered and different, or (with bit 3) anything but equal
                let e = ar.fcmp(Op::FEq, x, y);
                let n = ar.not(e);
                if k & 8 != 0 {
                    return Ok(self.v(n));
                }
                let u = ar.fcmp(Op::FUno, x, y);
                let o = ar.not(u);
                ar.and(n, o)
            }
            _ => {
                if k & 8 != 0 {
                    ar.cst(1, 1)
                } else {
                    let u = ar.fcmp(Op::FUno, x, y);
                    ar.not(u)
                }
            }
        };
        if k & 8 != 0 && k & 7 != 7 {
            let u = ar.fcmp(Op::FUno, x, y);
            acc = ar.or(acc, u);
        }
        Ok(self.v(acc))
    }

    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, v: Val) -> R<Val> {
        if op == CastOp::Bitcast {
            return match (from, to) {
                (Ty::Vec(x, _), Ty::Vec(y, n)) => {
                    if x.bits() == y.bits() {
                        return Ok(v);
                    }
                    let j = self.join(&v, x.bits());
                    self.split(&j, *n as usize, y.bits())
                }
                (Ty::Vec(x, _), _) => Ok(self.join(&v, x.bits())),
                (_, Ty::Vec(y, n)) => self.split(&v, *n as usize, y.bits()),
                _ => Ok(v),
            };
        }
        if let (Ty::Vec(x, _), Ty::Vec(y, _), Val::A(xs)) = (from, to, &v) {
            let mut out = vec![];
            for k in xs.iter() {
                out.push(self.cast(op, x, y, k.clone())?);
            }
            return Ok(Val::A(out.into()));
        }
        let (fw, w) = (from.bits(), to.bits());
        if let Val::C(x) = v {
            let n = |o| crate::expr::Node { op: o, w: w as u16, a: 0, b: 0, c: 0, k: 0 };
            return Ok(Val::C(match op {
                CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => x & mask(w),
                CastOp::SExt => sext128(x, fw) as u128 & mask(w),
                CastOp::SiToFp => crate::expr::apply(&n(Op::SiToFp), fw, x, 0, 0),
                CastOp::UiToFp => crate::expr::apply(&n(Op::UiToFp), fw, x, 0, 0),
                CastOp::FpToSi => crate::expr::apply(&n(Op::FpToSiSat), fw, x, 0, 0),
                CastOp::FpToUi => crate::expr::apply(&n(Op::FpToUiSat), fw, x, 0, 0),
                CastOp::FpTrunc | CastOp::FpExt => crate::expr::apply(&n(Op::FpConv), fw, x, 0, 0),
                CastOp::Bitcast => x,
            }));
        }
        let e = self.e(&v, fw);
        let r = match op {
            CastOp::Trunc => self.ar.extract(e, 0, w),
            CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => self.ar.zext(e, w),
            CastOp::SExt => self.ar.sext(e, w),
            CastOp::Bitcast => e,
            _ => self.ar.fcast(op, e, w),
        };
        Ok(self.v(r))
    }

    fn select(&mut self, t: &Ty, c: &Val, a: Val, b: Val, ct: &Ty) -> R<Val> {
        if let (Ty::Vec(_, _), Val::A(cs)) = (ct, c) {
            if let (Ty::Vec(x, _), Val::A(p), Val::A(q)) = (t, &a, &b) {
                let mut out = vec![];
                for i in 0..cs.len() {
                    out.push(self.select(x, &cs[i].clone(), p[i].clone(), q[i].clone(), &Ty::Int(1))?);
                }
                return Ok(Val::A(out.into()));
            }
        }
        match c {
            Val::C(k) => Ok(if *k == 1 { a } else { b }),
            Val::S(e) => {
                if *t == Ty::Ptr || matches!(a, Val::A(_)) {
                    let k = self.branch(*e)?;
                    return Ok(if k { a } else { b });
                }
                let w = t.bits();
                let (x, y) = (self.e(&a, w), self.e(&b, w));
                let r = self.ar.ite(*e, x, y);
                Ok(self.v(r))
            }
            _ => Err(Stop::Error("select".into())),
        }
    }

    // control

    fn enter(&mut self, f: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        if self.frames.len() >= self.sh.limits.max_depth {
            return Err(Stop::Violation("depth".into(), 0, "the call stack keeps growing".into()));
        }
        self.funcs.insert(f);
        let func = &self.m.funcs[f as usize];
        let base = self.regs.len();
        self.regs.resize(base + func.nregs as usize, Val::C(0));
        for (p, a) in func.params.iter().zip(args) {
            self.regs[base + *p as usize] = a;
        }
        self.frames.push(Frame {
            f,
            block: 0,
            ip: 0,
            base,
            dst,
            normal,
            stack_mark: self.stack.len(),
            sp: self.sp,
        });
        Ok(())
    }

    fn leave(&mut self, v: Option<Val>) -> bool {
        let fr = self.frames.pop().unwrap();
        self.regs.truncate(fr.base);
        self.stack.truncate(fr.stack_mark);
        self.sp = fr.sp;
        if self.frames.is_empty() {
            return true;
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(d, v);
        }
        if let Some(b) = fr.normal {
            self.jump(b);
        }
        false
    }

    fn jump(&mut self, to: u32) {
        let fr = self.frames.last().unwrap();
        let from = fr.block as u32;
        let func = &self.m.funcs[fr.f as usize];
        let b = &func.blocks[to as usize];
        if !b.phi_preds.is_empty() {
            let k = b.phi_preds.iter().position(|p| *p == from).expect("phi predecessor");
            let row = &b.phi_rows[k];
            if row.len() == 1 {
                let v = self.get(&row[0].1);
                self.set(row[0].0, v);
            } else {
                let vals: Vec<Val> = row.iter().map(|x| self.get(&x.1)).collect();
                for (x, v) in row.iter().zip(vals) {
                    self.set(x.0, v);
                }
            }
        }
        let fr = self.frames.last_mut().unwrap();
        fr.block = to as usize;
        fr.ip = 0;
    }

    fn go(&mut self) -> R<()> {
        let m = self.m;
        loop {
            let fr = self.frames.last_mut().unwrap();
            let func = &m.funcs[fr.f as usize];
            let ins = &func.blocks[fr.block].ins[fr.ip];
            fr.ip += 1;
            self.steps += 1;
            if self.steps & 0xfff == 0 {
                if self.steps > self.sh.limits.max_steps {
                    return Err(Stop::Violation("steps".into(), 0, "no end within the step limit".into()));
                }
                if self.sh.stop.load(Ordering::Relaxed) || self.sh.over() {
                    return Err(Stop::Error("time limit".into()));
                }
            }
            match ins {
                Ins::Nop => {}
                Ins::Bin(op, t, d, a, b) => {
                    let (x, y) = (self.get(a), self.get(b));
                    let r = if let Ty::Vec(..) = t {
                        let op = *op;
                        self.map2(t, x, y, &mut |s, t, p, q| s.bin(op, t, p, q))?
                    } else {
                        self.bin(*op, t, x, y)?
                    };
                    self.set(*d, r);
                }
                Ins::FNeg(t, d, a) => {
                    let w = t.bits();
                    let x = self.get(a);
                    let r = self.bin(BinOp::Xor, &Ty::Int(w), x, Val::C(1u128 << (w - 1)))?;
                    self.set(*d, r);
                }
                Ins::Icmp(p, t, d, a, b) => {
                    let (x, y) = (self.get(a), self.get(b));
                    let r = if let Ty::Vec(..) = t {
                        let p = *p;
                        self.map2(t, x, y, &mut |s, t, l, r| s.icmp(p, t, l, r))?
                    } else {
                        self.icmp(*p, t, x, y)?
                    };
                    self.set(*d, r);
                }
                Ins::Fcmp(k, t, d, a, b) => {
                    let (x, y) = (self.get(a), self.get(b));
                    let r = self.fcmp(*k, t, x, y)?;
                    self.set(*d, r);
                }
                Ins::Cast(op, f, t, d, a) => {
                    let x = self.get(a);
                    let r = self.cast(*op, f, t, x)?;
                    self.set(*d, r);
                }
                Ins::Load(t, d, p) => {
                    let a = self.get(p);
                    let r = self.load_at(t, &a)?;
                    self.set(*d, r);
                }
                Ins::Store(t, v, p) => {
                    let (v, p) = (self.get(v), self.get(p));
                    let a = self.conc(&p)?;
                    self.store(t, a, &v)?;
                }
                Ins::Gep(d, b, off, terms) => {
                    let base = self.get(b);
                    let mut acc = match base {
                        Val::C(x) => Val::C((x as u64).wrapping_add(*off as u64) as u128),
                        v => self.bin(BinOp::Add, &Ty::Int(64), v, Val::C(*off as u64 as u128))?,
                    };
                    for (o, w, scale) in terms.iter() {
                        let i = self.get(o);
                        let i64v = match i {
                            Val::C(x) => Val::C(sext128(x, *w) as u64 as u128),
                            v => self.cast(CastOp::SExt, &Ty::Int(*w), &Ty::Int(64), v)?,
                        };
                        let sc = self.bin(BinOp::Mul, &Ty::Int(64), i64v, Val::C(*scale as u64 as u128))?;
                        acc = self.bin(BinOp::Add, &Ty::Int(64), acc, sc)?;
                    }
                    self.set(*d, acc);
                }
                Ins::Alloca(d, n, al) => {
                    let a = (*al).max(16);
                    self.sp = (self.sp + a - 1) / a * a;
                    let base = self.sp;
                    self.sp += n.max(&1) + 16;
                    self.stack.push(Obj { base, size: *n, data: vec![0; *n as usize], tags: vec![], live: true });
                    self.set(*d, Val::C(base as u128));
                }
                Ins::Select(t, d, c, a, b, ct) => {
                    let (c, x, y) = (self.get(c), self.get(a), self.get(b));
                    let r = self.select(t, &c, x, y, ct)?;
                    self.set(*d, r);
                }
                Ins::Extract(d, a, ix) => {
                    let mut v = self.get(a);
                    for i in ix {
                        v = match &v {
                            Val::A(xs) => xs[*i as usize].clone(),
                            _ => Val::C(0),
                        };
                    }
                    self.set(*d, v);
                }
                Ins::Insert(d, t, a, v, ix) => {
                    let (a, v) = (self.get(a), self.get(v));
                    let r = insert(m, t, &a, &v, ix);
                    self.set(*d, r);
                }
                Ins::ExtractElem(d, a, i) => {
                    let (a, i) = (self.get(a), self.get(i));
                    let k = self.conc(&i)? as usize;
                    let r = match &a {
                        Val::A(xs) => xs[k].clone(),
                        _ => Val::C(0),
                    };
                    self.set(*d, r);
                }
                Ins::InsertElem(d, t, a, v, i) => {
                    let (a, v, i) = (self.get(a), self.get(v), self.get(i));
                    let k = self.conc(&i)? as u32;
                    let r = insert(m, t, &a, &v, &[k]);
                    self.set(*d, r);
                }
                Ins::Shuffle(d, n, a, b, mk) => {
                    let (a, b, mk) = (self.get(a), self.get(b), self.get(mk));
                    let mut out = vec![];
                    if let (Val::A(x), Val::A(y), Val::A(k)) = (&a, &b, &mk) {
                        for i in k.iter() {
                            if let Val::C(i) = i {
                                let i = *i as usize;
                                out.push(if i < *n as usize {
                                    x[i].clone()
                                } else {
                                    y[(i - *n as usize) % y.len()].clone()
                                });
                            }
                        }
                    }
                    self.set(*d, Val::A(out.into()));
                }
                Ins::Freeze(d, a) => {
                    let v = self.get(a);
                    self.set(*d, v);
                }
                Ins::Br(b) => self.jump(*b),
                Ins::CondBr(c, a, b) => {
                    let c = self.get(c);
                    let k = match c {
                        Val::C(x) => x == 1,
                        Val::S(e) => self.branch(e)?,
                        _ => return Err(Stop::Error("branch".into())),
                    };
                    self.jump(if k { *a } else { *b });
                }
                Ins::Switch(t, v, d, cases) => {
                    let x = self.get(v);
                    let to = match x {
                        Val::C(k) => cases
                            .iter()
                            .find(|c| matches!(&c.0, Opnd::K(Val::C(y)) if *y == k))
                            .map_or(*d, |c| c.1),
                        Val::S(e) => self.switch(e, t.bits(), *d, cases)?,
                        _ => return Err(Stop::Error("switch".into())),
                    };
                    self.jump(to);
                }
                Ins::Ret(o) => {
                    let v = o.as_ref().map(|o| self.get(o));
                    if self.leave(v) {
                        return Ok(());
                    }
                }
                Ins::Unreachable => {
                    return Err(Stop::Violation("unreachable".into(), 0, "unreachable code".into()));
                }
                Ins::Call(dst, rt, callee, args, normal) => self.call(*dst, rt, callee, args, *normal)?,
                Ins::AtomicRmw(op, t, d, p, v) => {
                    let (p, v) = (self.get(p), self.get(v));
                    let a = self.conc(&p)?;
                    let old = self.load(t, a)?;
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(BinOp::Add, t, old.clone(), v)?,
                        "sub" => self.bin(BinOp::Sub, t, old.clone(), v)?,
                        "and" => self.bin(BinOp::And, t, old.clone(), v)?,
                        "or" => self.bin(BinOp::Or, t, old.clone(), v)?,
                        "xor" => self.bin(BinOp::Xor, t, old.clone(), v)?,
                        _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                    };
                    self.store(t, a, &new)?;
                    self.set(*d, old);
                }
                Ins::CmpXchg(t, d, p, c, n) => {
                    let (p, c, n) = (self.get(p), self.get(c), self.get(n));
                    let a = self.conc(&p)?;
                    let old = self.load(t, a)?;
                    let same = self.icmp(Pred::Eq, t, old.clone(), c)?;
                    let k = match same {
                        Val::C(x) => x == 1,
                        Val::S(e) => self.branch(e)?,
                        _ => false,
                    };
                    if k {
                        self.store(t, a, &n)?;
                    }
                    self.set(*d, Val::A(vec![old, Val::C(k as u128)].into()));
                }
            }
        }
    }

    fn switch(&mut self, e: Eid, w: u32, default: u32, cases: &[(Opnd, u32)]) -> R<u32> {
        // one condition per distinct target
        let mut groups: Vec<(u32, Vec<u128>)> = vec![];
        for (o, t) in cases {
            if let Opnd::K(Val::C(k)) = o {
                match groups.iter_mut().find(|g| g.0 == *t) {
                    Some(g) => g.1.push(*k),
                    None => groups.push((*t, vec![*k])),
                }
            }
        }
        let mut conds: Vec<(u32, Eid)> = vec![];
        let mut rest = self.ar.cst(1, 1);
        for (t, ks) in groups.iter() {
            let mut any = self.ar.cst(0, 1);
            // consecutive values become one range
            let mut ks = ks.clone();
            ks.sort_unstable();
            let mut i = 0;
            while i < ks.len() {
                let mut j = i;
                while j + 1 < ks.len() && ks[j + 1] == ks[j] + 1 {
                    j += 1;
                }
                let c = if i == j {
                    let k = self.ar.cst(ks[i], w);
                    self.ar.eq(e, k)
                } else {
                    let lo = self.ar.cst(ks[i], w);
                    let hi = self.ar.cst(ks[j], w);
                    let x = self.ar.ule(lo, e);
                    let y = self.ar.ule(e, hi);
                    self.ar.and(x, y)
                };
                any = self.ar.or(any, c);
                i = j + 1;
            }
            if *t == default {
                continue;
            }
            let n = self.ar.not(any);
            rest = self.ar.and(rest, n);
            conds.push((*t, any));
        }
        conds.push((default, rest));
        if let Some(d) = self.decided() {
            let c = conds.iter().find(|x| x.0 as u64 == d.v).unwrap().1;
            if d.implied {
                self.known.insert(c);
            } else {
                self.add_con(c);
            }
            return Ok(d.v as u32);
        }
        let mut mine = None;
        let mut others = 0;
        for (t, c) in conds.iter() {
            if self.ar.eval(*c, &self.model) == 1 {
                mine = Some((*t, *c));
                continue;
            }
            match self.query(*c) {
                (Sat::Unsat, _) => {}
                (Sat::Sat, Some(m)) => {
                    others += 1;
                    self.fork(Dec { v: *t as u64, implied: false }, m);
                }
                _ => {
                    others += 1;
                    *self.soft.entry("undecided switch".into()).or_insert(0) += 1;
                }
            }
        }
        let (t, c) = mine.expect("a switch target");
        self.record(t as u64, others == 0);
        if others == 0 {
            self.known.insert(c);
        } else {
            self.add_con(c);
        }
        Ok(t)
    }

    fn str_at(&mut self, a: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n.min(300) {
            match self.load_scalar(a + i, 1, 8) {
                Ok(Val::C(b)) => s.push(b as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }

    /// Describe a panic by the source location its entry point was given.
    fn location(&mut self, args: &[(Ty, Opnd)]) -> String {
        let vals: Vec<Val> = args.iter().map(|a| self.get(&a.1)).collect();
        for (i, v) in vals.iter().enumerate().rev() {
            if args[i].0 != Ty::Ptr {
                continue;
            }
            if let Val::C(a) = v {
                let a = *a as u64;
                if self.rom(a, 24).is_none() {
                    continue;
                }
                let (p, n, line) = match (
                    self.load_scalar(a, 8, 64),
                    self.load_scalar(a + 8, 8, 64),
                    self.load_scalar(a + 16, 4, 32),
                ) {
                    (Ok(Val::C(p)), Ok(Val::C(n)), Ok(Val::C(l))) => (p as u64, n as u64, l),
                    _ => continue,
                };
                if self.rom(p, n).is_none() || n == 0 || n > 300 {
                    continue;
                }
                let f = self.str_at(p, n);
                if f.contains(".rs") {
                    return format!("{f}:{line}");
                }
            }
        }
        String::new()
    }

    fn call(
        &mut self,
        dst: Option<u32>,
        rt: &Ty,
        callee: &Callee,
        args: &[(Ty, Opnd)],
        normal: Option<u32>,
    ) -> R<()> {
        let f = match callee {
            Callee::Func(f) => *f,
            Callee::Reg(o) => {
                let v = self.get(o);
                let a = self.conc(&v)?;
                let i = a.wrapping_sub(FBASE) / 16;
                if a < FBASE || i as usize >= self.m.funcs.len() || a % 16 != 0 {
                    return self.bad("call of an invalid function", a);
                }
                i as u32
            }
            Callee::Name(n) => return Err(Stop::Error(format!("unresolved {n}"))),
        };
        let kind = self.sh.kinds[f as usize];
        if kind == Intercept::HashOne {
            // a hash of a symbolic key is useless: split the path by the key first
            for (t, o) in args {
                if *t == Ty::Ptr {
                    if let Val::C(a) = self.get(o) {
                        self.ground(a as u64)?;
                    }
                } else if let Ty::Int(_) = t {
                    if let Val::S(e) = self.get(o) {
                        self.pick(e)?;
                    }
                }
            }
        }
        if matches!(kind, Intercept::None | Intercept::HashOne) {
            let a: Vec<Val> = args.iter().map(|a| self.get(&a.1)).collect();
            if self.m.funcs[f as usize].params.len() != a.len() {
                return Err(Stop::Error(format!("argument count of {}", self.m.funcs[f as usize].name)));
            }
            return self.enter(f, a, dst, normal);
        }
        let r = self.intercept(kind, f, rt, args)?;
        if let (Some(d), Some(v)) = (dst, r) {
            self.set(d, v);
        }
        if let Some(b) = normal {
            self.jump(b);
        }
        Ok(())
    }

    fn ground(&mut self, a: u64) -> R<()> {
        let Some((base, size)) = self.extent(a) else { return Ok(()) };
        let n = (base + size - a).min(16);
        for i in 0..n {
            if let Val::S(e) = self.load_scalar(a + i, 1, 8)? {
                let v = self.pick(e)?;
                self.store_scalar(a + i, 1, &Val::C(v as u128))?;
            }
        }
        Ok(())
    }

    fn intercept(&mut self, kind: Intercept, f: u32, rt: &Ty, args: &[(Ty, Opnd)]) -> R<Option<Val>> {
        let arg = |s: &Self, i: usize| s.get(&args[i].1);
        Ok(match kind {
            Intercept::Malloc => {
                let n = arg(self, 0);
                Some(Val::C(self.alloc(&n, 16, false)? as u128))
            }
            Intercept::Calloc => {
                let (a, b) = (arg(self, 0), arg(self, 1));
                let n = self.bin(BinOp::Mul, &Ty::Int(64), a, b)?;
                Some(Val::C(self.alloc(&n, 16, true)? as u128))
            }
            Intercept::PosixMemalign => {
                let (p, al, n) = (arg(self, 0), arg(self, 1), arg(self, 2));
                let al = self.conc(&al)?;
                let a = self.alloc(&n, al, false)?;
                let p = self.conc(&p)?;
                self.store_scalar(p, 8, &Val::C(a as u128))?;
                Some(Val::C(0))
            }
            Intercept::Realloc => {
                let (p, n) = (arg(self, 0), arg(self, 1));
                let p = self.conc(&p)?;
                let a = self.alloc(&n, 16, false)?;
                if p != 0 {
                    let i = self.heap.partition_point(|o| o.base <= p);
                    let len = if i > 0 { self.heap[i - 1].data.len() as u64 } else { 0 };
                    let cap = match &n {
                        Val::C(k) => *k as u64,
                        _ => u64::MAX,
                    };
                    self.copy(a, p, len.min(cap))?;
                    self.release(p)?;
                }
                Some(Val::C(a as u128))
            }
            Intercept::Free => {
                let p = arg(self, 0);
                let p = self.conc(&p)?;
                self.release(p)?;
                None
            }
            Intercept::Memcpy => {
                let (d, s, n) = (arg(self, 0), arg(self, 1), arg(self, 2));
                let n = self.conc(&n)?;
                if n > 0 {
                    let d = self.conc(&d)?;
                    let s = self.conc(&s)?;
                    self.copy(d, s, n)?;
                }
                Some(d)
            }
            Intercept::Memset => {
                let (d, v, n) = (arg(self, 0), arg(self, 1), arg(self, 2));
                let n = self.conc(&n)?;
                if n > 1 << 26 {
                    return Err(Stop::Error("fill of an unreasonable length".into()));
                }
                if n > 0 {
                    let a = self.conc(&d)?;
                    match v {
                        Val::C(b) => self.with_obj(a, n, true, |o, off| {
                            let n = n as usize;
                            o.ensure(off + n);
                            o.data[off..off + n].fill(b as u8);
                            if !o.tags.is_empty() {
                                o.tags[off..off + n].fill(0);
                            }
                        })?,
                        v => {
                            for i in 0..n {
                                self.store_scalar(a + i, 1, &v)?;
                            }
                        }
                    }
                }
                Some(d)
            }
            Intercept::Bcmp | Intercept::Memcmp => {
                let (a, b, n) = (arg(self, 0), arg(self, 1), arg(self, 2));
                let n = self.conc(&n)?;
                let a = self.conc(&a)?;
                let b = self.conc(&b)?;
                let (x, y) = (self.bytes_of(a, n)?, self.bytes_of(b, n)?);
                let mut r = self.ar.cst(0, 32);
                for (p, q) in x.into_iter().zip(y).rev() {
                    let same = self.ar.eq(p, q);
                    let lt = self.ar.ult(p, q);
                    let (m1, p1) = (self.ar.cst(mask(32), 32), self.ar.cst(1, 32));
                    let d = self.ar.ite(lt, m1, p1);
                    r = if kind == Intercept::Bcmp { self.ar.ite(same, r, p1) } else { self.ar.ite(same, r, d) };
                }
                Some(self.v(r))
            }
            Intercept::Strlen => {
                let a = arg(self, 0);
                let a = self.conc(&a)?;
                let mut n = 0;
                loop {
                    let b = self.load_scalar(a + n, 1, 8)?;
                    if self.conc(&b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n as u128))
            }
            Intercept::Zero => Some(Val::C(0)),
            // there is one thread, and it never exits
            Intercept::KeyCreate => {
                let p = arg(self, 0);
                let p = self.conc(&p)?;
                self.store(&Ty::Int(32), p, &Val::C(1))?;
                Some(Val::C(0))
            }
            // what is printed goes nowhere
            Intercept::Write => Some(arg(self, 2)),
            Intercept::Writev => {
                let (p, n) = (arg(self, 1), arg(self, 2));
                let p = self.conc(&p)?;
                let n = self.conc(&n)? as u32 as u64;
                let mut sum = Val::C(0);
                for i in 0..n {
                    let k = self.load(&Ty::Int(64), p + 16 * i + 8)?;
                    sum = self.bin(BinOp::Add, &Ty::Int(64), sum, k)?;
                }
                Some(sum)
            }
            Intercept::RandomKeys => Some(Val::A(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)].into())),
            Intercept::Panic => {
                let at = self.location(args);
                let name = self.m.funcs[f as usize].name.clone();
                return Err(Stop::Violation("panic".into(), 0, format!("{at} {name}")));
            }
            Intercept::Abort => return Err(Stop::Violation("abort".into(), 0, "abort".into())),
            Intercept::SxBytes => {
                let (p, n) = (arg(self, 0), arg(self, 1));
                let p = self.conc(&p)?;
                let n = self.conc(&n)?;
                for i in 0..n {
                    if self.nsyms >= MAX_SYMS {
                        return Err(Stop::Error("too many symbols".into()));
                    }
                    let e = self.ar.sym(self.nsyms);
                    self.nsyms += 1;
                    self.store_scalar(p + i, 1, &Val::S(e))?;
                }
                None
            }
            Intercept::SxAssume => {
                let c = arg(self, 0);
                let e = self.e(&c, 1);
                self.assume(e)?;
                None
            }
            Intercept::SxCheck => {
                let (c, id) = (arg(self, 0), arg(self, 1));
                let id = self.conc(&id)?;
                let e = self.e(&c, 1);
                self.assertion(e, id)?;
                None
            }
            Intercept::SxReach => {
                let id = arg(self, 0);
                let id = self.conc(&id)?;
                self.reached.push(id);
                None
            }
            Intercept::SxConc => {
                let v = arg(self, 0);
                Some(Val::C(self.conc(&v)? as u128))
            }
            Intercept::SxObserve => {
                let v = arg(self, 0);
                self.obs.push(v);
                None
            }
            Intercept::SxSymbolic => Some(Val::C(1)),
            Intercept::SxAllocated => Some(self.asked.clone()),
            Intercept::Llvm => return self.llvm(f, rt, args),
            Intercept::Unknown => {
                let name = self.m.funcs[f as usize].name.as_str();
                let ats: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                let vals: Vec<Val> = args.iter().map(|a| self.get(&a.1)).collect();
                if let Some(r) = self.libm(name, &ats, &vals)? {
                    return Ok(Some(r));
                }
                return Err(Stop::Error(format!("call of external {}", self.m.funcs[f as usize].name)))
            }
            Intercept::None | Intercept::HashOne => unreachable!(),
        })
    }

    /// The magnitude of the first with the sign of the second.
    fn with_sign(&mut self, w: u32, a: Val, b: &Val) -> R<Val> {
        let int = Ty::Int(w);
        let a = self.bin(BinOp::And, &int, a, Val::C(mask(w - 1)))?;
        let b = self.bin(BinOp::And, &int, b.clone(), Val::C(1u128 << (w - 1)))?;
        self.bin(BinOp::Or, &int, a, b)
    }

    /// Round to an integral value.
    fn round_float(&mut self, kind: &str, w: u32, x: &Val) -> R<Val> {
        let int = Ty::Int(w);
        let bit = Ty::Int(1);
        let lit = |f: f64| Val::C(if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 });
        let limit = if w == 32 { 8388608.0 } else { 4503599627370496.0 };
        let i = self.cast(CastOp::FpToSi, &int, &Ty::Int(64), x.clone())?;
        let t = self.cast(CastOp::SiToFp, &Ty::Int(64), &int, i.clone())?;
        let away = match kind {
            "trunc" => None,
            "floor" => Some(self.fcmp(2, &int, t.clone(), x.clone())?),
            "ceil" => Some(self.fcmp(4, &int, t.clone(), x.clone())?),
            _ => {
                let d = self.bin(BinOp::FSub, &int, x.clone(), t.clone())?;
                let d = self.bin(BinOp::And, &int, d, Val::C(mask(w - 1)))?;
                if kind == "round" {
                    Some(self.fcmp(3, &int, d, lit(0.5))?)
                } else {
                    let more = self.fcmp(2, &int, d.clone(), lit(0.5))?;
                    let half = self.fcmp(1, &int, d, lit(0.5))?;
                    let odd = self.cast(CastOp::Trunc, &Ty::Int(64), &bit, i)?;
                    let tie = self.bin(BinOp::And, &bit, half, odd)?;
                    Some(self.bin(BinOp::Or, &bit, more, tie)?)
                }
            }
        };
        let mut r = t.clone();
        if let Some(away) = away {
            let one = match kind {
                "floor" => lit(-1.0),
                "ceil" => lit(1.0),
                _ => self.with_sign(w, lit(1.0), x)?,
            };
            let u = self.bin(BinOp::FAdd, &int, t.clone(), one)?;
            r = self.select(&int, &away, u, t, &bit)?;
        }
        let r = self.with_sign(w, r, x)?;
        let m = self.bin(BinOp::And, &int, x.clone(), Val::C(mask(w - 1)))?;
        let small = self.fcmp(4, &int, m, lit(limit))?;
        self.select(&int, &small, r, x.clone(), &bit)
    }

    /// A function of the mathematics library, for each of the values of its arguments.
    fn libm(&mut self, name: &str, ats: &[Ty], v: &[Val]) -> R<Option<Val>> {
        let w = ats.first().map_or(0, |t| t.bits());
        let (base, w) = match name {
            "__powisf2" => ("powi", 32),
            "__powidf2" => ("powi", 64),
            _ if w == 32 => (name.strip_suffix('f').unwrap_or(name), 32),
            _ => (name, w),
        };
        if w != 32 && w != 64 {
            return Ok(None);
        }
        let kind = match base {
            "rint" | "nearbyint" => "roundeven",
            k => k,
        };
        if matches!(kind, "floor" | "ceil" | "trunc" | "round" | "roundeven") {
            return Ok(Some(self.round_float(kind, w, &v[0])?));
        }
        if base == "fabs" {
            return Ok(Some(self.bin(BinOp::And, &Ty::Int(w), v[0].clone(), Val::C(mask(w - 1)))?));
        }
        if matches!(base, "fmin" | "fmax" | "minnum" | "maxnum" | "minimumnum" | "maximumnum") {
            let (int, bit) = (Ty::Int(w), Ty::Int(1));
            let k = if base.contains("min") { 4 } else { 2 };
            let first = self.fcmp(k, &int, v[0].clone(), v[1].clone())?;
            let only = self.fcmp(8, &int, v[1].clone(), v[1].clone())?;
            let c = self.bin(BinOp::Or, &bit, first, only)?;
            return Ok(Some(self.select(&int, &c, v[0].clone(), v[1].clone(), &bit)?));
        }
        let known = matches!(
            base,
            "powi" | "pow" | "exp" | "exp2" | "exp10" | "log" | "log2" | "log10" | "fma" | "fmuladd" | "cbrt" | "hypot"
        );
        if !known {
            return Ok(None);
        }
        let mut x = [0u64; 3];
        for (i, v) in v.iter().take(3).enumerate() {
            x[i] = self.conc(v)?;
        }
        macro_rules! go(
            ($t:ident, $b:ident) => ({
                let p = |i: usize| $t::from_bits(x[i] as $b);
                let r = match base {
                    "powi" => p(0).powi(x[1] as i32),
                    "pow" => p(0).powf(p(1)),
                    "exp" => p(0).exp(),
                    "exp2" => p(0).exp2(),
                    "exp10" => (10.0 as $t).powf(p(0)),
                    "log" => p(0).ln(),
                    "log2" => p(0).log2(),
                    "log10" => p(0).log10(),
                    "cbrt" => p(0).cbrt(),
                    "hypot" => p(0).hypot(p(1)),
                    _ => p(0).mul_add(p(1), p(2)),
                };
                r.to_bits() as u128
            });
        );
        Ok(Some(Val::C(if w == 32 { go!(f32, u32) } else { go!(f64, u64) })))
    }

    fn llvm(&mut self, f: u32, rt: &Ty, args: &[(Ty, Opnd)]) -> R<Option<Val>> {
        let name = self.m.funcs[f as usize].name.as_str();
        let mut parts = name[5..].split('.');
        let p0 = parts.next().unwrap_or("");
        let p1 = parts.next().unwrap_or("");
        let vals: Vec<Val> = args.iter().map(|a| self.get(&a.1)).collect();
        if let Ty::Vec(t, n) = rt {
            // elementwise
            let mut out = vec![];
            for i in 0..*n as usize {
                let vs: Vec<Val> = vals
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                let ats: Vec<Ty> = args
                    .iter()
                    .map(|a| match &a.0 {
                        Ty::Vec(t, _) => (**t).clone(),
                        t => t.clone(),
                    })
                    .collect();
                out.push(self.llvm1(name, p0, p1, t, &ats, &vs)?.unwrap());
            }
            return Ok(Some(Val::A(out.into())));
        }
        let ats: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
        self.llvm1(name, p0, p1, rt, &ats, &vals)
    }

    fn llvm1(&mut self, name: &str, p0: &str, p1: &str, rt: &Ty, ats: &[Ty], v: &[Val]) -> R<Option<Val>> {
        let w = ats.first().map_or(0, |t| t.bits());
        let int = Ty::Int(w);
        let minmax = |s: &mut Self, p: Pred| -> R<Option<Val>> {
            let c = s.icmp(p, &int, v[0].clone(), v[1].clone())?;
            Ok(Some(s.select(&int, &c, v[0].clone(), v[1].clone(), &Ty::Int(1))?))
        };
        Ok(match p0 {
            "lifetime" | "assume" | "experimental" | "x86" | "dbg" | "prefetch" | "va_start" | "va_end"
            | "invariant" | "donothing" => None,
            "expect" | "threadlocal" | "ssa" | "launder" | "strip" => Some(v[0].clone()),
            "is" if p1 == "constant" => Some(Val::C(0)),
            "is" if p1 == "fpclass" => {
                let classes = self.conc(&v[1])?;
                let (bit, fraction) = (Ty::Int(1), if w == 32 { 23 } else { 52 });
                let one = |k: u32| Val::C(1u128 << k);
                let sign = self.bin(BinOp::LShr, &int, v[0].clone(), Val::C(w as u128 - 1))?;
                let sign = self.cast(CastOp::Trunc, &int, &bit, sign)?;
                let m = self.bin(BinOp::And, &int, v[0].clone(), Val::C(mask(w - 1)))?;
                let infinity = mask(w - 1) & !mask(fraction);
                let mut parts = vec![];
                // signalling and quiet not-a-number
                let least = self.icmp(Pred::Ugt, &int, m.clone(), Val::C(infinity))?;
                let quiet = self.icmp(Pred::Uge, &int, m.clone(), Val::C(infinity | 1 << (fraction - 1)))?;
                let signalling = self.bin(BinOp::Xor, &bit, quiet.clone(), Val::C(1))?;
                parts.push(self.bin(BinOp::And, &bit, least, signalling)?);
                parts.push(quiet);
                // infinity, normal, subnormal, and zero
                let mut magnitudes = vec![self.icmp(Pred::Eq, &int, m.clone(), Val::C(infinity))?];
                let normal = self.icmp(Pred::Uge, &int, m.clone(), one(fraction))?;
                let finite = self.icmp(Pred::Ult, &int, m.clone(), Val::C(infinity))?;
                magnitudes.push(self.bin(BinOp::And, &bit, normal.clone(), finite)?);
                let zero = self.icmp(Pred::Eq, &int, m, Val::C(0))?;
                let rest = self.bin(BinOp::Or, &bit, normal, zero.clone())?;
                magnitudes.push(self.bin(BinOp::Xor, &bit, rest, Val::C(1))?);
                magnitudes.push(zero);
                for magnitude in magnitudes.iter() {
                    parts.push(self.bin(BinOp::And, &bit, magnitude.clone(), sign.clone())?);
                }
                let positive = self.bin(BinOp::Xor, &bit, sign, Val::C(1))?;
                for magnitude in magnitudes.iter().rev() {
                    parts.push(self.bin(BinOp::And, &bit, magnitude.clone(), positive.clone())?);
                }
                let mut result = Val::C(0);
                for (k, part) in parts.into_iter().enumerate() {
                    if classes >> k & 1 == 1 {
                        result = self.bin(BinOp::Or, &bit, result, part)?;
                    }
                }
                Some(result)
            }
            "umax" => minmax(self, Pred::Ugt)?,
            "umin" => minmax(self, Pred::Ult)?,
            "smax" => minmax(self, Pred::Sgt)?,
            "smin" => minmax(self, Pred::Slt)?,
            "abs" => {
                let neg = self.bin(BinOp::Sub, &int, Val::C(0), v[0].clone())?;
                let c = self.icmp(Pred::Slt, &int, v[0].clone(), Val::C(0))?;
                Some(self.select(&int, &c, neg, v[0].clone(), &Ty::Int(1))?)
            }
            "uadd" | "usub" if p1 == "sat" => {
                let add = p0 == "uadd";
                let r = self.bin(if add { BinOp::Add } else { BinOp::Sub }, &int, v[0].clone(), v[1].clone())?;
                let c = if add {
                    self.icmp(Pred::Ult, &int, r.clone(), v[0].clone())?
                } else {
                    self.icmp(Pred::Ult, &int, v[0].clone(), v[1].clone())?
                };
                let lim = Val::C(if add { mask(w) } else { 0 });
                Some(self.select(&int, &c, lim, r, &Ty::Int(1))?)
            }
            "sadd" | "ssub" if p1 == "sat" => {
                let op = if p0 == "sadd" { BinOp::Add } else { BinOp::Sub };
                let wide = Ty::Int(w + 1);
                let a = self.cast(CastOp::SExt, &int, &wide, v[0].clone())?;
                let b = self.cast(CastOp::SExt, &int, &wide, v[1].clone())?;
                let r = self.bin(op, &wide, a, b)?;
                let hi = Val::C(mask(w - 1));
                let lo = Val::C((!mask(w - 1)) & mask(w + 1));
                let c = self.icmp(Pred::Sgt, &wide, r.clone(), hi.clone())?;
                let x = self.select(&wide, &c, hi, r.clone(), &Ty::Int(1))?;
                let c = self.icmp(Pred::Slt, &wide, r, lo.clone())?;
                let x = self.select(&wide, &c, lo, x, &Ty::Int(1))?;
                Some(self.cast(CastOp::Trunc, &wide, &int, x)?)
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let op = match &p0[1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let signed = p0.starts_with('s');
                let ext = if signed { CastOp::SExt } else { CastOp::ZExt };
                let wide = Ty::Int(if op == BinOp::Mul { (2 * w).min(128) } else { w + 1 });
                let a = self.cast(ext, &int, &wide, v[0].clone())?;
                let b = self.cast(ext, &int, &wide, v[1].clone())?;
                let big = self.bin(op, &wide, a, b)?;
                let r = self.bin(op, &int, v[0].clone(), v[1].clone())?;
                let back = self.cast(ext, &int, &wide, r.clone())?;
                let o = self.icmp(Pred::Ne, &wide, big, back)?;
                Some(Val::A(vec![r, o].into()))
            }
            "ctpop" | "ctlz" | "cttz" => {
                if let Val::C(x) = v[0] {
                    let r = match p0 {
                        "ctpop" => x.count_ones(),
                        "ctlz" => x.leading_zeros() - (128 - w),
                        _ => x.trailing_zeros().min(w),
                    };
                    return Ok(Some(Val::C(r as u128)));
                }
                let e = self.e(&v[0], w);
                let mut acc;
                if p0 == "ctpop" {
                    acc = self.ar.cst(0, w);
                    for i in 0..w {
                        let b = self.ar.extract(e, i, 1);
                        let b = self.ar.zext(b, w);
                        acc = self.ar.add(acc, b);
                    }
                } else {
                    acc = self.ar.cst(w as u128, w);
                    for k in 0..w {
                        let i = if p0 == "ctlz" { k } else { w - 1 - k };
                        let b = self.ar.extract(e, i, 1);
                        let val = if p0 == "ctlz" { w - 1 - i } else { i };
                        let c = self.ar.cst(val as u128, w);
                        acc = self.ar.ite(b, c, acc);
                    }
                }
                Some(self.v(acc))
            }
            "bswap" | "bitreverse" => {
                let u = if p0 == "bswap" { 8 } else { 1 };
                let e = self.e(&v[0], w);
                let mut acc = self.ar.extract(e, 0, u);
                let mut i = u;
                while i < w {
                    let p = self.ar.extract(e, i, u);
                    acc = self.ar.concat(acc, p);
                    i += u;
                }
                Some(self.v(acc))
            }
            "fshl" | "fshr" => {
                let s = match v[2] {
                    Val::C(s) => (s % w as u128) as u32,
                    _ => {
                        let s = self.conc(&v[2])?;
                        (s % w as u64) as u32
                    }
                };
                let l = if p0 == "fshl" { s } else { (w - s) % w };
                if s == 0 {
                    return Ok(Some(if p0 == "fshl" { v[0].clone() } else { v[1].clone() }));
                }
                if let (Val::C(a), Val::C(b)) = (&v[0], &v[1]) {
                    return Ok(Some(Val::C(((a << l) | (b >> (w - l))) & mask(w))));
                }
                let (a, b) = (self.e(&v[0], w), self.e(&v[1], w));
                let hi = self.ar.extract(a, 0, w - l);
                let lo = self.ar.extract(b, w - l, l);
                let r = self.ar.concat(hi, lo);
                Some(self.v(r))
            }
            "ucmp" | "scmp" => {
                let s = p0 == "scmp";
                let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, &int, v[0].clone(), v[1].clone())?;
                let gt = self.icmp(if s { Pred::Sgt } else { Pred::Ugt }, &int, v[0].clone(), v[1].clone())?;
                let rw = rt.bits();
                let x = self.select(&Ty::Int(rw), &gt, Val::C(1), Val::C(0), &Ty::Int(1))?;
                Some(self.select(&Ty::Int(rw), &lt, Val::C(mask(rw)), x, &Ty::Int(1))?)
            }
            "fabs" => Some(self.bin(BinOp::And, &int, v[0].clone(), Val::C(mask(w - 1)))?),
            "sqrt" => {
                if let Val::C(x) = v[0] {
                    let n = crate::expr::Node { op: Op::FSqrt, w: w as u16, a: 0, b: 0, c: 0, k: 0 };
                    return Ok(Some(Val::C(crate::expr::apply(&n, w, x, 0, 0))));
                }
                let e = self.e(&v[0], w);
                let r = self.ar.fsqrt(e);
                Some(self.v(r))
            }
            "fptosi" if p1 == "sat" => Some(self.cast(CastOp::FpToSi, &ats[0], rt, v[0].clone())?),
            "fptoui" if p1 == "sat" => Some(self.cast(CastOp::FpToUi, &ats[0], rt, v[0].clone())?),
            "copysign" => {
                let a = self.bin(BinOp::And, &int, v[0].clone(), Val::C(mask(w - 1)))?;
                let b = self.bin(BinOp::And, &int, v[1].clone(), Val::C(1u128 << (w - 1)))?;
                Some(self.bin(BinOp::Or, &int, a, b)?)
            }
            "vector" if p1 == "reduce" => {
                let kind = name.split('.').nth(3).unwrap_or("");
                let Val::A(xs) = &v[0] else { return Err(Stop::Error(name.into())) };
                let order = match kind {
                    "umax" => Some(Pred::Ugt),
                    "umin" => Some(Pred::Ult),
                    "smax" => Some(Pred::Sgt),
                    "smin" => Some(Pred::Slt),
                    _ => None,
                };
                if let Some(order) = order {
                    let mut acc = xs[0].clone();
                    for x in xs[1..].iter() {
                        let c = self.icmp(order, rt, acc.clone(), x.clone())?;
                        acc = self.select(rt, &c, acc, x.clone(), &Ty::Int(1))?;
                    }
                    return Ok(Some(acc));
                }
                let op = match kind {
                    "or" => BinOp::Or,
                    "and" => BinOp::And,
                    "xor" => BinOp::Xor,
                    "add" => BinOp::Add,
                    "mul" => BinOp::Mul,
                    _ => return Err(Stop::Error(format!("intrinsic {name}"))),
                };
                let mut acc = xs[0].clone();
                for x in xs[1..].iter() {
                    acc = self.bin(op, rt, acc, x.clone())?;
                }
                Some(acc)
            }
            "load" if p1 == "relative" => {
                let a = self.conc(&v[0])?;
                let o = self.bin(BinOp::Add, &Ty::Int(64), Val::C(a as u128), v[1].clone())?;
                let r = self.load_at(&Ty::Int(32), &o)?;
                let r = self.cast(CastOp::SExt, &Ty::Int(32), &Ty::Int(64), r)?;
                Some(self.bin(BinOp::Add, &Ty::Int(64), Val::C(a as u128), r)?)
            }
            _ => {
                let base = if w == 32 { format!("{p0}f") } else { p0.to_string() };
                match self.libm(&base, ats, v)? {
                    Some(r) => Some(r),
                    None => return Err(Stop::Error(format!("intrinsic {name}"))),
                }
            }
        })
    }
}

fn insert(m: &Module, t: &Ty, a: &Val, v: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return v.clone();
    }
    let mut xs: Vec<Val> = match a {
        Val::A(x) => x.to_vec(),
        _ => match m.const_val(t, &Const::Zero) {
            Val::A(x) => x.to_vec(),
            o => vec![o],
        },
    };
    let i = ix[0] as usize;
    let et = match t {
        Ty::Struct(ts, _) => ts[i].clone(),
        Ty::Arr(t, _) | Ty::Vec(t, _) => (**t).clone(),
        _ => Ty::Other,
    };
    xs[i] = insert(m, &et, &xs[i].clone(), v, &ix[1..]);
    Val::A(xs.into())
}

pub fn explore(sh: &Shared, threads: usize) {
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn_scoped(s, || sh.worker())
                .expect("a worker thread");
        }
    });
    sh.leftovers();
}

#[allow(dead_code)]
fn _assert_send(_: Arc<Module>) {}
