//! Path-exploring symbolic executor for the parsed IR.

use crate::ir::*;
use crate::term::{mask, sext_val, Arena, T};
use crate::z3::{Sat, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    S(T),
    A(Rc<Vec<Val>>),
    Undef,
}

#[derive(Clone)]
pub struct Obj {
    base: u64,
    bytes: Vec<T>,
}

#[derive(Clone, Default)]
struct Mem {
    stack: Vec<Rc<Obj>>,
    stack_top: u64,
    heap: Vec<Option<Rc<Obj>>>, // sorted by base
    heap_bases: Rc<Vec<u64>>,
    heap_top: u64,
    globals: BTreeMap<usize, Rc<Obj>>, // written globals
}

#[derive(Clone)]
struct Frame {
    func: Arc<Func>,
    block: u32,
    ip: usize,
    regs: Rc<Vec<Val>>,
    dst: Option<u32>,
    stack_mark: (usize, u64),
}

#[derive(Clone, Debug)]
pub enum Input {
    Choice(u32),
    Sym(T),
}

#[derive(Clone, Debug)]
enum Ev {
    Check(u64, T),
    Cover(u64),
    Observe(T),
}

#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<T>,
    model: Rc<Vec<u128>>,
    inputs: Vec<Input>,
    events: Vec<Ev>,
    marks: Vec<String>,
    nchoice: usize,
    nsym: usize,
    steps: u64,
    panic_ok: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // check | panic | memory | unreachable
    pub what: String,
    pub location: String,
    pub marks: Vec<String>,
    pub inputs: Vec<u64>,
    pub count: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub panics_allowed: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub branches: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_by_solver: u64,
    pub queries: u64,
    pub reused: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_time: Duration,
    pub slowest: Duration,
    pub terms: u64,
    pub certified: u64,
}

#[derive(Clone)]
pub struct Sample {
    pub inputs: Vec<u64>,
    pub digest: u64,
    pub end: &'static str,
}

pub struct JobResult {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub covers: BTreeMap<String, u64>,
    pub check_ids: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub funcs: HashSet<String>,
    pub error: Option<String>,
    pub new_jobs: Vec<Vec<u32>>,
    pub wall: Duration,
}

pub struct Limits {
    pub deadline: Instant,
    pub max_steps: u64,
    pub max_paths: u64,
    pub shard_depth: usize,
    pub query_ms: u32,
    pub max_violations: usize,
    pub certify: bool,
}

enum End {
    Done,
    Panic(String, String),
    Bad(String, String),
    Infeasible,
}
enum Step {
    Next,
    End(End),
}
type Res<X> = Result<X, String>;

pub struct Exec<'a> {
    m: &'a Module,
    a: Arena,
    solver: Solver,
    lim: &'a Limits,
    work: Vec<State>,
    gcache: HashMap<usize, Rc<Obj>>,
    gindex: Vec<(u64, u64, usize)>,
    vars: HashMap<(usize, u16), T>,
    prefix: Vec<u32>,
    pub res: JobResult,
    epoch_model: *const Vec<u128>,
    supp: HashMap<T, Rc<Vec<(u32, u128)>>>,
    answers: HashMap<(Vec<T>, T), (Sat, Option<Rc<Vec<(u32, u128, u128)>>>)>,
    epoch_nodes: usize,
    split: bool,
    trace: bool,
}

const FNV: u64 = 0xcbf29ce484222325;
fn fnv(mut h: u64, v: u64) -> u64 {
    for b in v.to_le_bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn fnv_str(s: &[u8]) -> u64 {
    let mut h = FNV;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn panic_fn(name: &str) -> bool {
    if !name.starts_with("_RN") {
        return false;
    }
    name.contains("4core9panicking")
        || [
            "slice_index_fail",
            "expect_failed",
            "unwrap_failed",
            "12handle_error",
            "handle_alloc_error",
            "slice_error_fail",
            "slice_error_fail_rt",
            "len_mismatch_fail",
            "rust_begin_unwind",
            "capacity_overflow",
            "panic_already_borrowed",
            "panic_already_mutably_borrowed",
        ]
        .iter()
        .any(|s| name.ends_with(s))
        || name.contains("9panicking11begin_panic")
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, lim: &'a Limits, prefix: Vec<u32>, split: bool) -> Self {
        let mut gindex: Vec<_> =
            m.globals.iter().enumerate().map(|(i, g)| (g.addr, g.size, i)).collect();
        gindex.sort();
        Exec {
            m,
            a: Arena::new(),
            solver: Solver::new(lim.query_ms),
            lim,
            work: vec![],
            gcache: HashMap::new(),
            gindex,
            vars: HashMap::new(),
            prefix,
            res: JobResult {
                stats: Stats::default(),
                violations: vec![],
                covers: BTreeMap::new(),
                check_ids: BTreeMap::new(),
                samples: vec![],
                funcs: HashSet::new(),
                error: None,
                new_jobs: vec![],
                wall: Duration::ZERO,
            },
            epoch_model: std::ptr::null(),
            supp: HashMap::new(),
            answers: HashMap::new(),
            epoch_nodes: 0,
            split,
            trace: std::env::var_os("IRSYM_TRACE").is_some(),
        }
    }

    pub fn run(mut self, harness: &str) -> JobResult {
        let t0 = Instant::now();
        if let Err(e) = self.run_inner(harness) {
            self.res.error = Some(e);
        }
        if self.lim.certify {
            let obs = self.a.obligations();
            match self.solver.certify(&self.a, &obs) {
                Ok(n) => self.res.stats.certified += n,
                Err(e) => self.res.error = Some(e),
            }
        }
        let s = &mut self.res.stats;
        s.queries = self.solver.queries;
        s.sat = self.solver.sat;
        s.unsat = self.solver.unsat;
        s.unknown = self.solver.unknown;
        s.solver_time = self.solver.time;
        s.slowest = self.solver.slowest;
        s.terms = self.a.infos.len() as u64;
        self.res.wall = t0.elapsed();
        self.res
    }

    fn run_inner(&mut self, harness: &str) -> Res<()> {
        let f = self.m.func(harness)?;
        self.res.funcs.insert(f.name.clone());
        let mut st = State {
            frames: vec![],
            mem: Mem {
                stack_top: 0x7000_0000_0000,
                heap_top: 0x5000_0000_0000,
                ..Default::default()
            },
            pc: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            events: vec![],
            marks: vec![],
            nchoice: 0,
            nsym: 0,
            steps: 0,
            panic_ok: false,
        };
        st.frames.push(Frame {
            regs: Rc::new(vec![Val::Undef; f.nregs]),
            func: f,
            block: 0,
            ip: 0,
            dst: None,
            stack_mark: (0, st.mem.stack_top),
        });
        self.work.push(st);
        let mut tick = 0u32;
        while let Some(mut st) = self.work.pop() {
            let end = loop {
                tick = tick.wrapping_add(1);
                if tick & 0xfff == 0 && Instant::now() > self.lim.deadline {
                    return Err("time limit reached".into());
                }
                if st.steps > self.lim.max_steps {
                    let loc = self.where_am_i(&st);
                    let inputs = self.concrete_inputs(&st);
                    self.violation("endless", "does not finish".into(), loc, &st, inputs);
                    return Ok(());
                }
                st.steps += 1;
                self.res.stats.steps += 1;
                match self.step(&mut st) {
                    Ok(Step::Next) => {}
                    Ok(Step::End(e)) => break e,
                    Err(e) => return Err(format!("{e} [at {}]", self.where_am_i(&st))),
                }
            };
            match end {
                End::Done => {
                    self.res.stats.paths += 1;
                    self.sample(&st, "ok");
                }
                End::Infeasible => self.res.stats.assumed_away += 1,
                End::Panic(what, loc) => {
                    self.res.stats.paths += 1;
                    self.sample(&st, "panic");
                    if st.panic_ok {
                        self.res.stats.panics_allowed += 1;
                    } else {
                        let inputs = self.concrete_inputs(&st);
                        self.violation("panic", what, loc, &st, inputs);
                    }
                }
                End::Bad(kind, loc) => {
                    self.res.stats.paths += 1;
                    let inputs = self.concrete_inputs(&st);
                    self.violation("memory", kind, loc, &st, inputs);
                }
            }
            if self.res.stats.paths > self.lim.max_paths {
                return Err("path limit reached".into());
            }
            let new = self.res.violations.iter().filter(|v| v.marks.is_empty()).count();
            if new >= self.lim.max_violations {
                return Ok(());
            }
        }
        Ok(())
    }

    fn where_am_i(&self, st: &State) -> String {
        st.frames
            .iter()
            .rev()
            .take(4)
            .map(|f| format!("{}:{}:{}", f.func.name, f.block, f.ip))
            .collect::<Vec<_>>()
            .join(" < ")
    }

    fn use_model(&mut self, st: &State) {
        // the evaluation cache is valid for one model object
        let p = Rc::as_ptr(&st.model);
        if p != self.epoch_model {
            self.a.new_epoch();
            self.epoch_model = p;
        }
        self.epoch_nodes = self.a.infos.len();
    }
    fn eval(&mut self, st: &State, t: T) -> u128 {
        if let Some(v) = self.a.as_const(t) {
            return v;
        }
        self.use_model(st);
        let m = st.model.clone();
        self.a.eval(t, &m)
    }
    fn set_model(&mut self, st: &mut State, m: Vec<u128>) {
        st.model = Rc::new(m);
        self.a.new_epoch();
        self.epoch_model = Rc::as_ptr(&st.model);
    }

    fn concrete_inputs(&mut self, st: &State) -> Vec<u64> {
        let ins = st.inputs.clone();
        ins.iter()
            .map(|i| match i {
                Input::Choice(c) => *c as u64,
                Input::Sym(t) => self.eval(st, *t) as u64,
            })
            .collect()
    }

    fn sample(&mut self, st: &State, end: &'static str) {
        let n = self.res.stats.paths;
        if !(n <= 2 || n.is_power_of_two() || (n % 997 == 0 && n < 40_000)) {
            return;
        }
        let inputs = self.concrete_inputs(st);
        let mut h = FNV;
        for e in st.events.clone() {
            h = match e {
                Ev::Check(id, t) => {
                    let v = self.eval(st, t) as u64;
                    fnv(fnv(h, id), v)
                }
                Ev::Cover(id) => fnv(h, id),
                Ev::Observe(t) => {
                    let v = self.eval(st, t) as u64;
                    fnv(h, v)
                }
            };
        }
        self.res.samples.push(Sample { inputs, digest: h, end });
    }

    fn violation(&mut self, kind: &str, what: String, loc: String, st: &State, inputs: Vec<u64>) {
        for v in self.res.violations.iter_mut() {
            if v.kind == kind && v.what == what && v.location == loc && v.marks == st.marks {
                v.count += 1;
                return;
            }
        }
        self.res.violations.push(Violation {
            kind: kind.into(),
            what,
            location: loc,
            marks: st.marks.clone(),
            inputs,
            count: 1,
        });
    }

    /// The input bits a term depends on.
    fn support(&mut self, t: T) -> Rc<Vec<(u32, u128)>> {
        if let Some(s) = self.supp.get(&t) {
            return s.clone();
        }
        let info = self.a.infos[t as usize];
        let out: Vec<(u32, u128)> = match info.node {
            crate::term::Node::Var(i) => vec![(i, mask(info.w))],
            crate::term::Node::Extract(a, lo)
                if matches!(self.a.node(a), crate::term::Node::Var(_)) =>
            {
                let crate::term::Node::Var(i) = self.a.node(a) else { unreachable!() };
                vec![(i, mask(info.w) << lo)]
            }
            n => {
                let mut kids = [0u32; 3];
                let k = crate::term::kids_of(n, &mut kids);
                let mut m: BTreeMap<u32, u128> = BTreeMap::new();
                for &x in &kids[..k] {
                    for &(v, b) in self.support(x).iter() {
                        *m.entry(v).or_insert(0) |= b;
                    }
                }
                m.into_iter().collect()
            }
        };
        let r = Rc::new(out);
        self.supp.insert(t, r.clone());
        r
    }

    /// Is `st.pc /\ extra` satisfiable?  Only the constraints that share input bits
    /// with `extra` (transitively) go to the solver; the others are satisfied by the
    /// state's current model and stay so.  Answers are kept per slice.
    fn query(&mut self, st: &State, extra: T) -> (Sat, Option<Vec<u128>>) {
        let mut sup: Vec<u128> = vec![0; self.a.vars.len()];
        for &(v, b) in self.support(extra).iter() {
            sup[v as usize] |= b;
        }
        let mut taken = vec![false; st.pc.len()];
        loop {
            let mut grew = false;
            for i in (0..st.pc.len()).rev() {
                if taken[i] {
                    continue;
                }
                let s = self.support(st.pc[i]);
                if s.iter().any(|&(v, b)| sup[v as usize] & b != 0) {
                    taken[i] = true;
                    grew = true;
                    for &(v, b) in s.iter() {
                        sup[v as usize] |= b;
                    }
                }
            }
            if !grew {
                break;
            }
        }
        let mut slice: Vec<T> =
            (0..st.pc.len()).filter(|&i| taken[i]).map(|i| st.pc[i]).collect();
        slice.sort_unstable();
        slice.dedup();
        let key = (slice, extra);
        let ans = match self.answers.get(&key) {
            Some(a) => {
                self.res.stats.reused += 1;
                a.clone()
            }
            None => {
                let (r, m) = self.solver.check(&self.a, &key.0, extra);
                let a = (
                    r,
                    m.map(|m| {
                        Rc::new(
                            sup.iter()
                                .enumerate()
                                .filter(|(_, b)| **b != 0)
                                .map(|(v, b)| (v as u32, *b, m[v] & b))
                                .collect::<Vec<_>>(),
                        )
                    }),
                );
                self.answers.insert(key.clone(), a.clone());
                a
            }
        };
        match ans {
            (Sat::Sat, Some(part)) => {
                let mut m = (*st.model).clone();
                m.resize(self.a.vars.len(), 0);
                for &(v, b, x) in part.iter() {
                    m[v as usize] = (m[v as usize] & !b) | x;
                }
                // the solver's model must satisfy our own evaluation of the terms
                self.a.new_epoch();
                self.epoch_model = std::ptr::null();
                for &t in key.0.iter().chain([&extra]) {
                    if self.a.eval(t, &m) != 1 {
                        panic!("solver model does not satisfy the terms");
                    }
                }
                self.a.new_epoch();
                (Sat::Sat, Some(m))
            }
            (r, _) => (r, None),
        }
    }

    // ---- forking ---------------------------------------------------------
    /// Decide `c` on this path.  The other feasible side becomes a new state that
    /// re-executes the current instruction under the opposite constraint.
    fn branch(&mut self, st: &mut State, c: T) -> Res<bool> {
        if let Some(v) = self.a.as_const(c) {
            return Ok(v == 1);
        }
        let nc = self.a.not(c);
        for &p in st.pc.iter().rev() {
            if p == c {
                return Ok(true);
            }
            if p == nc {
                return Ok(false);
            }
        }
        self.res.stats.branches += 1;
        if self.trace {
            let f = st.frames.last().unwrap();
            eprintln!("branch {} choices {} ip {} {}", f.func.name, st.nchoice, f.ip, self.a.show(c, 6));
        }
        let here = self.eval(st, c) == 1;
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        match self.query(st, other) {
            (Sat::Unknown, _) => return Err("solver gave no answer (branch)".into()),
            (Sat::Unsat, _) => {}
            (Sat::Sat, m) => {
                self.res.stats.forks += 1;
                self.split = false;
                let mut s2 = st.clone();
                s2.pc.push(other);
                s2.model = Rc::new(m.unwrap());
                s2.steps -= 1;
                self.work.push(s2);
            }
        }
        st.pc.push(mine);
        Ok(here)
    }

    /// force `t` to one value on this path, forking over the others
    fn concretize(&mut self, st: &mut State, t: T) -> Res<u128> {
        if let Some(v) = self.a.as_const(t) {
            return Ok(v);
        }
        // already pinned by the path condition?
        loop {
            let v = self.eval(st, t);
            let w = self.a.w(t);
            let k = self.a.c(w, v);
            let e = self.a.eq(t, k);
            if self.branch(st, e)? {
                return Ok(v);
            }
        }
    }

    // ---- memory ----------------------------------------------------------
    fn alloc_stack(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = st.mem.stack_top.div_ceil(a) * a;
        st.mem.stack_top = base + size + 32;
        let z = self.a.c(8, 0);
        st.mem.stack.push(Rc::new(Obj { base, bytes: vec![z; size as usize] }));
        base
    }
    fn alloc_heap(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = st.mem.heap_top.div_ceil(a) * a;
        st.mem.heap_top = base + size + 32;
        let z = self.a.c(8, 0);
        st.mem.heap.push(Some(Rc::new(Obj { base, bytes: vec![z; size as usize] })));
        Rc::make_mut(&mut st.mem.heap_bases).push(base);
        base
    }

    fn global_ix(&self, addr: u64) -> Option<usize> {
        let i = self.gindex.partition_point(|g| g.0 <= addr);
        if i == 0 {
            return None;
        }
        let (b, s, ix) = self.gindex[i - 1];
        (addr - b < s || (addr == b && s == 0)).then_some(ix)
    }
    fn global_obj(&mut self, st: &State, ix: usize) -> Res<Rc<Obj>> {
        if let Some(o) = st.mem.globals.get(&ix) {
            return Ok(o.clone());
        }
        if let Some(o) = self.gcache.get(&ix) {
            return Ok(o.clone());
        }
        let g = &self.m.globals[ix];
        let init = self.m.global_init(g)?;
        // pointers inside are plain 64-bit numbers already
        let bytes = init.iter().map(|&b| self.a.c(8, b as u128)).collect();
        let o = Rc::new(Obj { base: g.addr, bytes });
        self.gcache.insert(ix, o.clone());
        Ok(o)
    }

    fn find(&mut self, st: &State, addr: u64, n: u64) -> Res<Option<(Rc<Obj>, Loc)>> {
        if (0x7000_0000_0000..0x7fff_0000_0000).contains(&addr) {
            let i = st.mem.stack.partition_point(|o| o.base <= addr);
            if i > 0 {
                let o = &st.mem.stack[i - 1];
                if addr - o.base + n <= o.bytes.len() as u64 {
                    return Ok(Some((o.clone(), Loc::Stack(i - 1))));
                }
            }
            return Ok(None);
        }
        if (0x5000_0000_0000..0x7000_0000_0000).contains(&addr) {
            let i = st.mem.heap_bases.partition_point(|b| *b <= addr);
            if i > 0 {
                if let Some(o) = &st.mem.heap[i - 1] {
                    if addr - o.base + n <= o.bytes.len() as u64 {
                        return Ok(Some((o.clone(), Loc::Heap(i - 1))));
                    }
                }
            }
            return Ok(None);
        }
        if let Some(ix) = self.global_ix(addr) {
            let o = self.global_obj(st, ix)?;
            if addr - o.base + n <= o.bytes.len() as u64 {
                return Ok(Some((o, Loc::Global(ix))));
            }
        }
        Ok(None)
    }

    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> Res<Option<Vec<T>>> {
        if n == 0 {
            return Ok(Some(vec![]));
        }
        Ok(self.find(st, addr, n)?.map(|(o, _)| {
            let s = (addr - o.base) as usize;
            o.bytes[s..s + n as usize].to_vec()
        }))
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[T]) -> Res<bool> {
        if b.is_empty() {
            return Ok(true);
        }
        let Some((o, loc)) = self.find(st, addr, b.len() as u64)? else { return Ok(false) };
        let s = (addr - o.base) as usize;
        drop(o);
        let slot: &mut Rc<Obj> = match loc {
            Loc::Stack(i) => &mut st.mem.stack[i],
            Loc::Heap(i) => st.mem.heap[i].as_mut().unwrap(),
            Loc::Global(ix) => {
                if self.m.globals[ix].constant {
                    return Ok(false);
                }
                if !st.mem.globals.contains_key(&ix) {
                    let o = self.global_obj(st, ix)?;
                    st.mem.globals.insert(ix, o);
                }
                st.mem.globals.get_mut(&ix).unwrap()
            }
        };
        Rc::make_mut(slot).bytes[s..s + b.len()].copy_from_slice(b);
        Ok(true)
    }

    fn bytes_of(&mut self, t: T, n: u64) -> Vec<T> {
        let w = (n * 8) as u16;
        let t = if self.a.w(t) < w { self.a.zext(t, w) } else { t };
        (0..n).map(|i| self.a.extract(t, (i * 8) as u16, 8)).collect()
    }
    fn from_bytes(&mut self, b: &[T]) -> T {
        let mut acc = b[0];
        for &x in &b[1..] {
            acc = self.a.concat(x, acc);
        }
        acc
    }

    fn load_val(&mut self, ty: &Ty, b: &[T]) -> Val {
        match ty {
            Ty::Int(w) => {
                let n = ty.store_size() as usize;
                let t = self.from_bytes(&b[..n]);
                Val::S(self.a.extract(t, 0, *w))
            }
            Ty::Ptr => Val::S(self.from_bytes(&b[..8])),
            Ty::Struct(_, f) => {
                let v = (0..f.len())
                    .map(|i| {
                        let o = ty.field_offset(i) as usize;
                        self.load_val(&f[i], &b[o..])
                    })
                    .collect();
                Val::A(Rc::new(v))
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                if let (Ty::Vector(..), Ty::Int(w)) = (ty, &**e) {
                    if w % 8 != 0 {
                        let sz = ty.store_size() as usize;
                        let t = self.from_bytes(&b[..sz]);
                        let v = (0..*n)
                            .map(|i| Val::S(self.a.extract(t, i as u16 * w, *w)))
                            .collect();
                        return Val::A(Rc::new(v));
                    }
                }
                let s = e.size() as usize;
                let v = (0..*n as usize).map(|i| self.load_val(e, &b[i * s..])).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::Undef,
        }
    }
    fn store_val(&mut self, ty: &Ty, v: &Val, out: &mut [T]) {
        match (ty, v) {
            (_, Val::Undef) => {}
            (Ty::Int(_) | Ty::Ptr, Val::S(t)) => {
                let n = ty.store_size();
                let b = self.bytes_of(*t, n);
                out[..n as usize].copy_from_slice(&b);
            }
            (_, Val::A(e)) => {
                for (i, x) in e.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.store_val(ty.elem(i), x, &mut out[o..]);
                }
            }
            _ => panic!("store {ty:?} {v:?}"),
        }
    }

    /// address of an access: concrete, by forking if needed
    fn address(&mut self, st: &mut State, t: T) -> Res<u64> {
        Ok(self.concretize(st, t)? as u64)
    }

    /// Load through a symbolic address that stays inside one constant table: build an
    /// if-then-else over the table instead of forking.
    fn table_load(&mut self, st: &mut State, t: T, ty: &Ty) -> Res<Option<Val>> {
        if self.a.as_const(t).is_some() || !matches!(ty, Ty::Int(_) | Ty::Ptr) {
            return Ok(None);
        }
        let v = self.eval(st, t) as u64;
        let n = ty.store_size();
        let Some((o, loc)) = self.find(st, v, n)? else { return Ok(None) };
        let Loc::Global(ix) = loc else { return Ok(None) };
        if !self.m.globals[ix].constant || o.bytes.len() > 2048 {
            return Ok(None);
        }
        let lo = self.a.c(64, o.base as u128);
        let off = self.a.sub(t, lo);
        let lim = self.a.c(64, (o.bytes.len() as u64 - n + 1) as u128);
        let inside = self.a.ult(off, lim);
        let outside = self.a.not(inside);
        if self.a.as_const(inside) != Some(1) {
            match self.query(st, outside).0 {
                Sat::Unsat => {}
                Sat::Sat => return Ok(None),
                Sat::Unknown => return Err("solver gave no answer (table)".into()),
            }
        }
        let step = if v.wrapping_sub(o.base) % n == 0 { n } else { 1 };
        if step > 1 {
            // require element alignment of every feasible offset
            let bits = step.trailing_zeros() as u16;
            if bits > 0 {
                let low = self.a.extract(off, 0, bits);
                if self.a.as_const(low) != Some(0) {
                    return Ok(None);
                }
            }
        }
        let mut acc: Option<T> = None;
        let mut k = 0;
        while k + n <= o.bytes.len() as u64 {
            let b = o.bytes[k as usize..(k + n) as usize].to_vec();
            let Val::S(x) = self.load_val(ty, &b) else { unreachable!() };
            acc = Some(match acc {
                None => x,
                Some(r) => {
                    let kk = self.a.c(64, k as u128);
                    let c = self.a.eq(off, kk);
                    self.a.ite(c, x, r)
                }
            });
            k += step;
        }
        Ok(acc.map(Val::S))
    }

    // ---- values ----------------------------------------------------------
    fn cv(&mut self, c: &Cv) -> Val {
        match c {
            Cv::Int(w, v) => Val::S(self.a.c(*w, *v)),
            Cv::Agg(e) => {
                let v = e.iter().map(|x| self.cv(x)).collect();
                Val::A(Rc::new(v))
            }
        }
    }
    fn op(&mut self, st: &State, o: &Op) -> Val {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::Const(c) => self.cv(c),
        }
    }
    fn sc(&mut self, st: &State, o: &Op) -> Res<T> {
        match self.op(st, o) {
            Val::S(t) => Ok(t),
            v => Err(format!("scalar expected, got {v:?}")),
        }
    }
    fn set(&mut self, st: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            let f = st.frames.last_mut().unwrap();
            Rc::make_mut(&mut f.regs)[d as usize] = v;
        }
    }

    fn bin(&mut self, b: Bin, x: T, y: T) -> T {
        let a = &mut self.a;
        match b {
            Bin::Add => a.add(x, y),
            Bin::Sub => a.sub(x, y),
            Bin::Mul => a.mul(x, y),
            Bin::UDiv => a.udiv(x, y),
            Bin::URem => a.urem(x, y),
            Bin::SDiv => a.sdiv(x, y),
            Bin::SRem => a.srem(x, y),
            Bin::Shl => a.shl(x, y),
            Bin::LShr => a.lshr(x, y),
            Bin::AShr => a.ashr(x, y),
            Bin::And => a.and(x, y),
            Bin::Or => a.or(x, y),
            Bin::Xor => a.xor(x, y),
        }
    }
    fn icmp(&mut self, p: Pred, x: T, y: T) -> T {
        let a = &mut self.a;
        match p {
            Pred::Eq => a.eq(x, y),
            Pred::Ne => a.ne(x, y),
            Pred::Ult => a.ult(x, y),
            Pred::Ule => a.ule(x, y),
            Pred::Ugt => a.ult(y, x),
            Pred::Uge => a.ule(y, x),
            Pred::Slt => a.slt(x, y),
            Pred::Sle => a.sle(x, y),
            Pred::Sgt => a.slt(y, x),
            Pred::Sge => a.sle(y, x),
        }
    }
    fn map2(&mut self, x: &Val, y: &Val, f: &mut dyn FnMut(&mut Self, T, T) -> T) -> Res<Val> {
        match (x, y) {
            (Val::S(a), Val::S(b)) => Ok(Val::S(f(self, *a, *b))),
            (Val::A(a), Val::A(b)) => {
                let mut v = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    v.push(self.map2(p, q, f)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err("operand shape".into()),
        }
    }
    fn map1(&mut self, x: &Val, f: &mut dyn FnMut(&mut Self, T) -> T) -> Res<Val> {
        match x {
            Val::S(a) => Ok(Val::S(f(self, *a))),
            Val::A(a) => {
                let mut v = vec![];
                for p in a.iter() {
                    v.push(self.map1(p, f)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Val::Undef => Err("undef operand".into()),
        }
    }
    fn select(&mut self, c: T, x: &Val, y: &Val) -> Res<Val> {
        match (x, y) {
            (Val::S(a), Val::S(b)) => Ok(Val::S(self.a.ite(c, *a, *b))),
            (Val::A(a), Val::A(b)) => {
                let mut v = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    v.push(self.select(c, p, q)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            (Val::Undef, v) | (v, Val::Undef) => Ok(v.clone()),
            _ => Err("select shape".into()),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> Res<()> {
        let f = st.frames.last().unwrap();
        let func = f.func.clone();
        let from = f.block;
        let blk = &func.blocks[to as usize];
        let mut vals = Vec::with_capacity(blk.phis.len());
        for (d, inc) in &blk.phis {
            let (_, o) = inc
                .iter()
                .find(|(b, _)| *b == from)
                .ok_or("phi without matching predecessor")?;
            vals.push((*d, self.op(st, o)));
        }
        let f = st.frames.last_mut().unwrap();
        f.block = to;
        f.ip = 0;
        if !vals.is_empty() {
            let r = Rc::make_mut(&mut f.regs);
            for (d, v) in vals {
                r[d as usize] = v;
            }
        }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> Res<Step> {
        let (func, block, ip) = {
            let f = st.frames.last().unwrap();
            (f.func.clone(), f.block as usize, f.ip)
        };
        let Some((dst, ins)) = func.blocks[block].ins.get(ip) else {
            return Err("fell off a block".into());
        };
        let dst = *dst;
        macro_rules! next {
            ($v:expr) => {{
                let v = $v;
                self.set(st, dst, v);
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(Step::Next);
            }};
        }
        match ins {
            Ins::Bin(b, _, x, y) => {
                let (x, y) = (self.op(st, x), self.op(st, y));
                if matches!(b, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                    if let Val::S(d) = y {
                        let w = self.a.w(d);
                        let z = self.a.c(w, 0);
                        let e = self.a.eq(d, z);
                        if self.branch(st, e)? {
                            return Ok(Step::End(End::Bad("division by zero".into(), self.where_am_i(st))));
                        }
                    }
                }
                let b = *b;
                let v = self.map2(&x, &y, &mut |s, p, q| s.bin(b, p, q))?;
                next!(v)
            }
            Ins::ICmp(p, _, x, y) => {
                let (x, y) = (self.op(st, x), self.op(st, y));
                let p = *p;
                let v = self.map2(&x, &y, &mut |s, a, b| s.icmp(p, a, b))?;
                next!(v)
            }
            Ins::Cast(c, ft, x, t) => {
                let x = self.op(st, x);
                let v = match c {
                    Cast::Same => x,
                    Cast::Bitcast => {
                        let flat = self.flatten(ft, &x)?;
                        self.unflatten(t, flat)
                    }
                    _ => {
                        let w = match t {
                            Ty::Vector(_, e) => e.width(),
                            _ => t.width(),
                        };
                        let c = *c;
                        self.map1(&x, &mut |s, a| match c {
                            Cast::Trunc => s.a.trunc(a, w),
                            Cast::ZExt => s.a.zext(a, w),
                            _ => s.a.sext(a, w),
                        })?
                    }
                };
                next!(v)
            }
            Ins::Gep(base, off, dynv) => {
                let mut t = self.sc(st, base)?;
                if *off != 0 {
                    let k = self.a.c(64, *off as u128);
                    t = self.a.add(t, k);
                }
                for (stride, o) in dynv {
                    let i = self.sc(st, o)?;
                    let w = self.a.w(i);
                    let i = if w < 64 { self.a.sext(i, 64) } else { self.a.trunc(i, 64) };
                    let s = self.a.c(64, *stride as u128);
                    let p = self.a.mul(i, s);
                    t = self.a.add(t, p);
                }
                next!(Val::S(t))
            }
            Ins::Load(ty, p) => {
                let p = self.sc(st, p)?;
                if let Some(v) = self.table_load(st, p, ty)? {
                    next!(v)
                }
                let a = self.address(st, p)?;
                let n = match ty {
                    Ty::Struct(..) | Ty::Array(..) => ty.size(),
                    _ => ty.store_size(),
                };
                let Some(b) = self.read_bytes(st, a, n)? else {
                    return Ok(Step::End(End::Bad(
                        format!("out-of-bounds read of {n} bytes at {a:#x}"),
                        self.where_am_i(st),
                    )));
                };
                let v = self.load_val(ty, &b);
                next!(v)
            }
            Ins::Store(ty, v, p) => {
                let p = self.sc(st, p)?;
                let a = self.address(st, p)?;
                let v = self.op(st, v);
                let n = match ty {
                    Ty::Struct(..) | Ty::Array(..) => ty.size(),
                    _ => ty.store_size(),
                };
                let bad = format!("out-of-bounds write of {n} bytes at {a:#x}");
                let Some(mut b) = self.read_bytes(st, a, n)? else {
                    return Ok(Step::End(End::Bad(bad, self.where_am_i(st))));
                };
                self.store_val(ty, &v, &mut b);
                if !self.write_bytes(st, a, &b)? {
                    return Ok(Step::End(End::Bad(bad, self.where_am_i(st))));
                }
                next!(Val::Undef)
            }
            Ins::Alloca(size, align) => {
                let a = self.alloc_stack(st, *size, *align);
                let v = Val::S(self.a.c(64, a as u128));
                next!(v)
            }
            Ins::Select(c, x, y) => {
                let c = self.op(st, c);
                let (x, y) = (self.op(st, x), self.op(st, y));
                let v = match c {
                    Val::S(c) => self.select(c, &x, &y)?,
                    Val::A(cs) => {
                        let (Val::A(xs), Val::A(ys)) = (&x, &y) else {
                            return Err("select".into());
                        };
                        let mut o = vec![];
                        for i in 0..cs.len() {
                            let Val::S(c) = cs[i] else { return Err("select".into()) };
                            o.push(self.select(c, &xs[i], &ys[i])?);
                        }
                        Val::A(Rc::new(o))
                    }
                    Val::Undef => return Err("select on undef".into()),
                };
                next!(v)
            }
            Ins::Freeze(x) => {
                let v = self.op(st, x);
                next!(v)
            }
            Ins::ExtractValue(x, ix) => {
                let mut v = self.op(st, x);
                for &i in ix {
                    v = match v {
                        Val::A(e) => e[i].clone(),
                        v => v,
                    };
                }
                next!(v)
            }
            Ins::InsertValue(x, y, ix) => {
                let x = self.op(st, x);
                let y = self.op(st, y);
                fn ins(x: Val, y: Val, ix: &[usize]) -> Val {
                    if ix.is_empty() {
                        return y;
                    }
                    let Val::A(mut e) = x else { return Val::Undef };
                    let m = Rc::make_mut(&mut e);
                    let old = std::mem::replace(&mut m[ix[0]], Val::Undef);
                    m[ix[0]] = ins(old, y, &ix[1..]);
                    Val::A(e)
                }
                let v = ins(x, y, ix);
                next!(v)
            }
            Ins::ExtractElement(x, i) => {
                let v = self.op(st, x);
                let i = self.sc(st, i)?;
                let i = self.concretize(st, i)? as usize;
                let Val::A(e) = v else { return Err("extractelement".into()) };
                next!(e[i].clone())
            }
            Ins::InsertElement(x, y, i) => {
                let v = self.op(st, x);
                let y = self.op(st, y);
                let i = self.sc(st, i)?;
                let i = self.concretize(st, i)? as usize;
                let Val::A(mut e) = v else { return Err("insertelement".into()) };
                Rc::make_mut(&mut e)[i] = y;
                next!(Val::A(e))
            }
            Ins::Shuffle(x, y, m) => {
                let (Val::A(x), Val::A(y)) = (self.op(st, x), self.op(st, y)) else {
                    return Err("shuffle".into());
                };
                let n = x.len();
                let v = m
                    .iter()
                    .map(|&i| {
                        let i = i as usize;
                        if i < n {
                            x[i].clone()
                        } else {
                            y[i - n].clone()
                        }
                    })
                    .collect();
                next!(Val::A(Rc::new(v)))
            }
            Ins::AtomicRmw(o, ty, p, v) => {
                let p = self.sc(st, p)?;
                let a = self.address(st, p)?;
                let v = self.sc(st, v)?;
                let n = ty.store_size();
                let Some(b) = self.read_bytes(st, a, n)? else { return Err("atomic".into()) };
                let Val::S(old) = self.load_val(ty, &b) else { return Err("atomic".into()) };
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.a.add(old, v),
                    "sub" => self.a.sub(old, v),
                    "and" => self.a.and(old, v),
                    "or" => self.a.or(old, v),
                    o => return Err(format!("atomicrmw {o}")),
                };
                let nb = self.bytes_of(new, n);
                self.write_bytes(st, a, &nb)?;
                next!(Val::S(old))
            }
            Ins::CmpXchg(..) => Err("cmpxchg".into()),
            Ins::Nop => next!(Val::Undef),
            Ins::Br(l) => {
                self.jump(st, *l)?;
                Ok(Step::Next)
            }
            Ins::CondBr(c, x, y) => {
                let c = self.sc(st, c)?;
                let t = self.branch(st, c)?;
                self.jump(st, if t { *x } else { *y })?;
                Ok(Step::Next)
            }
            Ins::Switch(v, d, cases) => {
                let v = self.sc(st, v)?;
                if let Some(k) = self.a.as_const(v) {
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(st, t)?;
                    return Ok(Step::Next);
                }
                // group by target, in order of first appearance
                let w = self.a.w(v);
                let mut groups: Vec<(u32, T)> = vec![];
                for (k, l) in cases {
                    let kk = self.a.c(w, *k);
                    let e = self.a.eq(v, kk);
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *l) {
                        g.1 = self.a.or(g.1, e);
                    } else {
                        groups.push((*l, e));
                    }
                }
                let n = groups.len();
                // the side the current model takes first, to save queries
                let mut order: Vec<usize> = (0..n).collect();
                for i in 0..n {
                    if self.eval(st, groups[i].1) == 1 {
                        order.swap(0, i);
                        break;
                    }
                }
                for &i in &order {
                    let (l, c) = groups[i];
                    if self.branch(st, c)? {
                        self.jump(st, l)?;
                        return Ok(Step::Next);
                    }
                }
                self.jump(st, *d)?;
                Ok(Step::Next)
            }
            Ins::Ret(v) => {
                let v = match v {
                    Some(o) => self.op(st, o),
                    None => Val::Undef,
                };
                let f = st.frames.pop().unwrap();
                st.mem.stack.truncate(f.stack_mark.0);
                st.mem.stack_top = f.stack_mark.1;
                if st.frames.is_empty() {
                    return Ok(Step::End(End::Done));
                }
                self.set(st, f.dst, v);
                st.frames.last_mut().unwrap().ip += 1;
                Ok(Step::Next)
            }
            Ins::Unreachable => {
                Ok(Step::End(End::Bad("reached unreachable code".into(), self.where_am_i(st))))
            }
            Ins::Unsupported(s) => Err(format!("unsupported: {s}")),
            Ins::Call(callee, args, rt) => {
                let name = match callee {
                    Callee::Name(n) => n.clone(),
                    Callee::Ptr(o) => {
                        let t = self.sc(st, o)?;
                        let a = self.address(st, t)?;
                        self.m
                            .func_at
                            .get(&a)
                            .cloned()
                            .ok_or(format!("call through a bad pointer {a:#x}"))?
                    }
                };
                self.call(st, dst, &name, args, rt)
            }
        }
    }

    fn flatten(&mut self, ty: &Ty, v: &Val) -> Res<T> {
        match (ty, v) {
            (_, Val::S(t)) => Ok(*t),
            (Ty::Vector(_, e), Val::A(x)) => {
                let mut acc = self.flatten(e, &x[0])?;
                for y in &x[1..] {
                    let t = self.flatten(e, y)?;
                    acc = self.a.concat(t, acc);
                }
                Ok(acc)
            }
            _ => Err("bitcast".into()),
        }
    }
    fn unflatten(&mut self, ty: &Ty, t: T) -> Val {
        match ty {
            Ty::Vector(n, e) => {
                let w = e.width();
                let v =
                    (0..*n).map(|i| Val::S(self.a.extract(t, i as u16 * w, w))).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::S(t),
        }
    }

    fn str_at(&mut self, st: &State, p: T, n: T) -> Res<String> {
        let (Some(p), Some(n)) = (self.a.as_const(p), self.a.as_const(n)) else {
            return Err("symbolic label".into());
        };
        let b = self.read_bytes(st, p as u64, n as u64)?.ok_or("label out of bounds")?;
        let mut v = vec![];
        for t in b {
            v.push(self.a.as_const(t).ok_or("symbolic label")? as u8);
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    fn location(&mut self, st: &State, args: &[Val]) -> String {
        let Some(Val::S(p)) = args.last() else { return String::new() };
        let Some(p) = self.a.as_const(*p) else { return String::new() };
        let Ok(Some(b)) = self.read_bytes(st, p as u64, 24) else { return String::new() };
        let mut raw = [0u8; 24];
        for (i, t) in b.iter().enumerate() {
            match self.a.as_const(*t) {
                Some(v) => raw[i] = v as u8,
                None => return String::new(),
            }
        }
        let g = |i: usize| u64::from_le_bytes(raw[i..i + 8].try_into().unwrap());
        let (fp, fl) = (g(0), g(8));
        let line = u32::from_le_bytes(raw[16..20].try_into().unwrap());
        if fl > 4096 {
            return String::new();
        }
        let (fp, fl) = (self.a.c(64, fp as u128), self.a.c(64, fl as u128));
        match self.str_at(st, fp, fl) {
            Ok(s) => format!("{s}:{line}"),
            Err(_) => String::new(),
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        dst: Option<u32>,
        name: &str,
        args: &[Op],
        _rt: &Ty,
    ) -> Res<Step> {
        macro_rules! next {
            ($v:expr) => {{
                let v = $v;
                self.set(st, dst, v);
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(Step::Next);
            }};
        }
        macro_rules! s {
            ($i:expr) => {
                self.sc(st, &args[$i])?
            };
        }
        if let Some(r) = name.strip_prefix("llvm.") {
            let base: String = r.to_string();
            let is = |p: &str| base == p || base.starts_with(&format!("{p}."));
            if is("lifetime.start")
                || is("lifetime.end")
                || is("experimental.noalias.scope.decl")
                || is("assume")
                || is("dbg")
                || is("prefetch")
                || is("invariant.start")
            {
                next!(Val::Undef)
            }
            if is("memcpy") || is("memmove") {
                let (d, sr, n) = (s!(0), s!(1), s!(2));
                let n = self.concretize(st, n)? as u64;
                let d = self.address(st, d)?;
                let sr = self.address(st, sr)?;
                return self.copy(st, d, sr, n, dst, Val::Undef);
            }
            if is("load.relative") {
                let (p, o) = (s!(0), s!(1));
                let o = self.concretize(st, o)? as u64;
                let p = self.address(st, p)?;
                let Some(b) = self.read_bytes(st, p.wrapping_add(o), 4)? else {
                    return Ok(Step::End(End::Bad("out-of-bounds load".into(), self.where_am_i(st))));
                };
                let mut v = b[0];
                for &x in &b[1..] {
                    v = self.a.concat(x, v);
                }
                let v = self.a.sext(v, 64);
                let p = self.a.c(64, p as u128);
                let v = self.a.add(p, v);
                next!(Val::S(v))
            }
            if is("memset") {
                let (d, v, n) = (s!(0), s!(1), s!(2));
                let n = self.concretize(st, n)? as u64;
                let d = self.address(st, d)?;
                if n > 1 << 20 {
                    return Err("huge memset".into());
                }
                if !self.write_bytes(st, d, &vec![v; n as usize])? {
                    return Ok(Step::End(End::Bad("out-of-bounds memset".into(), self.where_am_i(st))));
                }
                next!(Val::Undef)
            }
            if is("trap") || is("ubsantrap") {
                return Ok(Step::End(End::Panic("abort".into(), String::new())));
            }
            if is("expect") {
                let v = self.op(st, &args[0]);
                next!(v)
            }
            if is("is.constant") {
                let v = Val::S(self.a.b(false));
                next!(v)
            }
            if base.contains(".with.overflow") {
                let (x, y) = (s!(0), s!(1));
                let w = self.a.w(x);
                let (r, o) = match base.split('.').next().unwrap() {
                    "uadd" => {
                        let r = self.a.add(x, y);
                        let o = self.a.ult(r, x);
                        (r, o)
                    }
                    "usub" => {
                        let r = self.a.sub(x, y);
                        let o = self.a.ult(x, y);
                        (r, o)
                    }
                    "umul" => {
                        let (ex, ey) = (self.a.zext(x, 2 * w), self.a.zext(y, 2 * w));
                        let p = self.a.mul(ex, ey);
                        let r = self.a.extract(p, 0, w);
                        let h = self.a.extract(p, w, w);
                        let z = self.a.c(w, 0);
                        let o = self.a.ne(h, z);
                        (r, o)
                    }
                    k @ ("sadd" | "ssub" | "smul") => {
                        let ew = if k == "smul" { 2 * w } else { w + 1 };
                        let (ex, ey) = (self.a.sext(x, ew), self.a.sext(y, ew));
                        let p = match k {
                            "sadd" => self.a.add(ex, ey),
                            "ssub" => self.a.sub(ex, ey),
                            _ => self.a.mul(ex, ey),
                        };
                        let r = self.a.extract(p, 0, w);
                        let b = self.a.sext(r, ew);
                        let o = self.a.ne(p, b);
                        (r, o)
                    }
                    o => return Err(format!("intrinsic {o}")),
                };
                next!(Val::A(Rc::new(vec![Val::S(r), Val::S(o)])))
            }
            // elementwise integer intrinsics
            let op = base.split('.').next().unwrap().to_string();
            if matches!(op.as_str(), "umin" | "umax" | "smin" | "smax")
                || is("usub.sat")
                || is("uadd.sat")
            {
                let (x, y) = (self.op(st, &args[0]), self.op(st, &args[1]));
                let key = if op == "usub" || op == "uadd" { format!("{op}.sat") } else { op };
                let v = self.map2(&x, &y, &mut |s, p, q| {
                    let w = s.a.w(p);
                    match key.as_str() {
                        "umin" => {
                            let c = s.a.ult(p, q);
                            s.a.ite(c, p, q)
                        }
                        "umax" => {
                            let c = s.a.ult(p, q);
                            s.a.ite(c, q, p)
                        }
                        "smin" => {
                            let c = s.a.slt(p, q);
                            s.a.ite(c, p, q)
                        }
                        "smax" => {
                            let c = s.a.slt(p, q);
                            s.a.ite(c, q, p)
                        }
                        "usub.sat" => {
                            let c = s.a.ult(p, q);
                            let z = s.a.c(w, 0);
                            let d = s.a.sub(p, q);
                            s.a.ite(c, z, d)
                        }
                        _ => {
                            let r = s.a.add(p, q);
                            let c = s.a.ult(r, p);
                            let m = s.a.c(w, !0);
                            s.a.ite(c, m, r)
                        }
                    }
                })?;
                next!(v)
            }
            match op.as_str() {
                "ucmp" | "scmp" => {
                    let (x, y) = (s!(0), s!(1));
                    let (l, g) = if op == "ucmp" {
                        (self.a.ult(x, y), self.a.ult(y, x))
                    } else {
                        (self.a.slt(x, y), self.a.slt(y, x))
                    };
                    let w: u16 = base
                        .split('.')
                        .nth(1)
                        .and_then(|t| t[1..].parse().ok())
                        .ok_or("ucmp width")?;
                    let (m1, p1, z) = (self.a.c(w, !0), self.a.c(w, 1), self.a.c(w, 0));
                    let r = self.a.ite(g, p1, z);
                    let r = self.a.ite(l, m1, r);
                    next!(Val::S(r))
                }
                "fshl" | "fshr" => {
                    let (x, y, k) = (s!(0), s!(1), s!(2));
                    let w = self.a.w(x);
                    let k = self.concretize(st, k)? as u64 % w as u64;
                    let both = self.a.concat(x, y);
                    let r = if op == "fshl" {
                        self.a.extract(both, w - k as u16, w)
                    } else if k == 0 {
                        y
                    } else {
                        self.a.extract(both, k as u16, w)
                    };
                    next!(Val::S(r))
                }
                "bswap" => {
                    let x = s!(0);
                    let n = self.a.w(x) / 8;
                    let mut acc = self.a.extract(x, 0, 8);
                    for i in 1..n {
                        let b = self.a.extract(x, i * 8, 8);
                        acc = self.a.concat(acc, b);
                    }
                    next!(Val::S(acc))
                }
                "bitreverse" => {
                    let x = s!(0);
                    let n = self.a.w(x);
                    let mut acc = self.a.extract(x, 0, 1);
                    for i in 1..n {
                        let b = self.a.extract(x, i, 1);
                        acc = self.a.concat(acc, b);
                    }
                    next!(Val::S(acc))
                }
                "ctpop" => {
                    let x = s!(0);
                    let w = self.a.w(x);
                    let mut acc = self.a.c(w, 0);
                    for i in 0..w {
                        let b = self.a.extract(x, i, 1);
                        let b = self.a.zext(b, w);
                        acc = self.a.add(acc, b);
                    }
                    next!(Val::S(acc))
                }
                "ctlz" | "cttz" => {
                    let x = s!(0);
                    let w = self.a.w(x);
                    let mut acc = self.a.c(w, w as u128);
                    for i in 0..w {
                        // later iterations take precedence
                        let (bit, val) = if op == "ctlz" { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                        let b = self.a.extract(x, bit, 1);
                        let k = self.a.c(w, val as u128);
                        acc = self.a.ite(b, k, acc);
                    }
                    next!(Val::S(acc))
                }
                "abs" => {
                    let x = s!(0);
                    let w = self.a.w(x);
                    let z = self.a.c(w, 0);
                    let n = self.a.neg(x);
                    let c = self.a.slt(x, z);
                    let r = self.a.ite(c, n, x);
                    next!(Val::S(r))
                }
                "vector" => {
                    // llvm.vector.reduce.*
                    let Val::A(e) = self.op(st, &args[0]) else { return Err("reduce".into()) };
                    let mut acc = match e[0] {
                        Val::S(t) => t,
                        _ => return Err("reduce".into()),
                    };
                    for x in &e[1..] {
                        let Val::S(x) = *x else { return Err("reduce".into()) };
                        acc = if base.contains("reduce.add") {
                            self.a.add(acc, x)
                        } else if base.contains("reduce.or") {
                            self.a.or(acc, x)
                        } else if base.contains("reduce.and") {
                            self.a.and(acc, x)
                        } else if base.contains("reduce.xor") {
                            self.a.xor(acc, x)
                        } else {
                            return Err(format!("intrinsic {base}"));
                        };
                    }
                    next!(Val::S(acc))
                }
                _ => return Err(format!("intrinsic llvm.{base}")),
            }
        }
        match name {
            "sym_bits" => {
                let w = s!(0);
                let w = self.a.as_const(w).ok_or("symbolic width")? as u16;
                let key = (st.nsym, w);
                st.nsym += 1;
                let v = match self.vars.get(&key) {
                    Some(v) => *v,
                    None => {
                        let v = self.a.fresh(w);
                        self.vars.insert(key, v);
                        v
                    }
                };
                st.inputs.push(Input::Sym(v));
                let z = self.a.zext(v, 64);
                next!(Val::S(z))
            }
            "sym_choose" => {
                let n = s!(0);
                let n = self.a.as_const(n).ok_or("symbolic choice bound")? as u32;
                if n == 0 {
                    return Ok(Step::End(End::Infeasible));
                }
                let k = st.nchoice;
                let pick = if k < self.prefix.len() {
                    self.prefix[k]
                } else if self.split && k < self.lim.shard_depth {
                    for i in (1..n).rev() {
                        let mut p = self.prefix.clone();
                        p.push(i);
                        self.res.new_jobs.push(p);
                    }
                    self.prefix.push(0);
                    0
                } else {
                    for i in (1..n).rev() {
                        let mut s2 = st.clone();
                        s2.nchoice += 1;
                        s2.inputs.push(Input::Choice(i));
                        let v = Val::S(self.a.c(32, i as u128));
                        self.set(&mut s2, dst, v);
                        s2.frames.last_mut().unwrap().ip += 1;
                        self.res.stats.forks += 1;
                        self.work.push(s2);
                    }
                    self.split = false;
                    0
                };
                if pick >= n {
                    return Err("choice prefix out of range".into());
                }
                st.nchoice += 1;
                st.inputs.push(Input::Choice(pick));
                let v = Val::S(self.a.c(32, pick as u128));
                next!(v)
            }
            "sym_assume" => {
                let c = s!(0);
                let c = self.a.extract(c, 0, 1);
                if let Some(v) = self.a.as_const(c) {
                    if v == 0 {
                        return Ok(Step::End(End::Infeasible));
                    }
                    next!(Val::Undef)
                }
                if self.eval(st, c) != 1 {
                    match self.query(st, c) {
                        (Sat::Sat, Some(m)) => self.set_model(st, m),
                        (Sat::Unsat, _) => return Ok(Step::End(End::Infeasible)),
                        _ => return Err("solver gave no answer (assume)".into()),
                    }
                }
                st.pc.push(c);
                next!(Val::Undef)
            }
            "sym_check" => {
                let (c, p, n) = (s!(0), s!(1), s!(2));
                let c = self.a.extract(c, 0, 1);
                let msg = self.str_at(st, p, n)?;
                *self.res.check_ids.entry(msg.clone()).or_insert(0) += 1;
                self.res.stats.checks += 1;
                let id = fnv_str(msg.as_bytes());
                if self.a.as_const(c) == Some(1) {
                    st.events.push(Ev::Check(id, c));
                    next!(Val::Undef)
                }
                let nc = self.a.not(c);
                let ok_now = self.eval(st, c) == 1;
                if !ok_now {
                    let inputs = self.concrete_inputs(st);
                    self.violation("check", msg, String::new(), st, inputs);
                    // continue on the side where it holds, if any
                    match self.query(st, c) {
                        (Sat::Sat, Some(m)) => self.set_model(st, m),
                        (Sat::Unsat, _) => return Ok(Step::End(End::Infeasible)),
                        _ => return Err("solver gave no answer (check)".into()),
                    }
                } else {
                    self.res.stats.checks_by_solver += 1;
                    match self.query(st, nc) {
                        (Sat::Unsat, _) => {}
                        (Sat::Sat, Some(m)) => {
                            let keep = st.model.clone();
                            self.set_model(st, m);
                            let inputs = self.concrete_inputs(st);
                            self.violation("check", msg, String::new(), st, inputs);
                            st.model = keep;
                            self.a.new_epoch();
                            self.epoch_model = std::ptr::null();
                        }
                        _ => return Err("solver gave no answer (check)".into()),
                    }
                }
                st.pc.push(c);
                st.events.push(Ev::Check(id, c));
                next!(Val::Undef)
            }
            "sym_cover" => {
                let (p, n) = (s!(0), s!(1));
                let msg = self.str_at(st, p, n)?;
                let id = fnv_str(msg.as_bytes());
                *self.res.covers.entry(msg).or_insert(0) += 1;
                st.events.push(Ev::Cover(id));
                next!(Val::Undef)
            }
            "sym_observe" => {
                let t = s!(0);
                st.events.push(Ev::Observe(t));
                next!(Val::Undef)
            }
            "sym_known" => {
                let (p, n) = (s!(0), s!(1));
                let msg = self.str_at(st, p, n)?;
                st.marks.push(msg);
                next!(Val::Undef)
            }
            "sym_panic_ok" => {
                let c = s!(0);
                let c = self.a.extract(c, 0, 1);
                let b = self.branch(st, c)?;
                st.panic_ok = b;
                next!(Val::Undef)
            }
            "sym_concrete" => {
                let t = s!(0);
                let v = self.concretize(st, t)?;
                let v = Val::S(self.a.c(64, v));
                next!(v)
            }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (s!(0), s!(1), s!(2));
                let n = self.concretize(st, n)? as u64;
                let p = self.address(st, p)?;
                let q = self.address(st, q)?;
                let (Some(x), Some(y)) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?)
                else {
                    return Ok(Step::End(End::Bad("out-of-bounds memcmp".into(), self.where_am_i(st))));
                };
                let one = self.a.c(32, 1);
                let mone = self.a.c(32, !0);
                let mut acc = self.a.c(32, 0);
                for i in (0..n as usize).rev() {
                    let e = self.a.eq(x[i], y[i]);
                    let r = if name == "bcmp" {
                        one
                    } else {
                        let l = self.a.ult(x[i], y[i]);
                        self.a.ite(l, mone, one)
                    };
                    acc = self.a.ite(e, acc, r);
                }
                next!(Val::S(acc))
            }
            "memcpy" | "memmove" => {
                let (d, sr, n) = (s!(0), s!(1), s!(2));
                let n = self.concretize(st, n)? as u64;
                let da = self.address(st, d)?;
                let sr = self.address(st, sr)?;
                return self.copy(st, da, sr, n, dst, Val::S(d));
            }
            "strlen" => {
                let p = s!(0);
                let p = self.address(st, p)?;
                let mut n = 0;
                loop {
                    let b = self.read_bytes(st, p + n, 1)?.ok_or("strlen")?[0];
                    if self.concretize(st, b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                let v = Val::S(self.a.c(64, n as u128));
                next!(v)
            }
            "malloc" | "calloc" => {
                let n = s!(0);
                let mut n = self.concretize(st, n)? as u64;
                if name == "calloc" {
                    let k = s!(1);
                    n = n.saturating_mul(self.concretize(st, k)? as u64);
                }
                if n > 1 << 24 {
                    return Err(format!("allocation of {n} bytes"));
                }
                let p = self.alloc_heap(st, n, 16);
                let v = Val::S(self.a.c(64, p as u128));
                next!(v)
            }
            "realloc" => {
                let (p, n) = (s!(0), s!(1));
                let p = self.address(st, p)?;
                let n = self.concretize(st, n)? as u64;
                if n > 1 << 24 {
                    return Err(format!("allocation of {n} bytes"));
                }
                let Some((o, Loc::Heap(i))) = self.find(st, p, 0)? else {
                    return Ok(Step::End(End::Bad("bad realloc".into(), self.where_am_i(st))));
                };
                if o.base != p {
                    return Ok(Step::End(End::Bad("bad realloc".into(), self.where_am_i(st))));
                }
                let k = (n as usize).min(o.bytes.len());
                let q = self.alloc_heap(st, n, 16);
                self.write_bytes(st, q, &o.bytes[..k])?;
                st.mem.heap[i] = None;
                let v = Val::S(self.a.c(64, q as u128));
                next!(v)
            }
            "free" => {
                let p = s!(0);
                let p = self.address(st, p)?;
                if p == 0 {
                    next!(Val::Undef)
                }
                match self.find(st, p, 0)? {
                    Some((o, Loc::Heap(i))) if o.base == p => st.mem.heap[i] = None,
                    _ => {
                        return Ok(Step::End(End::Bad("bad free".into(), self.where_am_i(st))))
                    }
                }
                next!(Val::Undef)
            }
            "abort" => return Ok(Step::End(End::Panic("abort".into(), String::new()))),
            _ => {}
        }
        if name.starts_with("_RN") {
            if panic_fn(name) {
                let vals: Vec<Val> = args.iter().map(|o| self.op(st, o)).collect();
                let loc = self.location(st, &vals);
                let short = name
                    .rsplit(|c: char| !(c.is_ascii_lowercase() || c == '_'))
                    .find(|s| s.len() > 4)
                    .unwrap_or(name)
                    .to_string();
                return Ok(Step::End(End::Panic(short, loc)));
            }
            if name.ends_with("12___rust_alloc") || name.ends_with("19___rust_alloc_zeroed") {
                let (n, al) = (s!(0), s!(1));
                let n = self.concretize(st, n)? as u64;
                let al = self.concretize(st, al)? as u64;
                if n > 1 << 24 {
                    return Err(format!("allocation of {n} bytes"));
                }
                let p = self.alloc_heap(st, n, al);
                let v = Val::S(self.a.c(64, p as u128));
                next!(v)
            }
            if name.ends_with("14___rust_dealloc") {
                let p = s!(0);
                let p = self.address(st, p)?;
                match self.find(st, p, 0)? {
                    Some((o, Loc::Heap(i))) if o.base == p => st.mem.heap[i] = None,
                    _ => {
                        return Ok(Step::End(End::Bad("bad free".into(), self.where_am_i(st))))
                    }
                }
                next!(Val::Undef)
            }
            if name.ends_with("14___rust_realloc") {
                let (p, old, al, n) = (s!(0), s!(1), s!(2), s!(3));
                let p = self.address(st, p)?;
                let old = self.concretize(st, old)? as u64;
                let al = self.concretize(st, al)? as u64;
                let n = self.concretize(st, n)? as u64;
                if n > 1 << 24 {
                    return Err(format!("allocation of {n} bytes"));
                }
                let k = old.min(n);
                let b = self.read_bytes(st, p, k)?.ok_or("realloc")?;
                let q = self.alloc_heap(st, n, al);
                self.write_bytes(st, q, &b)?;
                if let Some((_, Loc::Heap(i))) = self.find(st, p, 0)? {
                    st.mem.heap[i] = None;
                }
                let v = Val::S(self.a.c(64, q as u128));
                next!(v)
            }
            if name.contains("no_alloc_shim_is_unstable") {
                next!(Val::Undef)
            }
        }
        if !self.m.has_func(name) {
            return Err(format!("call to external function {name}"));
        }
        if st.frames.len() > 200 {
            return Err("recursion depth".into());
        }
        let f = self.m.func(name)?;
        if !self.res.funcs.contains(name) {
            self.res.funcs.insert(name.to_string());
        }
        let mut regs = vec![Val::Undef; f.nregs];
        for (i, p) in f.params.iter().enumerate() {
            regs[*p as usize] = self.op(st, &args[i]);
        }
        let mark = (st.mem.stack.len(), st.mem.stack_top);
        st.frames.push(Frame {
            func: f,
            block: 0,
            ip: 0,
            regs: Rc::new(regs),
            dst,
            stack_mark: mark,
        });
        Ok(Step::Next)
    }

    fn copy(
        &mut self,
        st: &mut State,
        d: u64,
        s: u64,
        n: u64,
        dst: Option<u32>,
        ret: Val,
    ) -> Res<Step> {
        let Some(b) = self.read_bytes(st, s, n)? else {
            return Ok(Step::End(End::Bad(
                format!("out-of-bounds copy source, {n} bytes"),
                self.where_am_i(st),
            )));
        };
        if !self.write_bytes(st, d, &b)? {
            return Ok(Step::End(End::Bad(
                format!("out-of-bounds copy destination, {n} bytes"),
                self.where_am_i(st),
            )));
        }
        self.set(st, dst, ret);
        st.frames.last_mut().unwrap().ip += 1;
        Ok(Step::Next)
    }
}

#[derive(Clone, Copy)]
enum Loc {
    Stack(usize),
    Heap(usize),
    Global(usize),
}

#[allow(dead_code)]
fn _unused() {
    let _ = (mask(1), sext_val(0, 1));
}
