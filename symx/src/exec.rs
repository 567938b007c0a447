//! Symbolic executor over the parsed module.
use crate::ir::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    S(T),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
enum Kind {
    Bytes(Vec<Option<T>>),
    Big { arr: u32, base: T, zero: bool, log: Vec<(T, T)> },
}

#[derive(Clone)]
struct Obj {
    size: u64,
    alive: bool,
    ro: bool,
    kind: Kind,
}

#[derive(Clone)]
struct Frame {
    f: Arc<Func>,
    regs: Vec<Option<Val>>,
    bb: u32,
    ip: usize,
    dst: Option<u32>,
    next: Option<u32>,
    allocas: Vec<usize>,
}

#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    heap: Vec<Rc<Obj>>,
    gl: HashMap<u32, Rc<Obj>>,
    pc: Vec<T>,
    model: Rc<Model>,
    conc: HashMap<T, u128>,
    inputs: Vec<(u32, u8, T)>,
    obs: Vec<T>,
    prots: Vec<(T, T, T)>,
    /// the n-th next call fails (0: none): mprotect, large allocation
    fault: [u64; 2],
    /// ranges (object, first offset, end offset) of big objects that must not be written
    guards: Vec<(usize, T, T)>,
    bigs: Vec<(T, usize)>,
    lo: Option<T>,
    hi: Option<T>,
    steps: u64,
}

enum Stop {
    End(&'static str),
    Err(String),
}
type R<X> = Result<X, Stop>;

#[derive(Clone, Copy, Debug)]
enum Where {
    Heap(usize),
    Glob(u32),
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub inputs: Vec<(u32, u8, u64)>,
    pub bases: Vec<u64>,
    pub mem: Vec<(u32, u64, u8)>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub w: Witness,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub w: Witness,
    pub obs: Vec<u64>,
    pub panic: bool,
}

#[derive(Default)]
pub struct Report {
    pub name: String,
    pub ok: u64,
    pub panics: u64,
    pub cut: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub solver_s: f64,
    pub slowest_s: f64,
    pub wall_s: f64,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub errors: Vec<String>,
    pub funcs: BTreeSet<u32>,
    pub assert_ids: BTreeMap<u32, u64>,
}

pub struct Opts {
    pub solver: String,
    pub query_ms: u64,
    pub harness_s: u64,
    pub max_paths: u64,
    pub max_steps: u64,
    pub samples: usize,
    pub max_viol: usize,
    /// once a violation is found, the other harnesses stop after this many seconds (0: never)
    pub grace_s: u64,
    pub found: std::sync::OnceLock<Instant>,
}

pub struct Exec<'a> {
    m: &'a Module,
    c: Ctx,
    s: Solver,
    o: &'a Opts,
    work: Vec<State>,
    pub r: Report,
    narr: u32,
    t0: Instant,
    seen_viol: BTreeMap<(String, u32), usize>,
    gcache: HashMap<u32, Rc<Obj>>,
    /// the value whose bytes these are (bytes of a stored value, to put it together again on load)
    whole: HashMap<Vec<T>, T>,
    stopped: bool,
}

const BIG: u64 = 1 << 24;

fn crate_of(name: &str) -> Option<&str> {
    // first v0 crate marker: C s<hash>_ <len> <name>
    let b = name.as_bytes();
    if !name.starts_with("_R") {
        return None;
    }
    let mut i = 2;
    while i + 1 < b.len() {
        if b[i] == b'C' && b[i + 1] == b's' {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                let mut k = j + 1;
                let mut n = 0usize;
                while k < b.len() && b[k].is_ascii_digit() {
                    n = n * 10 + (b[k] - b'0') as usize;
                    k += 1;
                }
                if n > 0 && k + n <= b.len() {
                    return Some(&name[k..k + n]);
                }
            }
        }
        i += 1;
    }
    None
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, o: &'a Opts, name: &str) -> Self {
        Exec {
            m,
            c: Ctx::new(),
            s: Solver::new(&o.solver, o.query_ms),
            o,
            work: vec![],
            r: Report { name: name.to_string(), ..Default::default() },
            narr: 0,
            t0: Instant::now(),
            seen_viol: BTreeMap::new(),
            gcache: HashMap::new(),
            whole: HashMap::new(),
            stopped: false,
        }
    }

    pub fn run(mut self) -> Report {
        let id = self.m.fmap[&self.r.name];
        match self.m.func(id) {
            Err(e) => self.r.errors.push(e.clone()),
            Ok(f) => {
                let f = f.clone();
                self.r.funcs.insert(id);
                let st = State {
                    frames: vec![Frame {
                        regs: vec![None; f.nregs as usize],
                        f,
                        bb: 0,
                        ip: 0,
                        dst: None,
                        next: None,
                        allocas: vec![],
                    }],
                    heap: vec![],
                    gl: HashMap::new(),
                    pc: vec![],
                    model: Model::new(HashMap::new(), HashMap::new()),
                    conc: HashMap::new(),
                    inputs: vec![],
                    obs: vec![],
                    prots: vec![],
                    fault: [0; 2],
                    guards: vec![],
                    bigs: vec![],
                    lo: None,
                    hi: None,
                    steps: 0,
                };
                self.work.push(st);
                while let Some(st) = self.work.pop() {
                    if self.over() {
                        if !self.stopped {
                            self.r.errors.push(format!("time limit of {} s reached", self.o.harness_s));
                        }
                        break;
                    }
                    if self.r.ok + self.r.panics + self.r.cut > self.o.max_paths {
                        self.r.errors.push("path limit reached".into());
                        break;
                    }
                    if self.r.violations.len() >= self.o.max_viol || self.r.errors.len() > 8 {
                        break;
                    }
                    self.run_state(st);
                }
            }
        }
        self.r.queries = self.s.queries;
        self.r.sat = self.s.sat;
        self.r.unsat = self.s.unsat;
        self.r.unknown = self.s.unknown;
        self.r.cached = self.s.cached;
        self.r.solver_s = self.s.time.as_secs_f64();
        self.r.slowest_s = self.s.slowest.as_secs_f64();
        self.r.wall_s = self.t0.elapsed().as_secs_f64();
        self.r
    }

    /// Time is up: the limit of this harness, or a violation was found elsewhere.
    fn over(&mut self) -> bool {
        if self.o.grace_s > 0 {
            if let Some(t) = self.o.found.get() {
                if t.elapsed().as_secs() >= self.o.grace_s {
                    self.stopped = true;
                    return true;
                }
            }
        }
        self.t0.elapsed().as_secs() > self.o.harness_s
    }

    fn run_state(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {
                    st.steps += 1;
                    if st.steps > self.o.max_steps {
                        break Stop::Err("instruction limit per path reached".into());
                    }
                    if st.steps % 512 == 0 && self.over() {
                        // reported by the loop over the states
                        self.work.push(st);
                        return;
                    }
                }
                Err(e) => break e,
            }
        };
        self.r.steps += st.steps - s0;
        match r {
            Stop::End("ok") => {
                self.r.ok += 1;
                self.sample(&st, false);
            }
            Stop::End("panic") => {
                self.r.panics += 1;
                self.sample(&st, true);
            }
            Stop::End(_) => self.r.cut += 1,
            Stop::Err(_) if self.stopped => {}
            Stop::Err(e) => {
                let w = st
                    .frames
                    .iter()
                    .rev()
                    .take(4)
                    .map(|f| f.f.name.clone())
                    .collect::<Vec<_>>()
                    .join(" < ");
                self.r.errors.push(format!("{} [in {}]", e, w));
            }
        }
    }

    fn sample(&mut self, st: &State, panic: bool) {
        if self.r.samples.len() < self.o.samples {
            let w = self.witness(st, &st.model);
            let obs = st.obs.iter().map(|&t| self.c.eval(t, &st.model) as u64).collect();
            self.r.samples.push(Sample { w, obs, panic });
        }
    }

    fn witness(&self, st: &State, m: &Model) -> Witness {
        let inputs = st.inputs.iter().map(|&(t, b, v)| (t, b, self.c.eval(v, m) as u64)).collect();
        let bases = st.bigs.iter().map(|&(b, _)| self.c.eval(b, m) as u64).collect();
        let mut mem: Vec<(u32, u64, u8)> = vec![];
        for (&(a, o), &v) in &m.sel {
            let k = st.bigs.iter().position(|&(_, i)| matches!(st.heap[i].kind, Kind::Big{arr,..} if arr == a));
            if let Some(k) = k {
                mem.push((k as u32, o, v));
            }
        }
        mem.sort();
        Witness { inputs, bases, mem }
    }

    // ---- solver plumbing ----------------------------------------------------
    fn merge(&self, old: &Model, vals: HashMap<u32, u128>, sel: HashMap<(u32, u64), u8>) -> Rc<Model> {
        let mut v = old.vals.clone();
        v.extend(vals);
        let mut s = old.sel.clone();
        s.extend(sel);
        Model::new(v, s)
    }
    /// Is pc && q satisfiable? Some(model) / None
    fn sat(&mut self, st: &State, q: T) -> R<Option<Rc<Model>>> {
        if self.c.cval(q) == Some(0) {
            return Ok(None);
        }
        if self.c.eval(q, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        if self.over() {
            return Err(Stop::Err(if self.stopped { "stopped" } else { "time limit reached" }.into()));
        }
        let sl = self.s.slice(&self.c, &st.pc, q);
        match self.s.check(&self.c, &sl) {
            Res::Unsat => Ok(None),
            Res::Sat(v, s) => {
                let m = self.merge(&st.model, v, s);
                // guard against a translator/solver mismatch
                for &p in &sl {
                    if self.c.eval(p, &m) != 1 {
                        // arrays: stale bytes kept from the old model may clash; retry with whole pc
                        let mut all = st.pc.clone();
                        all.push(q);
                        all.sort();
                        all.dedup();
                        return match self.s.check(&self.c, &all) {
                            Res::Unsat => Ok(None),
                            Res::Sat(v, s) => {
                                let m = Model::new(v, s);
                                for &p in &all {
                                    if self.c.eval(p, &m) != 1 {
                                        return Err(Stop::Err("solver model does not satisfy the query".into()));
                                    }
                                }
                                Ok(Some(m))
                            }
                            Res::Unknown(e) => Err(Stop::Err(format!("inconclusive query: {}", e))),
                        };
                    }
                }
                Ok(Some(m))
            }
            Res::Unknown(e) => Err(Stop::Err(format!("inconclusive query: {}", e))),
        }
    }
    /// record a condition of the path
    fn add(&mut self, st: &mut State, c: T) {
        self.add_fact(st, c, true)
    }
    /// record a consequence of the path: known from now on, but no new constraint
    fn learn(&mut self, st: &mut State, c: T) {
        self.add_fact(st, c, false)
    }
    fn add_fact(&mut self, st: &mut State, c: T, new: bool) {
        if self.c.cval(c).is_some() {
            return;
        }
        // split conjunctions for better slicing
        if let Op::And = self.c.op(c) {
            let (a, b) = (self.c.args(c)[0], self.c.args(c)[1]);
            if self.c.w(c) == 1 {
                self.add_fact(st, a, new);
                self.add_fact(st, b, new);
                return;
            }
        }
        if new && !st.pc.contains(&c) {
            st.pc.push(c);
        }
        st.conc.insert(c, 1);
        let n = self.c.not(c);
        st.conc.insert(n, 0);
        if let Op::Eq = self.c.op(c) {
            let (a, b) = (self.c.args(c)[0], self.c.args(c)[1]);
            if let Some(v) = self.c.cval(b) {
                st.conc.insert(a, v);
            } else if let Some(v) = self.c.cval(a) {
                st.conc.insert(b, v);
            }
        }
    }
    fn red(&mut self, st: &State, t: T) -> T {
        if let Some(&v) = st.conc.get(&t) {
            let w = self.c.w(t);
            return self.c.konst(w, v);
        }
        t
    }
    /// Decide a condition; forks the other side.
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        let c = self.red(st, c);
        if let Some(v) = self.c.cval(c) {
            return Ok(v == 1);
        }
        let v = self.c.eval(c, &st.model) == 1;
        let nc = self.c.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.sat(st, other)? {
            let mut s2 = st.clone();
            s2.model = m;
            self.add(&mut s2, other);
            self.r.forks += 1;
            self.work.push(s2);
            self.add(st, mine);
        } else {
            self.learn(st, mine);
        }
        Ok(v)
    }
    /// Like decide, but prefers not to fork: true if c holds on the whole path
    fn must(&mut self, st: &State, c: T) -> R<bool> {
        let c = self.red(st, c);
        if let Some(v) = self.c.cval(c) {
            return Ok(v == 1);
        }
        let nc = self.c.not(c);
        Ok(self.sat(st, nc)?.is_none())
    }
    fn concretise(&mut self, st: &mut State, t: T) -> R<u128> {
        let t = self.red(st, t);
        if let Some(v) = self.c.cval(t) {
            return Ok(v);
        }
        let w = self.c.w(t);
        let v0 = self.c.eval(t, &st.model);
        let k0 = self.c.konst(w, v0);
        let e0 = self.c.eq(t, k0);
        let mut excl = self.c.not(e0);
        let mut n = 0;
        while let Some(m) = self.sat(st, excl)? {
            let v = self.c.eval(t, &m);
            let k = self.c.konst(w, v);
            let e = self.c.eq(t, k);
            let mut s2 = st.clone();
            s2.model = m;
            self.add(&mut s2, e);
            s2.conc.insert(t, v);
            self.r.forks += 1;
            self.work.push(s2);
            let ne = self.c.not(e);
            excl = self.c.and(excl, ne);
            n += 1;
            if n > 600 {
                return Err(Stop::Err(format!("too many values for {}", self.c.show(t, 3))));
            }
        }
        self.add(st, e0);
        st.conc.insert(t, v0);
        Ok(v0)
    }
    /// Is this the call that was chosen to fail?
    fn fails(st: &mut State, k: usize) -> bool {
        if st.fault[k] > 0 {
            st.fault[k] -= 1;
            return st.fault[k] == 0;
        }
        false
    }
    fn violation(&mut self, st: &State, kind: &str, id: u32, msg: String, m: &Model) {
        let key = (kind.to_string(), id);
        let n = self.seen_viol.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 {
            return;
        }
        let w = self.witness(st, m);
        if !(kind == "assert" && id == 9000) {
            let _ = self.o.found.set(Instant::now());
        }
        self.r.violations.push(Violation { kind: kind.into(), id, msg, w });
    }
    /// Assertion: c must hold for every value on this path.
    fn check(&mut self, st: &mut State, c: T, kind: &str, id: u32, msg: &str) -> R<()> {
        self.r.asserts += 1;
        let c = self.red(st, c);
        if self.c.cval(c) == Some(1) {
            return Ok(());
        }
        self.r.asserts_solver += 1;
        let nc = self.c.not(c);
        if let Some(m) = self.sat(st, nc)? {
            self.violation(st, kind, id, msg.to_string(), &m);
            match self.sat(st, c)? {
                Some(m) => st.model = m,
                None => return Err(Stop::End("cut")),
            }
            self.add(st, c);
        } else {
            self.learn(st, c);
        }
        Ok(())
    }

    // ---- values -------------------------------------------------------------
    fn opd(&mut self, st: &State, o: &Opd) -> R<Val> {
        Ok(match o {
            Opd::Reg(r) => {
                let f = st.frames.last().unwrap();
                match &f.regs[*r as usize] {
                    Some(Val::S(t)) => Val::S(self.red(st, *t)),
                    Some(v) => v.clone(),
                    None => return Err(Stop::Err("use of unset register".into())),
                }
            }
            Opd::Int(w, v) => Val::S(self.c.konst(*w, *v)),
            Opd::Undef(t) => self.undef(t)?,
            Opd::Zero(t) => self.zero(t)?,
            Opd::Agg(v) => {
                let mut out = vec![];
                for x in v {
                    out.push(self.opd(st, x)?);
                }
                Val::A(Rc::new(out))
            }
            Opd::Bad(e) => return Err(Stop::Err(format!("operand: {}", e))),
        })
    }
    fn undef(&mut self, t: &Ty) -> R<Val> {
        if t.is_agg() {
            let mut v = vec![];
            for i in 0..t.count() {
                v.push(self.undef(&t.elem(i))?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let b = t.bits();
        if b == 0 {
            return Err(Stop::Err("undef of odd type".into()));
        }
        Ok(Val::S(self.c.var(b, "undef")))
    }
    fn zero(&mut self, t: &Ty) -> R<Val> {
        if t.is_agg() {
            let mut v = vec![];
            for i in 0..t.count() {
                v.push(self.zero(&t.elem(i))?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        Ok(Val::S(self.c.konst(t.bits(), 0)))
    }
    fn sc(&mut self, st: &State, o: &Opd) -> R<T> {
        match self.opd(st, o)? {
            Val::S(t) => Ok(t),
            Val::A(_) => Err(Stop::Err("aggregate where scalar expected".into())),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let f = st.frames.last_mut().unwrap();
        if d != u32::MAX {
            f.regs[d as usize] = Some(v);
        }
    }
    fn k64(&mut self, v: u64) -> T {
        self.c.konst(64, v as u128)
    }

    // ---- memory -------------------------------------------------------------
    fn new_bytes(&mut self, st: &mut State, size: u64, zero: bool) -> u64 {
        let z = if zero { Some(self.c.konst(8, 0)) } else { None };
        let idx = st.heap.len();
        st.heap.push(Rc::new(Obj {
            size,
            alive: true,
            ro: false,
            kind: Kind::Bytes(vec![z; size as usize]),
        }));
        (idx as u64 + 1) << KEYSHIFT
    }
    fn new_big(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<T> {
        let lg = align.max(4096).trailing_zeros() as u8;
        // base = v * align, nonzero, base + size <= 2^47
        let vw = 47 - lg;
        let v = self.c.var(vw, "base");
        let hi = self.c.konst(17, 0);
        let lo = self.c.konst(lg, 0);
        let base = self.c.concat(vec![hi, v, lo]);
        let arr = self.narr;
        self.narr += 1;
        let idx = st.heap.len();
        st.heap.push(Rc::new(Obj {
            size,
            alive: true,
            ro: false,
            kind: Kind::Big { arr, base, zero, log: vec![] },
        }));
        let min = self.k64(0x10000);
        let c1 = self.c.ule(min, base);
        let max = self.k64((1u64 << 47) - size);
        let c2 = self.c.ule(base, max);
        self.assume(st, c1)?;
        self.assume(st, c2)?;
        // disjoint from the other big objects
        for (b, i) in st.bigs.clone() {
            let ob = st.heap[i].size;
            let e1 = self.k64(size);
            let e2 = self.k64(ob);
            let end1 = self.c.add(base, e1);
            let end2 = self.c.add(b, e2);
            let x = self.c.ule(end1, b);
            let y = self.c.ule(end2, base);
            let d = self.c.or(x, y);
            self.assume(st, d)?;
        }
        st.bigs.push((base, idx));
        Ok(base)
    }
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        let c = self.red(st, c);
        if self.c.cval(c) == Some(1) {
            return Ok(());
        }
        match self.sat(st, c)? {
            None => Err(Stop::End("cut")),
            Some(m) => {
                st.model = m;
                self.add(st, c);
                Ok(())
            }
        }
    }
    fn alloc(&mut self, st: &mut State, size: T, align: T, zero: bool) -> R<T> {
        let size = self.concretise(st, size)? as u64;
        let align = self.concretise(st, align)? as u64;
        if size >= BIG {
            if Self::fails(st, 1) {
                return Ok(self.k64(0));
            }
            return self.new_big(st, size, align, zero);
        }
        let a = self.new_bytes(st, size, zero);
        Ok(self.k64(a))
    }
    fn global_obj(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) {
            return Ok(o.clone());
        }
        let (ty, init, constant) = match self.m.global(id) {
            Ok(x) => x.clone(),
            Err(e) => return Err(Stop::Err(format!("global {}: {}", self.m.globals[id as usize].name, e))),
        };
        let n = ty.size();
        let mut bytes: Vec<Option<T>> = vec![None; n as usize];
        match init {
            None => return Err(Stop::Err(format!("external global {}", self.m.globals[id as usize].name))),
            Some(o) => self.init_bytes(&ty, &o, 0, &mut bytes)?,
        }
        let o = Rc::new(Obj { size: n, alive: true, ro: constant, kind: Kind::Bytes(bytes) });
        self.gcache.insert(id, o.clone());
        Ok(o)
    }
    fn init_bytes(&mut self, ty: &Ty, o: &Opd, off: usize, out: &mut Vec<Option<T>>) -> R<()> {
        match o {
            Opd::Int(_, v) => {
                for k in 0..ty.store() as usize {
                    out[off + k] = Some(self.c.konst(8, v >> (8 * k)));
                }
            }
            Opd::Undef(_) => {}
            Opd::Zero(_) => {
                for k in 0..ty.size() as usize {
                    out[off + k] = Some(self.c.konst(8, 0));
                }
            }
            Opd::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let t = ty.elem(i);
                    let fo = ty.field_off(i) as usize;
                    self.init_bytes(&t, x, off + fo, out)?;
                }
            }
            _ => return Err(Stop::Err("initialiser".into())),
        }
        Ok(())
    }
    fn resolve(&mut self, st: &State, p: T) -> R<(Where, T)> {
        let p = self.red(st, p);
        if let Some(v) = self.c.cval(p) {
            let v = v as u64;
            return match self.key_of(st, v) {
                Some(w) => {
                    let off = v & ((1 << KEYSHIFT) - 1);
                    Ok((w, self.k64(off)))
                }
                None => Err(Stop::Err(format!("access to address {:#x}", v))),
            };
        }
        let (lin, c) = self.c.linear(p);
        for &(b, i) in &st.bigs {
            if lin.iter().any(|&(t, k)| t == b && k == 1) {
                let off = self.c.sub(p, b);
                return Ok((Where::Heap(i), off));
            }
        }
        if let Some(w) = self.key_of(st, c as u64) {
            let base = (c as u64) & !((1u64 << KEYSHIFT) - 1);
            let b = self.k64(base);
            let off = self.c.sub(p, b);
            return Ok((w, off));
        }
        Err(Stop::Err(format!("cannot resolve pointer {}", self.c.show(p, 4))))
    }
    fn key_of(&self, st: &State, v: u64) -> Option<Where> {
        let k = v >> KEYSHIFT;
        if k == 0 {
            return None;
        }
        if k - 1 < st.heap.len() as u64 {
            return Some(Where::Heap(k as usize - 1));
        }
        if k >= GLOBAL_KEY0 && k - GLOBAL_KEY0 < self.m.globals.len() as u64 {
            return Some(Where::Glob((k - GLOBAL_KEY0) as u32));
        }
        None
    }
    fn obj(&mut self, st: &State, w: Where) -> R<Rc<Obj>> {
        match w {
            Where::Heap(i) => Ok(st.heap[i].clone()),
            Where::Glob(g) => match st.gl.get(&g) {
                Some(o) => Ok(o.clone()),
                None => self.global_obj(g),
            },
        }
    }
    fn obj_mut<'b>(&mut self, st: &'b mut State, w: Where) -> R<&'b mut Obj> {
        match w {
            Where::Heap(i) => Ok(Rc::make_mut(&mut st.heap[i])),
            Where::Glob(g) => {
                if !st.gl.contains_key(&g) {
                    let o = self.global_obj(g)?;
                    st.gl.insert(g, o);
                }
                Ok(Rc::make_mut(st.gl.get_mut(&g).unwrap()))
            }
        }
    }
    /// Bounds, liveness and write permission of an access of n bytes.
    fn access(&mut self, st: &mut State, p: T, n: u64, write: bool) -> R<(Where, T)> {
        let (w, off) = match self.resolve(st, p) {
            Ok(x) => x,
            Err(Stop::Err(e)) if e.starts_with("access to address") => {
                let m = st.model.clone();
                self.violation(st, "memory", 0, format!("{} in {}", e, st.frames.last().unwrap().f.name), &m);
                return Err(Stop::End("cut"));
            }
            Err(e) => return Err(e),
        };
        let o = self.obj(st, w)?;
        let fname = st.frames.last().unwrap().f.name.clone();
        if !o.alive || (write && o.ro) {
            let m = st.model.clone();
            let what = if o.alive { "write to read-only memory" } else { "use after free" };
            self.violation(st, "memory", 1, format!("{} in {}", what, fname), &m);
            return Err(Stop::End("cut"));
        }
        let c = if o.size < n {
            self.c.fls()
        } else {
            let lim = self.k64(o.size - n);
            self.c.ule(off, lim)
        };
        if self.c.cval(c) != Some(1) {
            self.check(st, c, "memory", 2, &format!("out-of-bounds access in {}", fname))?;
        }
        Ok((w, off))
    }
    fn read_bytes(&mut self, st: &mut State, p: T, n: u64) -> R<Vec<Option<T>>> {
        let (w, off) = self.access(st, p, n, false)?;
        let o = self.obj(st, w)?;
        match &o.kind {
            Kind::Bytes(b) => {
                if let Some(k) = self.c.cval(off) {
                    let k = k as usize;
                    return Ok(b[k..k + n as usize].to_vec());
                }
                if o.size <= 512 && n <= 8 {
                    // table read: ite over all offsets in range
                    let b = b.clone();
                    let mut outs: Vec<Option<T>> = vec![None; n as usize];
                    let lastk = o.size - n;
                    for k in (0..=lastk).rev() {
                        // only feasible residues (cheap filter by known bits)
                        let kk = self.k64(k);
                        let e = self.c.eq(off, kk);
                        if self.c.cval(e) == Some(0) {
                            continue;
                        }
                        for j in 0..n as usize {
                            let x = match b[k as usize + j] {
                                Some(x) => x,
                                None => self.c.var(8, "uninit"),
                            };
                            outs[j] = Some(match outs[j] {
                                None => x,
                                Some(y) => self.c.ite(e, x, y),
                            });
                        }
                    }
                    return Ok(outs);
                }
                let k = self.concretise(st, off)? as usize;
                if let Kind::Bytes(b) = &o.kind {
                    return Ok(b[k..k + n as usize].to_vec());
                }
                unreachable!()
            }
            Kind::Big { arr, zero, log, .. } => {
                let (arr, zero) = (*arr, *zero);
                let mut out = vec![];
                for j in 0..n {
                    let kj = self.k64(j);
                    let oj = self.c.add(off, kj);
                    let mut res = None;
                    let mut pend: Vec<(T, T)> = vec![];
                    for &(wo, wb) in log.iter().rev() {
                        let e = self.c.eq(wo, oj);
                        let e = self.red(st, e);
                        match self.c.cval(e) {
                            Some(1) => {
                                res = Some(wb);
                                break;
                            }
                            Some(_) => {}
                            None => pend.push((e, wb)),
                        }
                    }
                    let mut v = match res {
                        Some(v) => v,
                        None if zero => self.c.konst(8, 0),
                        None => self.c.select(arr, oj),
                    };
                    for (e, b) in pend.into_iter().rev() {
                        v = self.c.ite(e, b, v);
                    }
                    out.push(Some(v));
                }
                Ok(out)
            }
        }
    }
    fn write_bytes(&mut self, st: &mut State, p: T, b: &[Option<T>]) -> R<()> {
        let n = b.len() as u64;
        if n == 0 {
            return Ok(());
        }
        let (w, off) = self.access(st, p, n, true)?;
        let o = self.obj(st, w)?;
        let big = matches!(o.kind, Kind::Big { .. });
        drop(o);
        if big {
            if let Where::Heap(h) = w {
                for (g, lo, hi) in st.guards.clone() {
                    if g == h {
                        let nn = self.k64(n);
                        let end = self.c.add(off, nn);
                        let x = self.c.ule(end, lo);
                        let y = self.c.ule(hi, off);
                        let c = self.c.or(x, y);
                        let c = self.red(st, c);
                        if self.c.cval(c) != Some(1) {
                            let fname = st.frames.last().unwrap().f.name.clone();
                            self.check(st, c, "memory", 3, &format!("write into guarded memory in {}", fname))?;
                        }
                    }
                }
            }
            let mut es = vec![];
            for (j, x) in b.iter().enumerate() {
                let kj = self.k64(j as u64);
                let oj = self.c.add(off, kj);
                let x = match x {
                    Some(x) => *x,
                    None => self.c.var(8, "uninit"),
                };
                es.push((oj, x));
            }
            if let Kind::Big { log, .. } = &mut self.obj_mut(st, w)?.kind {
                for (oj, x) in es {
                    log.retain(|&(o, _)| o != oj);
                    log.push((oj, x));
                }
            }
        } else {
            let k = self.concretise(st, off)? as usize;
            if let Kind::Bytes(v) = &mut self.obj_mut(st, w)?.kind {
                v[k..k + b.len()].copy_from_slice(b);
            }
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: T) -> R<Val> {
        if ty.is_agg() {
            let mut v = vec![];
            for i in 0..ty.count() {
                let o = self.k64(ty.field_off(i));
                let q = self.c.add(p, o);
                v.push(self.load(st, &ty.elem(i), q)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let n = ty.store();
        let mut bytes = self.read_bytes(st, p, n)?;
        let mut fresh = vec![];
        for (i, b) in bytes.iter_mut().enumerate() {
            if b.is_none() {
                let v = self.c.var(8, "uninit");
                *b = Some(v);
                fresh.push((i, v));
            }
        }
        if !fresh.is_empty() {
            // make the choice stick
            let (w, off) = self.resolve(st, p)?;
            if let Some(k) = self.c.cval(off) {
                let k = k as usize;
                if let Kind::Bytes(v) = &mut self.obj_mut(st, w)?.kind {
                    for (i, x) in fresh {
                        v[k + i] = Some(x);
                    }
                }
            }
        }
        let parts: Vec<T> = bytes.into_iter().rev().map(|b| b.unwrap()).collect();
        let v = match self.whole.get(&parts) {
            Some(&v) => v,
            None => self.c.concat(parts),
        };
        let v = self.c.trunc(v, ty.bits());
        Ok(Val::S(self.red(st, v)))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, p: T) -> R<()> {
        match v {
            Val::A(xs) => {
                let xs = xs.clone();
                for (i, x) in xs.iter().enumerate() {
                    let o = self.k64(ty.field_off(i));
                    let q = self.c.add(p, o);
                    self.store(st, &ty.elem(i), x, q)?;
                }
                Ok(())
            }
            Val::S(t) => {
                let n = ty.store();
                let t = self.c.zext(*t, (n * 8) as u8);
                let mut b = vec![];
                for k in 0..n as u8 {
                    b.push(Some(self.c.extract(t, 8 * k + 7, 8 * k)));
                }
                if n > 1 && self.c.cval(t).is_none() {
                    let key = b.iter().rev().map(|x| x.unwrap()).collect();
                    self.whole.entry(key).or_insert(t);
                }
                self.write_bytes(st, p, &b)
            }
        }
    }

    // ---- control ------------------------------------------------------------
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let f = st.frames.last().unwrap();
        let from = f.bb;
        let func = f.f.clone();
        let mut vals = vec![];
        for (d, inc) in &func.blocks[to as usize].phis {
            let o = inc
                .iter()
                .find(|(b, _)| *b == from)
                .ok_or_else(|| Stop::Err("phi without matching edge".into()))?;
            vals.push((*d, self.opd(st, &o.1)?));
        }
        let f = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            f.regs[d as usize] = Some(v);
        }
        f.bb = to;
        f.ip = 0;
        Ok(())
    }

    fn panic(&mut self, st: &mut State, what: &str) -> R<()> {
        let here = st.frames.last().unwrap().f.name.clone();
        match st.hi {
            Some(h) => {
                self.check(st, h, "panic", 0, &format!("panic where none is allowed: {} in {}", what, here))?;
                Err(Stop::End("panic"))
            }
            None => {
                let m = st.model.clone();
                self.r.asserts += 1;
                self.violation(st, "panic", 0, format!("unexpected panic: {} in {}", what, here), &m);
                Err(Stop::End("cut"))
            }
        }
    }

    fn binop(&mut self, st: &mut State, op: BinOp, a: T, b: T) -> R<T> {
        Ok(match op {
            BinOp::Add => self.c.add(a, b),
            BinOp::Sub => self.c.sub(a, b),
            BinOp::Mul => self.c.mul(a, b),
            BinOp::And => self.c.and(a, b),
            BinOp::Or => self.c.or(a, b),
            BinOp::Xor => self.c.xor(a, b),
            BinOp::Shl => self.c.shl(a, b),
            BinOp::Lshr => self.c.lshr(a, b),
            BinOp::Ashr => self.c.ashr(a, b),
            BinOp::Udiv | BinOp::Sdiv | BinOp::Urem | BinOp::Srem => {
                let w = self.c.w(b);
                let z = self.c.konst(w, 0);
                let e = self.c.eq(b, z);
                let ne = self.c.not(e);
                if self.c.cval(ne) != Some(1) {
                    self.check(st, ne, "memory", 3, "division by zero")?;
                }
                let o = match op {
                    BinOp::Udiv => Op::Udiv,
                    BinOp::Sdiv => Op::Sdiv,
                    BinOp::Urem => Op::Urem,
                    _ => Op::Srem,
                };
                self.c.divop(o, a, b)
            }
        })
    }
    fn icmp(&mut self, p: Pred, a: T, b: T) -> T {
        match p {
            Pred::Eq => self.c.eq(a, b),
            Pred::Ne => {
                let e = self.c.eq(a, b);
                self.c.not(e)
            }
            Pred::Ugt => self.c.ult(b, a),
            Pred::Uge => self.c.ule(b, a),
            Pred::Ult => self.c.ult(a, b),
            Pred::Ule => self.c.ule(a, b),
            Pred::Sgt => self.c.slt(b, a),
            Pred::Sge => self.c.sle(b, a),
            Pred::Slt => self.c.slt(a, b),
            Pred::Sle => self.c.sle(a, b),
        }
    }
    fn lift2(&mut self, a: Val, b: Val, f: &mut dyn FnMut(&mut Self, T, T) -> R<T>) -> R<Val> {
        Ok(match (a, b) {
            (Val::S(a), Val::S(b)) => Val::S(f(self, a, b)?),
            (Val::A(a), Val::A(b)) => {
                let mut v = vec![];
                for (x, y) in a.iter().zip(b.iter()) {
                    v.push(self.lift2(x.clone(), y.clone(), f)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return Err(Stop::Err("mixed operands".into())),
        })
    }
    fn flat(&mut self, v: &Val, out: &mut Vec<T>) {
        match v {
            Val::S(t) => out.push(*t),
            Val::A(xs) => {
                for x in xs.iter() {
                    self.flat(x, out);
                }
            }
        }
    }
    fn unflat(&mut self, t: T, ty: &Ty) -> Val {
        if ty.is_agg() {
            let n = ty.count();
            let e = ty.elem(0);
            let w = e.bits();
            let mut v = vec![];
            for i in 0..n {
                let lo = i as u8 * w;
                v.push(Val::S(self.c.extract(t, lo + w - 1, lo)));
            }
            Val::A(Rc::new(v))
        } else {
            Val::S(t)
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (func, bb, ip) = {
            let f = st.frames.last().unwrap();
            (f.f.clone(), f.bb, f.ip)
        };
        let ins = match func.blocks[bb as usize].insts.get(ip) {
            Some(i) => i,
            None => return Err(Stop::Err("fell off a block".into())),
        };
        match ins {
            Inst::Bin(d, op, _, a, b) => {
                let (x, y) = (self.opd(st, a)?, self.opd(st, b)?);
                let op = *op;
                let v = match (x, y) {
                    (Val::S(x), Val::S(y)) => Val::S(self.binop(st, op, x, y)?),
                    (x, y) => self.lift2(x, y, &mut |me, p, q| {
                        Ok(match op {
                            BinOp::Add => me.c.add(p, q),
                            BinOp::Sub => me.c.sub(p, q),
                            BinOp::Mul => me.c.mul(p, q),
                            BinOp::And => me.c.and(p, q),
                            BinOp::Or => me.c.or(p, q),
                            BinOp::Xor => me.c.xor(p, q),
                            BinOp::Shl => me.c.shl(p, q),
                            BinOp::Lshr => me.c.lshr(p, q),
                            BinOp::Ashr => me.c.ashr(p, q),
                            _ => return Err(Stop::Err("vector division".into())),
                        })
                    })?,
                };
                self.set(st, *d, v);
            }
            Inst::Icmp(d, p, _, a, b) => {
                let (x, y) = (self.opd(st, a)?, self.opd(st, b)?);
                let p = *p;
                let v = self.lift2(x, y, &mut |me, a, b| Ok(me.icmp(p, a, b)))?;
                self.set(st, *d, v);
            }
            Inst::Cast(d, op, _, a, t2) => {
                let v = self.opd(st, a)?;
                let r = match (op, v) {
                    (CastOp::Bits, v) => {
                        let mut fl = vec![];
                        self.flat(&v, &mut fl);
                        fl.reverse();
                        let t = self.c.concat(fl);
                        self.unflat(t, t2)
                    }
                    (op, Val::S(x)) => Val::S(self.cast(*op, x, t2.bits())),
                    (op, Val::A(xs)) => {
                        let w = t2.elem(0).bits();
                        let mut v = vec![];
                        for x in xs.iter() {
                            if let Val::S(x) = x {
                                v.push(Val::S(self.cast(*op, *x, w)));
                            }
                        }
                        Val::A(Rc::new(v))
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Load(d, t, p) => {
                let p = self.sc(st, p)?;
                let v = self.load(st, t, p)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let p = self.sc(st, p)?;
                let v = self.opd(st, v)?;
                self.store(st, t, &v, p)?;
            }
            Inst::Gep(d, b, off, idx) => {
                let mut p = self.sc(st, b)?;
                if *off != 0 {
                    let o = self.k64(*off as u64);
                    p = self.c.add(p, o);
                }
                for (o, w, s) in idx {
                    let i = self.sc(st, o)?;
                    let i = if *w < 64 { self.c.sext(i, 64) } else { self.c.trunc(i, 64) };
                    let k = self.k64(*s as u64);
                    let x = self.c.mul(i, k);
                    p = self.c.add(p, x);
                }
                self.set(st, *d, Val::S(p));
            }
            Inst::Alloca(d, sz, n) => {
                let n = self.sc(st, n)?;
                let n = self.concretise(st, n)? as u64;
                let a = self.new_bytes(st, sz * n, false);
                let i = st.heap.len() - 1;
                st.frames.last_mut().unwrap().allocas.push(i);
                let t = self.k64(a);
                self.set(st, *d, Val::S(t));
            }
            Inst::Br(t) => return self.jump(st, *t),
            Inst::CondBr(c, a, b) => {
                let c = self.sc(st, c)?;
                let v = self.decide(st, c)?;
                return self.jump(st, if v { *a } else { *b });
            }
            Inst::Switch(t, v, def, cs) => {
                let v = self.sc(st, v)?;
                if let Some(x) = self.c.cval(v) {
                    let to = cs.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*def);
                    return self.jump(st, to);
                }
                let w = t.bits();
                let mut byt: BTreeMap<u32, T> = BTreeMap::new();
                for (k, to) in cs {
                    if to == def {
                        continue;
                    }
                    let kk = self.c.konst(w, *k);
                    let e = self.c.eq(v, kk);
                    let cur = byt.get(to).cloned();
                    let e = match cur {
                        None => e,
                        Some(c) => self.c.or(c, e),
                    };
                    byt.insert(*to, e);
                }
                for (to, c) in byt {
                    if self.decide(st, c)? {
                        return self.jump(st, to);
                    }
                }
                return self.jump(st, *def);
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((_, o)) => Some(self.opd(st, o)?),
                    None => None,
                };
                let f = st.frames.pop().unwrap();
                for i in f.allocas {
                    let o = Rc::make_mut(&mut st.heap[i]);
                    o.alive = false;
                    o.kind = Kind::Bytes(vec![]);
                }
                if st.frames.is_empty() {
                    // end of the harness
                    return Err(Stop::End("ok"));
                }
                if let (Some(d), Some(v)) = (f.dst, v) {
                    self.set(st, d, v);
                }
                if let Some(n) = f.next {
                    return self.jump(st, n);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            Inst::Unreachable => {
                let m = st.model.clone();
                self.violation(st, "memory", 4, format!("unreachable executed in {}", func.name), &m);
                return Err(Stop::End("cut"));
            }
            Inst::Select(d, t, c, a, b) => {
                let c = self.sc(st, c)?;
                let v = match self.c.cval(c) {
                    Some(1) => self.opd(st, a)?,
                    Some(_) => self.opd(st, b)?,
                    None => {
                        let (x, y) = (self.opd(st, a)?, self.opd(st, b)?);
                        match (x, y, t) {
                            (Val::S(x), Val::S(y), Ty::Int(_)) => Val::S(self.c.ite(c, x, y)),
                            (x, y, _) => {
                                if self.decide(st, c)? {
                                    x
                                } else {
                                    y
                                }
                            }
                        }
                    }
                };
                self.set(st, *d, v);
            }
            Inst::ExtractV(d, a, ix) => {
                let mut v = self.opd(st, a)?;
                for &i in ix {
                    v = match v {
                        Val::A(xs) => xs[i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertV(d, _, a, x, ix) => {
                let v = self.opd(st, a)?;
                let x = self.opd(st, x)?;
                fn ins(v: Val, x: Val, ix: &[u32]) -> Option<Val> {
                    if ix.is_empty() {
                        return Some(x);
                    }
                    match v {
                        Val::A(xs) => {
                            let mut ys = (*xs).clone();
                            let i = ix[0] as usize;
                            ys[i] = ins(ys[i].clone(), x, &ix[1..])?;
                            Some(Val::A(Rc::new(ys)))
                        }
                        _ => None,
                    }
                }
                let r = ins(v, x, ix).ok_or_else(|| Stop::Err("insertvalue".into()))?;
                self.set(st, *d, r);
            }
            Inst::ExtractE(d, a, i) => {
                let v = self.opd(st, a)?;
                let i = self.sc(st, i)?;
                let i = self.concretise(st, i)? as usize;
                match v {
                    Val::A(xs) if i < xs.len() => self.set(st, *d, xs[i].clone()),
                    _ => return Err(Stop::Err("extractelement".into())),
                }
            }
            Inst::InsertE(d, _, a, x, i) => {
                let v = self.opd(st, a)?;
                let x = self.opd(st, x)?;
                let i = self.sc(st, i)?;
                let i = self.concretise(st, i)? as usize;
                match v {
                    Val::A(xs) if i < xs.len() => {
                        let mut ys = (*xs).clone();
                        ys[i] = x;
                        self.set(st, *d, Val::A(Rc::new(ys)));
                    }
                    _ => return Err(Stop::Err("insertelement".into())),
                }
            }
            Inst::Shuffle(d, t, a, b, ms) => {
                let (x, y) = (self.opd(st, a)?, self.opd(st, b)?);
                if let (Val::A(xs), Val::A(ys)) = (x, y) {
                    let all: Vec<Val> = xs.iter().chain(ys.iter()).cloned().collect();
                    let mut v = vec![];
                    for m in ms {
                        v.push(match m {
                            Some(i) => all[*i as usize].clone(),
                            None => self.undef(&t.elem(0))?,
                        });
                    }
                    self.set(st, *d, Val::A(Rc::new(v)));
                } else {
                    return Err(Stop::Err("shufflevector".into()));
                }
            }
            Inst::Freeze(d, a) => {
                let v = self.opd(st, a)?;
                self.set(st, *d, v);
            }
            Inst::Rmw(d, op, t, p, v) => {
                let p = self.sc(st, p)?;
                let v = self.sc(st, v)?;
                let old = match self.load(st, t, p)? {
                    Val::S(x) => x,
                    _ => return Err(Stop::Err("rmw".into())),
                };
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.c.add(old, v),
                    "sub" => self.c.sub(old, v),
                    "and" => self.c.and(old, v),
                    "or" => self.c.or(old, v),
                    "xor" => self.c.xor(old, v),
                    "nand" => {
                        let a = self.c.and(old, v);
                        self.c.not(a)
                    }
                    "max" | "min" | "umax" | "umin" => {
                        let signed = !op.starts_with('u');
                        let less = if signed { self.c.slt(old, v) } else { self.c.ult(old, v) };
                        let (big, small) = (self.c.ite(less, v, old), self.c.ite(less, old, v));
                        if op.ends_with("max") { big } else { small }
                    }
                    o => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store(st, t, &Val::S(n), p)?;
                self.set(st, *d, Val::S(old));
            }
            Inst::Cmpxchg(d, t, p, a, b) => {
                let p = self.sc(st, p)?;
                let a = self.sc(st, a)?;
                let b = self.sc(st, b)?;
                let old = match self.load(st, t, p)? {
                    Val::S(x) => x,
                    _ => return Err(Stop::Err("cmpxchg".into())),
                };
                let e = self.c.eq(old, a);
                let n = self.c.ite(e, b, old);
                self.store(st, t, &Val::S(n), p)?;
                self.set(st, *d, Val::A(Rc::new(vec![Val::S(old), Val::S(e)])));
            }
            Inst::Nop => {}
            Inst::Unsupported(e) => return Err(Stop::Err(e.clone())),
            Inst::Call { dst, ret, callee, name, args, noreturn, next } => {
                return self.call(st, *dst, ret, callee, name.as_deref(), args, *noreturn, *next);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn cast(&mut self, op: CastOp, x: T, w: u8) -> T {
        match op {
            CastOp::Zext => self.c.zext(x, w),
            CastOp::Sext => self.c.sext(x, w),
            _ => self.c.trunc(x, w),
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        dst: Option<u32>,
        ret: &Ty,
        callee: &Opd,
        name: Option<&str>,
        args: &[(Ty, Opd)],
        noreturn: bool,
        next: Option<u32>,
    ) -> R<()> {
        let mut fid = None;
        let mut nm = name.map(|s| s.to_string());
        if nm.is_none() {
            let p = self.sc(st, callee)?;
            let a = self.concretise(st, p)? as u64;
            if a >= FUNC_BASE && (a - FUNC_BASE) / 16 < self.m.funcs.len() as u64 && a % 16 == 0 {
                let i = ((a - FUNC_BASE) / 16) as u32;
                fid = Some(i);
                nm = Some(self.m.funcs[i as usize].name.clone());
            } else {
                return Err(Stop::Err(format!("call through pointer {:#x}", a)));
            }
        }
        let nm = nm.unwrap();
        if fid.is_none() {
            fid = self.m.fmap.get(&nm).cloned();
        }
        if nm.starts_with("llvm.lifetime")
            || nm.starts_with("llvm.experimental.noalias")
            || nm.starts_with("llvm.assume")
            || nm.starts_with("llvm.dbg")
            || nm.starts_with("llvm.x86.sse2.pause")
            || nm.starts_with("llvm.prefetch")
        {
            return self.fin(st, dst, None, next);
        }
        let decl_nr = fid.map_or(false, |i| self.m.funcs[i as usize].noreturn);
        let has_body = fid.map_or(false, |i| self.m.funcs[i as usize].lines.1 != 0);
        if noreturn || decl_nr {
            let cr = crate_of(&nm);
            if matches!(cr, Some("core") | Some("alloc") | Some("std") | Some("__rustc")) || !has_body {
                return self.panic(st, &nm);
            }
        }
        let mut av = vec![];
        for (_, o) in args {
            av.push(self.opd(st, o)?);
        }
        if let Some(r) = self.builtin(st, &nm, ret, &av)? {
            return self.fin(st, dst, r, next);
        }
        if !has_body {
            return Err(Stop::Err(format!("unmodelled external function {}", nm)));
        }
        let fid = fid.unwrap();
        let f = match self.m.func(fid) {
            Ok(f) => f.clone(),
            Err(e) => return Err(Stop::Err(e.clone())),
        };
        self.r.funcs.insert(fid);
        if st.frames.len() > 200 {
            return Err(Stop::Err("call depth limit".into()));
        }
        let mut regs = vec![None; f.nregs as usize];
        for (p, v) in f.params.iter().zip(av) {
            regs[*p as usize] = Some(v);
        }
        st.frames.push(Frame { f, regs, bb: 0, ip: 0, dst, next, allocas: vec![] });
        Ok(())
    }

    fn fin(&mut self, st: &mut State, dst: Option<u32>, v: Option<Val>, next: Option<u32>) -> R<()> {
        if let (Some(d), Some(v)) = (dst, v) {
            self.set(st, d, v);
        }
        match next {
            Some(n) => self.jump(st, n),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    fn builtin(&mut self, st: &mut State, nm: &str, ret: &Ty, av: &[Val]) -> R<Option<Option<Val>>> {
        let a = |i: usize| -> R<T> {
            match av.get(i) {
                Some(Val::S(t)) => Ok(*t),
                _ => Err(Stop::Err(format!("argument of {}", nm))),
            }
        };
        macro_rules! ret {
            ($e:expr) => {
                return Ok(Some(Some(Val::S($e))))
            };
        }
        macro_rules! void {
            () => {
                return Ok(Some(None))
            };
        }
        if nm.starts_with("_R") && nm.contains("5Error13last_os_error") {
            // the bit pattern of an operating-system error (ENOMEM)
            let r = self.k64(12 << 32 | 2);
            ret!(r)
        }
        if nm.starts_with("_R") && nm.contains("7___rustc") {
            if nm.ends_with("___rust_alloc") {
                let r = self.alloc(st, a(0)?, a(1)?, false)?;
                ret!(r)
            }
            if nm.ends_with("___rust_alloc_zeroed") {
                let r = self.alloc(st, a(0)?, a(1)?, true)?;
                ret!(r)
            }
            if nm.ends_with("___rust_dealloc") {
                self.free(st, a(0)?)?;
                void!()
            }
            if nm.ends_with("___rust_realloc") {
                let (p, osz, al, nsz) = (a(0)?, a(1)?, a(2)?, a(3)?);
                let osz = self.concretise(st, osz)? as u64;
                let nszc = self.concretise(st, nsz)? as u64;
                let n = osz.min(nszc);
                let b = self.read_bytes(st, p, n)?;
                let q = self.alloc(st, nsz, al, false)?;
                self.write_bytes(st, q, &b)?;
                self.free(st, p)?;
                ret!(q)
            }
            if nm.contains("no_alloc_shim_is_unstable") {
                void!()
            }
        }
        match nm {
            "symx_input" => {
                let tag = self.c.cval(a(0)?).ok_or_else(|| Stop::Err("symbolic input tag".into()))? as u32;
                let bits = self.c.cval(a(1)?).ok_or_else(|| Stop::Err("symbolic input width".into()))? as u8;
                let v = self.c.var(bits, &format!("in{}", tag));
                st.inputs.push((tag, bits, v));
                let v = self.c.zext(v, 64);
                ret!(v)
            }
            "symx_input_max" => {
                let tag = self.c.cval(a(0)?).ok_or_else(|| Stop::Err("symbolic input tag".into()))? as u32;
                let bits = self.c.cval(a(1)?).ok_or_else(|| Stop::Err("symbolic input width".into()))? as u8;
                let max = self.c.cval(a(2)?).ok_or_else(|| Stop::Err("symbolic input bound".into()))?;
                let (v, cond) = self.c.var_max(bits, &format!("in{}", tag), max);
                // satisfied by the default value 0
                st.pc.push(cond);
                st.inputs.push((tag, bits, v));
                let v = self.c.zext(v, 64);
                ret!(v)
            }
            "symx_choice" => {
                let tag = self.c.cval(a(0)?).unwrap_or(0) as u32;
                let n = self.concretise(st, a(1)?)? as u64;
                // fork n ways with constant results; all alternatives are feasible
                let key = self.c.var(16, "choice");
                let mk = |me: &mut Self, s: &mut State, k: u64| {
                    let v = me.c.konst(16, k as u128);
                    let e = me.c.eq(key, v);
                    let mut vals = s.model.vals.clone();
                    if let Op::Var(i) = me.c.op(key) {
                        vals.insert(i, k as u128);
                    }
                    s.model = Model::new(vals, s.model.sel.clone());
                    s.pc.push(e);
                    s.inputs.push((tag, 16, v));
                };
                // the result must be delivered now: build the sibling states past this call
                let f = st.frames.last().unwrap();
                let (func, bb, ip) = (f.f.clone(), f.bb, f.ip);
                if let Inst::Call { dst, next, .. } = &func.blocks[bb as usize].insts[ip] {
                    for k in (1..n).rev() {
                        let mut s2 = st.clone();
                        mk(self, &mut s2, k);
                        let v = self.k64(k);
                        self.fin(&mut s2, *dst, Some(Val::S(v)), *next)?;
                        self.r.forks += 1;
                        self.work.push(s2);
                    }
                }
                mk(self, st, 0);
                let z = self.k64(0);
                ret!(z)
            }
            "symx_assume" => {
                let c = self.boolarg(a(0)?);
                self.assume(st, c)?;
                void!()
            }
            "symx_assert" => {
                let c = self.boolarg(a(0)?);
                let id = self.c.cval(a(1)?).unwrap_or(0) as u32;
                *self.r.assert_ids.entry(id).or_insert(0) += 1;
                self.check(st, c, "assert", id, &format!("assertion {} fails", id))?;
                void!()
            }
            "symx_panic_cond" => {
                let lo = self.boolarg(a(0)?);
                let hi = self.boolarg(a(1)?);
                st.lo = Some(lo);
                st.hi = Some(hi);
                void!()
            }
            "symx_panic_end" => {
                if let Some(lo) = st.lo {
                    let n = self.c.not(lo);
                    self.check(st, n, "nopanic", 0, "no panic where one is required")?;
                }
                st.lo = None;
                st.hi = None;
                void!()
            }
            "symx_observe" => {
                st.obs.push(a(0)?);
                void!()
            }
            "symx_prot" => {
                let r = self.prot(st, a(0)?)?;
                ret!(r)
            }
            "symx_alive" => {
                let r = match self.resolve(st, a(0)?) {
                    Ok((w, _)) => self.obj(st, w)?.alive,
                    Err(_) => false,
                };
                let r = self.k64(r as u64);
                ret!(r)
            }
            "symx_guard" => {
                let (w, lo) = self.resolve(st, a(0)?)?;
                let hi = self.c.add(lo, a(1)?);
                match w {
                    Where::Heap(h) => st.guards.push((h, lo, hi)),
                    _ => return Err(Stop::Err("guard on a global".into())),
                }
                void!()
            }
            "symx_unguard" => {
                st.guards.clear();
                void!()
            }
            "symx_must" => {
                // does the condition hold on the whole path? (no fork)
                let c = self.boolarg(a(0)?);
                let r = self.must(st, c)?;
                let r = self.k64(r as u64);
                ret!(r)
            }
            "symx_fault" => {
                let k = self.concretise(st, a(0)?)? as usize;
                let n = self.concretise(st, a(1)?)? as u64;
                if k >= st.fault.len() {
                    return Err(Stop::Err("unknown fault".into()));
                }
                st.fault[k] = n;
                void!()
            }
            "__errno_location" => {
                let x = self.new_bytes(st, 4, true);
                let x = self.k64(x);
                ret!(x)
            }
            "mprotect" => {
                // null and what follows it is not mapped
                let unmapped = self.c.cval(a(0)?).map_or(false, |v| v < 1 << 32);
                if Self::fails(st, 0) || unmapped {
                    let m = self.c.konst(32, u32::MAX as u128);
                    ret!(m)
                }
                st.prots.push((a(0)?, a(1)?, a(2)?));
                let z = self.c.konst(32, 0);
                ret!(z)
            }
            "gettid" | "getpid" => {
                let r = self.c.konst(32, 4242);
                ret!(r)
            }
            // one thread: a key is enough, and destructors of thread locals do not run
            "pthread_key_create" => {
                let k = self.c.konst(8, 1);
                let z = self.c.konst(8, 0);
                self.write_bytes(st, a(0)?, &[Some(k), Some(z), Some(z), Some(z)])?;
                let r = self.c.konst(32, 0);
                ret!(r)
            }
            "pthread_setspecific" => {
                let r = self.c.konst(32, 0);
                ret!(r)
            }
            "sysconf" => {
                let n = self.concretise(st, a(0)?)?;
                if n != 30 {
                    return Err(Stop::Err(format!("sysconf({})", n)));
                }
                let r = self.k64(4096);
                ret!(r)
            }
            "getpagesize" => {
                let r = self.c.konst(32, 4096);
                ret!(r)
            }
            "mmap" | "mmap64" => {
                let n = self.concretise(st, a(1)?)? as u64;
                let n = (n + 4095) / 4096 * 4096;
                let prot = a(2)?;
                if n >= BIG && Self::fails(st, 1) {
                    let m = self.k64(u64::MAX);
                    ret!(m)
                }
                let b = if n >= BIG {
                    self.new_big(st, n, 4096, true)?
                } else {
                    let x = self.new_bytes(st, n, true);
                    self.k64(x)
                };
                let l = self.k64(n);
                st.prots.push((b, l, prot));
                ret!(b)
            }
            "munmap" => {
                self.free(st, a(0)?)?;
                let z = self.c.konst(32, 0);
                ret!(z)
            }
            "malloc" => {
                let al = self.k64(16);
                let r = self.alloc(st, a(0)?, al, false)?;
                ret!(r)
            }
            "posix_memalign" => {
                let r = self.alloc(st, a(2)?, a(1)?, false)?;
                self.store(st, &Ty::Ptr, &Val::S(r), a(0)?)?;
                let failed = self.c.cval(r) == Some(0);
                let z = self.c.konst(32, if failed { 12 } else { 0 });
                ret!(z)
            }
            "free" => {
                self.free(st, a(0)?)?;
                void!()
            }
            "memcpy" | "memmove" => {
                let n = self.concretise(st, a(2)?)? as u64;
                if n > 0 {
                    let b = self.read_bytes(st, a(1)?, n)?;
                    self.write_bytes(st, a(0)?, &b)?;
                }
                ret!(a(0)?)
            }
            "memset" => {
                let n = self.concretise(st, a(2)?)? as u64;
                let v = self.c.trunc(a(1)?, 8);
                let b = vec![Some(v); n as usize];
                self.write_bytes(st, a(0)?, &b)?;
                ret!(a(0)?)
            }
            "memcmp" | "bcmp" => {
                let n = self.concretise(st, a(2)?)? as u64;
                let mut r = self.c.konst(32, 0);
                if n > 0 {
                    let x = self.read_bytes(st, a(0)?, n)?;
                    let y = self.read_bytes(st, a(1)?, n)?;
                    let m1 = self.c.konst(32, u32::MAX as u128);
                    let p1 = self.c.konst(32, 1);
                    for (p, q) in x.into_iter().zip(y).rev() {
                        let p = p.unwrap_or_else(|| self.c.var(8, "uninit"));
                        let q = q.unwrap_or_else(|| self.c.var(8, "uninit"));
                        let e = self.c.eq(p, q);
                        let l = self.c.ult(p, q);
                        let d = self.c.ite(l, m1, p1);
                        r = self.c.ite(e, r, d);
                    }
                }
                ret!(r)
            }
            _ => {}
        }
        if !nm.starts_with("llvm.") {
            return Ok(None);
        }
        let parts: Vec<&str> = nm.split('.').collect();
        let w = ret.bits();
        match (parts[1], parts.get(2).cloned().unwrap_or("")) {
            ("memcpy", _) | ("memmove", _) => {
                let n = self.concretise(st, a(2)?)? as u64;
                if n > 0 {
                    let b = self.read_bytes(st, a(1)?, n)?;
                    self.write_bytes(st, a(0)?, &b)?;
                }
                void!()
            }
            ("memset", _) => {
                let n = self.concretise(st, a(2)?)? as u64;
                if n > BIG {
                    return Err(Stop::Err("memset too large".into()));
                }
                let v = self.c.trunc(a(1)?, 8);
                let b = vec![Some(v); n as usize];
                self.write_bytes(st, a(0)?, &b)?;
                void!()
            }
            ("umax", _) | ("umin", _) | ("smax", _) | ("smin", _) => {
                let (x, y) = (a(0)?, a(1)?);
                let c = if parts[1].starts_with('u') { self.c.ult(x, y) } else { self.c.slt(x, y) };
                let r = if parts[1].ends_with("max") { self.c.ite(c, y, x) } else { self.c.ite(c, x, y) };
                ret!(r)
            }
            ("usub", "sat") => {
                let (x, y) = (a(0)?, a(1)?);
                let c = self.c.ult(x, y);
                let z = self.c.konst(w, 0);
                let d = self.c.sub(x, y);
                let r = self.c.ite(c, z, d);
                ret!(r)
            }
            ("uadd", "sat") => {
                let (x, y) = (a(0)?, a(1)?);
                let s = self.c.add(x, y);
                let c = self.c.ult(s, x);
                let m = self.c.konst(w, mask(w));
                let r = self.c.ite(c, m, s);
                ret!(r)
            }
            ("ctpop", _) => {
                let x = a(0)?;
                let mut s = self.c.konst(w, 0);
                for i in 0..w {
                    let b = self.c.extract(x, i, i);
                    let b = self.c.zext(b, w);
                    s = self.c.add(s, b);
                }
                ret!(s)
            }
            ("ctlz", _) | ("cttz", _) => {
                let x = a(0)?;
                let lz = parts[1] == "ctlz";
                let mut r = self.c.konst(w, w as u128);
                for k in (0..w).rev() {
                    let i = if lz { w - 1 - k } else { k };
                    let b = self.c.extract(x, i, i);
                    let kk = self.c.konst(w, k as u128);
                    r = self.c.ite(b, kk, r);
                }
                ret!(r)
            }
            ("bswap", _) => {
                let x = a(0)?;
                let mut p = vec![];
                for k in 0..w / 8 {
                    p.push(self.c.extract(x, 8 * k + 7, 8 * k));
                }
                let r = self.c.concat(p);
                ret!(r)
            }
            ("bitreverse", _) => {
                let x = a(0)?;
                let mut p = vec![];
                for k in 0..w {
                    p.push(self.c.extract(x, k, k));
                }
                let r = self.c.concat(p);
                ret!(r)
            }
            ("abs", _) => {
                let x = a(0)?;
                let s = self.c.extract(x, w - 1, w - 1);
                let n = self.c.neg(x);
                let r = self.c.ite(s, n, x);
                ret!(r)
            }
            ("fshl", _) | ("fshr", _) => {
                let (x, y, s) = (a(0)?, a(1)?, a(2)?);
                let s = self.concretise(st, s)? as u32 % w as u32;
                let s = s as u8;
                let cat = |me: &mut Self, hi: T, lo: T, sh: u8| -> T {
                    // top w bits of (hi:lo) << sh
                    if sh == 0 {
                        return hi;
                    }
                    let h = me.c.extract(hi, w - 1 - sh, 0);
                    let l = me.c.extract(lo, w - 1, w - sh);
                    me.c.concat(vec![h, l])
                };
                let r = if parts[1] == "fshl" {
                    cat(self, x, y, s)
                } else if s == 0 {
                    y
                } else {
                    cat(self, x, y, w - s)
                };
                ret!(r)
            }
            ("ucmp", _) | ("scmp", _) => {
                let (x, y) = (a(0)?, a(1)?);
                let (lt, gt) = if parts[1] == "ucmp" {
                    (self.c.ult(x, y), self.c.ult(y, x))
                } else {
                    (self.c.slt(x, y), self.c.slt(y, x))
                };
                let m = self.c.konst(w, mask(w));
                let o = self.c.konst(w, 1);
                let z = self.c.konst(w, 0);
                let g = self.c.ite(gt, o, z);
                let r = self.c.ite(lt, m, g);
                ret!(r)
            }
            (op, "with") => {
                let (x, y) = (a(0)?, a(1)?);
                let w = self.c.w(x);
                let signed = op.starts_with('s');
                let ew = if op.ends_with("mul") { 2 * w as u32 } else { w as u32 + 1 };
                if ew > 128 {
                    return Err(Stop::Err(format!("{} too wide", nm)));
                }
                let ew = ew as u8;
                let (ex, ey) = if signed {
                    (self.c.sext(x, ew), self.c.sext(y, ew))
                } else {
                    (self.c.zext(x, ew), self.c.zext(y, ew))
                };
                let full = if op.ends_with("add") {
                    self.c.add(ex, ey)
                } else if op.ends_with("sub") {
                    self.c.sub(ex, ey)
                } else {
                    self.c.mul(ex, ey)
                };
                let r = if op.ends_with("add") {
                    self.c.add(x, y)
                } else if op.ends_with("sub") {
                    self.c.sub(x, y)
                } else {
                    self.c.mul(x, y)
                };
                let back = if signed { self.c.sext(r, ew) } else { self.c.zext(r, ew) };
                let e = self.c.eq(full, back);
                let o = self.c.not(e);
                return Ok(Some(Some(Val::A(Rc::new(vec![Val::S(r), Val::S(o)])))));
            }
            ("is", "constant") => {
                let z = self.c.konst(1, 0);
                ret!(z)
            }
            ("expect", _) => ret!(a(0)?),
            ("threadlocal", _) => ret!(a(0)?),
            ("trap", _) => {
                self.panic(st, nm)?;
                Err(Stop::End("cut"))
            }
            _ => Err(Stop::Err(format!("unmodelled intrinsic {}", nm))),
        }
    }

    fn boolarg(&mut self, t: T) -> T {
        if self.c.w(t) == 1 {
            return t;
        }
        let w = self.c.w(t);
        let z = self.c.konst(w, 0);
        let e = self.c.eq(t, z);
        self.c.not(e)
    }

    fn free(&mut self, st: &mut State, p: T) -> R<()> {
        if self.c.cval(p) == Some(0) {
            return Ok(());
        }
        let (w, off) = self.resolve(st, p)?;
        let o = self.obj(st, w)?;
        if !o.alive || self.c.cval(off) != Some(0) {
            let m = st.model.clone();
            self.violation(st, "memory", 5, "invalid free".into(), &m);
            return Err(Stop::End("cut"));
        }
        self.obj_mut(st, w)?.alive = false;
        Ok(())
    }

    /// protection bits (1 read, 2 write, 4 execute) of the byte at addr
    fn prot(&mut self, st: &State, addr: T) -> R<T> {
        let mut r = self.k64(0);
        for &(b, i) in &st.bigs {
            let o = &st.heap[i];
            let d = self.c.sub(addr, b);
            let n = self.k64(o.size);
            let c = self.c.ult(d, n);
            let v = self.k64(if o.alive { 3 } else { 0 });
            r = self.c.ite(c, v, r);
        }
        for &(b, l, p) in &st.prots {
            let d = self.c.sub(addr, b);
            let c = self.c.ult(d, l);
            let p = self.c.zext(p, 64);
            r = self.c.ite(c, p, r);
        }
        Ok(r)
    }
}
