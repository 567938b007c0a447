//! One persistent SMT-LIB2 solver process.
use crate::term::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub enum Res {
    Sat(HashMap<u32, u128>, HashMap<(u32, u64), u8>),
    Unsat,
    Unknown(String),
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    /// lines of the solver's output; read by a thread of its own so that neither side blocks the other
    out: Receiver<String>,
    limit: Duration,
    defined: HashSet<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: Duration,
    pub slowest: Duration,
    cache: HashMap<Vec<T>, Option<(Vec<(u32, u128)>, Vec<((u32, u64), u8)>)>>,
    supp: HashMap<T, Rc<Vec<u32>>>,
    pub log: Option<std::fs::File>,
    dead: bool,
    cmd: String,
    timeout_ms: u64,
    /// started without arrays
    bv: bool,
}

pub const ARR0: u32 = 1 << 24;

impl Solver {
    fn spawn(cmd: &str) -> (Child, ChildStdin, Receiver<String>) {
        let mut parts = cmd.split_whitespace();
        let prog = parts.next().unwrap();
        let mut child = Command::new(prog)
            .args(parts)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start SMT solver");
        let inp = child.stdin.take().unwrap();
        let mut pipe = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let (tx, out) = channel();
        std::thread::spawn(move || loop {
            let mut l = String::new();
            match pipe.read_line(&mut l) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    if tx.send(l.trim().to_string()).is_err() {
                        break;
                    }
                }
            }
        });
        (child, inp, out)
    }
    pub fn new(cmd: &str, timeout_ms: u64) -> Solver {
        let (child, inp, out) = Self::spawn(cmd);
        let mut s = Solver {
            child,
            inp,
            out,
            limit: Duration::from_millis(timeout_ms * 2 + 10_000),
            defined: HashSet::new(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cached: 0,
            time: Duration::ZERO,
            slowest: Duration::ZERO,
            cache: HashMap::new(),
            supp: HashMap::new(),
            log: None,
            dead: false,
            cmd: cmd.to_string(),
            timeout_ms,
            bv: true,
        };
        if let Ok(f) = std::env::var("SYMX_LOG") {
            s.log = std::fs::File::create(format!("{}.{:?}", f, std::thread::current().id())).ok();
        }
        s.prelude();
        s
    }
    /// z3 is much faster when told that there are no arrays; it is started again when the first array turns up
    fn prelude(&mut self) {
        let prog = self.cmd.clone();
        let mut pre = String::from("(set-option :print-success false)\n(set-option :produce-models true)\n");
        if prog.contains("z3") {
            pre += &format!("(set-option :timeout {})\n", self.timeout_ms);
            if self.bv {
                pre += "(set-logic QF_BV)\n";
            }
        }
        if prog.contains("cvc5") {
            pre += "(set-logic QF_ABV)\n";
        }
        self.send(&pre);
    }
    fn with_arrays(&mut self) {
        self.bv = false;
        if self.cmd.contains("z3") {
            let _ = self.child.kill();
            let _ = self.child.wait();
            let (child, inp, out) = Self::spawn(&self.cmd);
            self.child = child;
            self.inp = inp;
            self.out = out;
            self.defined.clear();
            self.prelude();
        }
    }
    fn send(&mut self, t: &str) {
        if let Some(l) = &mut self.log {
            let _ = l.write_all(t.as_bytes());
        }
        if self.inp.write_all(t.as_bytes()).is_err() {
            self.dead = true;
        }
    }
    /// variables (and arrays) a term depends on
    pub fn support(&mut self, c: &Ctx, t: T) -> Rc<Vec<u32>> {
        if let Some(s) = self.supp.get(&t) {
            return s.clone();
        }
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.supp.contains_key(&x) {
                continue;
            }
            let n = &c.nodes[x as usize];
            if !done {
                stack.push((x, true));
                for &a in &n.a {
                    if !self.supp.contains_key(&a) {
                        stack.push((a, false));
                    }
                }
                continue;
            }
            let mut set: BTreeSet<u32> = BTreeSet::new();
            match n.op {
                Op::Var(v) => {
                    set.insert(v);
                }
                Op::Select(a) => {
                    set.insert(ARR0 + a);
                }
                _ => {}
            }
            for &a in &n.a {
                set.extend(self.supp[&a].iter());
            }
            self.supp.insert(x, Rc::new(set.into_iter().collect()));
        }
        self.supp[&t].clone()
    }
    /// constraints of pc that share variables (transitively) with the query
    pub fn slice(&mut self, c: &Ctx, pc: &[T], q: T) -> Vec<T> {
        let mut vars: HashSet<u32> = self.support(c, q).iter().cloned().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.support(c, p);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(s.iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<T> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &p)| p).collect();
        r.push(q);
        r.sort();
        r.dedup();
        r
    }
    fn define(&mut self, c: &Ctx, t: T, buf: &mut String) {
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.defined.contains(&x) {
                continue;
            }
            let n = &c.nodes[x as usize];
            match n.op {
                Op::Const(_) => continue,
                Op::Var(v) => {
                    buf.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", v, n.w));
                    self.defined.insert(x);
                    continue;
                }
                _ => {}
            }
            if !done {
                stack.push((x, true));
                for &a in &n.a {
                    stack.push((a, false));
                }
                continue;
            }
            if let Op::Select(a) = n.op {
                let key = u32::MAX - a;
                if self.defined.insert(key) {
                    buf.push_str(&format!("(declare-const arr{} (Array (_ BitVec 64) (_ BitVec 8)))\n", a));
                }
            }
            buf.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", x, n.w, c.smt_node(x)));
            self.defined.insert(x);
        }
    }
    fn read_line(&mut self) -> Option<String> {
        self.out.recv_timeout(self.limit).ok()
    }
    fn read_sexp(&mut self) -> Option<String> {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.read_line()?;
            for ch in l.chars() {
                match ch {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            s.push_str(&l);
            s.push(' ');
            if depth <= 0 {
                return Some(s);
            }
        }
    }
    pub fn check(&mut self, c: &Ctx, asserts: &[T]) -> Res {
        let key = asserts.to_vec();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r {
                None => Res::Unsat,
                Some((v, s)) => Res::Sat(v.iter().cloned().collect(), s.iter().cloned().collect()),
            };
        }
        if self.dead {
            return Res::Unknown("solver process died".into());
        }
        self.queries += 1;
        let t0 = Instant::now();
        let mut buf = String::new();
        if self.bv && asserts.iter().any(|&a| self.support(c, a).iter().any(|&v| v >= ARR0)) {
            self.with_arrays();
        }
        for &a in asserts {
            self.define(c, a, &mut buf);
        }
        buf.push_str("(push 1)\n");
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &a in asserts {
            buf.push_str(&format!("(assert (= {} #b1))\n", c.smt_ref(a)));
            vars.extend(self.support(c, a).iter());
        }
        buf.push_str("(check-sat)\n");
        self.send(&buf);
        let _ = self.inp.flush();
        let ans = self.read_line();
        let r = match ans.as_deref() {
            Some("unsat") => {
                self.unsat += 1;
                self.cache.insert(key, None);
                Res::Unsat
            }
            Some("sat") => {
                self.sat += 1;
                let mut vals = HashMap::new();
                let mut sel = HashMap::new();
                let mut q = String::new();
                let mut names = vec![];
                for &v in &vars {
                    if v < ARR0 {
                        names.push(format!("v{}", v));
                    }
                }
                // selects reachable from the assertions
                let sels = self.reach_selects(c, asserts);
                for &s in &sels {
                    names.push(format!("n{}", s));
                }
                let mut err = None;
                if !names.is_empty() {
                    q.push_str("(get-value (");
                    for n in &names {
                        q.push_str(n);
                        q.push(' ');
                    }
                    q.push_str("))\n");
                    self.send(&q);
                    match self.read_sexp() {
                        Some(s) if !s.contains("error") => {
                            let mut vs = HashMap::new();
                            parse_values(&s, &mut vs);
                            for (k, v) in &vs {
                                if let Some(n) = k.strip_prefix('v') {
                                    vals.insert(n.parse::<u32>().unwrap(), *v);
                                }
                            }
                            // offsets are evaluated bottom-up; nested selects have smaller ids
                            let mut ss = sels.clone();
                            ss.sort();
                            for s in ss {
                                if let Op::Select(arr) = c.op(s) {
                                    let m = Model::new(vals.clone(), sel.clone());
                                    let o = c.eval(c.args(s)[0], &m) as u64;
                                    if let Some(v) = vs.get(&format!("n{}", s)) {
                                        sel.insert((arr, o), *v as u8);
                                    }
                                }
                            }
                        }
                        o => err = Some(format!("get-value: {:?}", o)),
                    }
                }
                if let Some(e) = err {
                    self.unknown += 1;
                    Res::Unknown(e)
                } else {
                    self.cache.insert(
                        key,
                        Some((vals.iter().map(|(a, b)| (*a, *b)).collect(), sel.iter().map(|(a, b)| (*a, *b)).collect())),
                    );
                    Res::Sat(vals, sel)
                }
            }
            o => {
                self.unknown += 1;
                let e = format!("solver answered {:?}", o);
                if o.is_none() || o.map_or(false, |x| x.contains("error")) {
                    self.dead = true;
                }
                Res::Unknown(e)
            }
        };
        if !self.dead {
            self.send("(pop 1)\n");
        }
        let dt = t0.elapsed();
        self.time += dt;
        if let Ok(v) = std::env::var("SYMX_SLOW") {
            if dt.as_secs_f64() > v.parse().unwrap_or(1.0) {
                eprintln!("SLOW {:.2}s {}", dt.as_secs_f64(), if matches!(r, Res::Unsat) { "unsat" } else { "sat" });
                for &a in asserts {
                    eprintln!("    {}", c.show(a, 12));
                }
            }
        }
        if dt > self.slowest {
            self.slowest = dt;
        }
        r
    }
    fn reach_selects(&self, c: &Ctx, roots: &[T]) -> Vec<T> {
        let mut seen = HashSet::new();
        let mut st = roots.to_vec();
        let mut out = vec![];
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Op::Select(_) = c.op(t) {
                out.push(t);
            }
            st.extend(c.args(t));
        }
        out
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn parse_values(s: &str, out: &mut HashMap<String, u128>) {
    let toks: Vec<&str> = s
        .split(|c: char| c == '(' || c == ')' || c.is_whitespace())
        .filter(|x| !x.is_empty())
        .collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        let v = toks[i + 1];
        let val = if let Some(h) = v.strip_prefix("#x") {
            u128::from_str_radix(h, 16).ok()
        } else if let Some(b) = v.strip_prefix("#b") {
            u128::from_str_radix(b, 2).ok()
        } else {
            None
        };
        match val {
            Some(x) => {
                out.insert(toks[i].to_string(), x);
                i += 2;
            }
            None => i += 1,
        }
    }
}
