//! Validates the normalising term constructors: random expressions are built
//! twice, once through the normalising layer and once as raw SMT-LIB text, and
//! the solver is asked whether the two can differ.
use crate::term::*;
use std::io::Write;
use std::process::{Command, Stdio};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

struct Gen {
    c: Ctx,
    r: Rng,
    vars: Vec<(T, String, u8)>,
}

impl Gen {
    fn konst(&mut self, w: u8) -> (T, String) {
        let v = match self.r.below(6) {
            0 => 0u128,
            1 => mask(w),
            2 => 1,
            3 => 1u128 << self.r.below(w as u64),
            4 => (1u128 << self.r.below(w as u64)) - 1,
            _ => self.r.next() as u128 | (self.r.next() as u128) << 64,
        } & mask(w);
        (self.c.konst(w, v), format!("(_ bv{} {})", v, w))
    }
    fn gen(&mut self, w: u8, d: u32) -> (T, String) {
        if d == 0 || self.r.below(8) == 0 {
            if self.r.below(3) == 0 {
                return self.konst(w);
            }
            let c: Vec<usize> = (0..self.vars.len()).filter(|&i| self.vars[i].2 == w).collect();
            if !c.is_empty() && self.r.below(4) != 0 {
                let k = c[self.r.below(c.len() as u64) as usize];
                return (self.vars[k].0, self.vars[k].1.clone());
            }
            // piece of a wider variable
            let c: Vec<usize> = (0..self.vars.len()).filter(|&i| self.vars[i].2 > w).collect();
            if !c.is_empty() {
                let k = c[self.r.below(c.len() as u64) as usize];
                let (t, s, vw) = self.vars[k].clone();
                let lo = self.r.below((vw - w) as u64 + 1) as u8;
                return (self.c.extract(t, lo + w - 1, lo), format!("((_ extract {} {}) {})", lo + w - 1, lo, s));
            }
            return self.konst(w);
        }
        if w >= 32 && self.r.below(4) == 0 {
            // sums of small terms: no wrap-around, common terms, differences
            let k0 = (self.r.next() as u128) & mask([4u8, 16, 30][self.r.below(3) as usize]);
            let (mut t, mut s) = (self.c.konst(w, k0), format!("(_ bv{} {})", k0, w));
            for _ in 0..1 + self.r.below(4) {
                let i = self.r.below(self.vars.len() as u64) as usize;
                let (x, xs, xw) = self.vars[i].clone();
                if xw > 32 || xw >= w {
                    continue;
                }
                let z = self.c.zext(x, w);
                let zs = format!("((_ zero_extend {}) {})", w - xw, xs);
                if self.r.below(3) == 0 {
                    t = self.c.sub(t, z);
                    s = format!("(bvsub {} {})", s, zs);
                } else {
                    t = self.c.add(t, z);
                    s = format!("(bvadd {} {})", s, zs);
                }
            }
            // rounded
            if self.r.below(3) == 0 {
                let l = 1 + self.r.below(8);
                let m = mask(w) & !mask(l as u8);
                let k = self.c.konst(w, m);
                t = self.c.and(t, k);
                s = format!("(bvand {} (_ bv{} {}))", s, m, w);
                if self.r.below(2) == 0 {
                    let (a, b) = self.gen(w, 1);
                    t = self.c.add(t, a);
                    s = format!("(bvadd {} {})", s, b);
                }
            }
            if self.r.below(3) == 0 {
                // sign extension by shifts
                let l = [8u8, 16, 20, 31][self.r.below(4) as usize].min(w - 1);
                let k = self.c.konst(w, l as u128);
                t = self.c.shl(t, k);
                t = self.c.ashr(t, k);
                s = format!("(bvashr (bvshl {} (_ bv{} {})) (_ bv{} {}))", s, l, w, l, w);
            }
            return (t, s);
        }
        macro_rules! bin {
            ($f:ident, $s:expr) => {{
                let (a, x) = self.gen(w, d - 1);
                let (b, y) = self.gen(w, d - 1);
                (self.c.$f(a, b), format!("({} {} {})", $s, x, y))
            }};
        }
        if w == 1 && self.r.below(2) == 0 {
            let ws = [1u8, 4, 8, 16, 32, 33, 64, 64, 65, 128];
            let vw = ws[self.r.below(ws.len() as u64) as usize];
            if vw >= 32 && self.r.below(3) == 0 {
                // two sums over the same terms, one of them rounded up
                let (a, x) = self.gen(vw, 2);
                let l = 1 + self.r.below(6) as u8;
                let k = self.r.below(1 << l) as u128;
                let (k1, m1) = (self.c.konst(vw, k), self.c.konst(vw, mask(vw) & !mask(l)));
                let b = self.c.add(a, k1);
                let b = self.c.and(b, m1);
                let j = self.r.below(4) as u128;
                let jj = self.c.konst(vw, j);
                let b = self.c.add(b, jj);
                let y = format!("(bvadd (bvand (bvadd {} (_ bv{} {})) (_ bv{} {})) (_ bv{} {}))", x, k, vw, mask(vw) & !mask(l), vw, j, vw);
                let f = |s: &str| format!("(ite ({} {} {}) #b1 #b0)", s, x, y);
                return match self.r.below(4) {
                    0 => (self.c.eq(a, b), f("=")),
                    1 => (self.c.ult(a, b), f("bvult")),
                    2 => (self.c.ule(a, b), f("bvule")),
                    _ => (self.c.slt(a, b), f("bvslt")),
                };
            }
            let (a, x) = self.gen(vw, d - 1);
            let (b, y) = if self.r.below(3) == 0 { self.konst(vw) } else { self.gen(vw, d - 1) };
            let f = |s: &str| format!("(ite ({} {} {}) #b1 #b0)", s, x, y);
            return match self.r.below(5) {
                0 => (self.c.eq(a, b), f("=")),
                1 => (self.c.ult(a, b), f("bvult")),
                2 => (self.c.ule(a, b), f("bvule")),
                3 => (self.c.slt(a, b), f("bvslt")),
                _ => (self.c.sle(a, b), f("bvsle")),
            };
        }
        match self.r.below(18) {
            0 | 1 => bin!(add, "bvadd"),
            2 => bin!(sub, "bvsub"),
            3 => {
                let (a, x) = self.gen(w, d - 1);
                let (b, y) = self.konst(w);
                (self.c.mul(a, b), format!("(bvmul {} {})", x, y))
            }
            4 => bin!(and, "bvand"),
            5 => bin!(or, "bvor"),
            6 => bin!(xor, "bvxor"),
            7 => {
                let (a, x) = self.gen(w, d - 1);
                (self.c.not(a), format!("(bvnot {})", x))
            }
            8 => {
                let (a, x) = self.gen(w, d - 1);
                (self.c.neg(a), format!("(bvneg {})", x))
            }
            9 | 10 => {
                let (a, x) = self.gen(w, d - 1);
                let (b, y) = if self.r.below(3) > 0 {
                    let k = self.r.below(w as u64 + 2).min(mask(w) as u64) as u128;
                    (self.c.konst(w, k), format!("(_ bv{} {})", k, w))
                } else {
                    self.gen(w, d - 1)
                };
                match self.r.below(3) {
                    0 => (self.c.shl(a, b), format!("(bvshl {} {})", x, y)),
                    1 => (self.c.lshr(a, b), format!("(bvlshr {} {})", x, y)),
                    _ => (self.c.ashr(a, b), format!("(bvashr {} {})", x, y)),
                }
            }
            11 => {
                let (c, z) = self.gen(1, d - 1);
                let (a, x) = self.gen(w, d - 1);
                let (b, y) = self.gen(w, d - 1);
                (self.c.ite(c, a, b), format!("(ite (= {} #b1) {} {})", z, x, y))
            }
            12 if w >= 2 => {
                let k = 1 + self.r.below(w as u64 - 1) as u8;
                let (a, x) = self.gen(k, d - 1);
                let (b, y) = self.gen(w - k, d - 1);
                (self.c.concat(vec![a, b]), format!("(concat {} {})", x, y))
            }
            13 if w >= 2 => {
                let k = 1 + self.r.below(w as u64 - 1) as u8;
                let (a, x) = self.gen(k, d - 1);
                if self.r.below(2) == 0 {
                    (self.c.zext(a, w), format!("((_ zero_extend {}) {})", w - k, x))
                } else {
                    (self.c.sext(a, w), format!("((_ sign_extend {}) {})", w - k, x))
                }
            }
            14 | 15 if w <= 64 => {
                let e = 1 + self.r.below(64) as u8;
                let (a, x) = self.gen(w + e, d - 1);
                let lo = if self.r.below(2) == 0 { 0 } else { self.r.below(e as u64 + 1) as u8 };
                (self.c.extract(a, lo + w - 1, lo), format!("((_ extract {} {}) {})", lo + w - 1, lo, x))
            }
            16 => {
                let (a, x) = self.gen(w, d - 1);
                let k = self.r.below(w as u64) as u32;
                let v = (1u128 << k) & mask(w);
                let b = self.c.konst(w, v);
                let y = format!("(_ bv{} {})", v, w);
                if self.r.below(2) == 0 {
                    (self.c.divop(Op::Udiv, a, b), format!("(bvudiv {} {})", x, y))
                } else {
                    (self.c.divop(Op::Urem, a, b), format!("(bvurem {} {})", x, y))
                }
            }
            _ => bin!(add, "bvadd"),
        }
    }
}

pub fn run(args: &[String]) {
    let n: u64 = args.get(0).and_then(|s| s.parse().ok()).unwrap_or(2000);
    let seed: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut child = Command::new("z3")
        .args(["-in", "-T:600"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("z3");
    let mut script = String::from("(set-option :timeout 5000)\n");
    let mut exprs = vec![];
    for k in 0..n {
        let mut g = Gen { c: Ctx::new(), r: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (k + 1).wrapping_mul(0xD1B54A32D192ED03)), vars: vec![] };
        for w in [1u8, 4, 8, 16, 28, 32, 64, 64] {
            let name = format!("v{}", g.vars.len());
            let t = g.c.var(w, &name);
            g.vars.push((t, name, w));
        }
        // a bounded variable
        let max = (g.r.next() as u128) & mask([8u8, 20, 29][g.r.below(3) as usize]);
        let bname = format!("v{}", g.vars.len());
        let (t, _) = g.c.var_max(29, &bname, max);
        g.vars.push((t, bname.clone(), 29));
        let ws = [1u8, 1, 8, 16, 32, 64, 128];
        let w = ws[g.r.below(ws.len() as u64) as usize];
        let (t, raw) = g.gen(w, 4);
        // evaluate consistency of the concrete evaluator as well
        script.push_str("(push 1)\n");
        for (_, n, w) in &g.vars {
            script.push_str(&format!("(declare-const {} (_ BitVec {}))\n", n, w));
        }
        let mut order = vec![];
        let mut st = vec![(t, false)];
        let mut seen = std::collections::HashSet::new();
        while let Some((x, done)) = st.pop() {
            if done {
                order.push(x);
                continue;
            }
            if !seen.insert(x) {
                continue;
            }
            st.push((x, true));
            for &a in g.c.args(x) {
                st.push((a, false));
            }
        }
        for x in order {
            if !matches!(g.c.op(x), Op::Const(_) | Op::Var(_)) {
                script.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", x, g.c.w(x), g.c.smt_node(x)));
            }
        }
        // concrete evaluation under a random assignment
        let mut vals = std::collections::HashMap::new();
        let mut asg = String::new();
        for (i, (_, nm, w)) in g.vars.iter().enumerate() {
            let mut v = (g.r.next() as u128) & mask(*w);
            if *nm == bname {
                v %= max + 1;
            }
            vals.insert(i as u32, v);
            asg.push_str(&format!("(= {} (_ bv{} {})) ", nm, v, w));
        }
        let m = Model::new(vals, Default::default());
        let ev = g.c.eval(t, &m);
        script.push_str(&format!(
            "(assert (bvule {} (_ bv{} 29)))\n(assert (or (not (= {} {})) (and {} (not (= {} (_ bv{} {}))))))\n(check-sat)\n(pop 1)\n",
            bname, max,
            g.c.smt_ref(t), raw, asg, raw, ev, w
        ));
        exprs.push((raw, g.c.show(t, 6)));
    }
    let mut inp = child.stdin.take().unwrap();
    let h = std::thread::spawn(move || {
        let _ = inp.write_all(script.as_bytes());
    });
    let out = child.wait_with_output().unwrap();
    h.join().unwrap();
    let text = String::from_utf8_lossy(&out.stdout);
    let (mut unsat, mut unk, mut bad) = (0, 0, 0);
    for (i, l) in text.lines().enumerate() {
        match l {
            "unsat" => unsat += 1,
            "sat" => {
                bad += 1;
                if bad <= 5 {
                    eprintln!("MISMATCH #{}\n raw: {}\n norm: {}", i, exprs[i].0, exprs[i].1);
                }
            }
            "unknown" => unk += 1,
            l => {
                eprintln!("solver: {}", l);
                bad += 1;
                if bad > 5 {
                    break;
                }
            }
        }
    }
    println!("selftest: {} expressions, {} equivalent, {} unknown, {} mismatches", n, unsat, unk, bad);
    if bad > 0 || unsat + unk != n || unsat * 10 < n * 9 {
        std::process::exit(1);
    }
}
