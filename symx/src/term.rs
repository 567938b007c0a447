//! Hash-consed bit-vector terms with a normalising constructor layer.
//!
//! Widths are 1..=128. Booleans are 1-bit vectors.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    /// initial content of array object `u32` at a 64-bit offset
    Select(u32),
    Not,
    Neg,
    Add,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    And,
    Or,
    Xor,
    Shl,
    Lshr,
    Ashr,
    /// args MSB first
    Concat,
    /// (hi, lo)
    Extract(u8, u8),
    Sext,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Vec<T>,
}

#[derive(Default)]
pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub vars: Vec<(String, u8)>,
    kb: HashMap<T, (u128, u128)>,
    /// upper bounds of variables, a constraint of every path the variable exists on
    ub: HashMap<T, u128>,
    rg: HashMap<T, (u128, u128)>,
    pub selects: Vec<T>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext_val(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

#[derive(Default)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    pub sel: HashMap<(u32, u64), u8>,
    cache: RefCell<HashMap<T, u128>>,
}

impl Model {
    pub fn new(vals: HashMap<u32, u128>, sel: HashMap<(u32, u64), u8>) -> Rc<Model> {
        Rc::new(Model {
            vals,
            sel,
            cache: Default::default(),
        })
    }
}

impl Ctx {
    pub fn new() -> Self {
        Default::default()
    }

    fn mk(&mut self, op: Op, w: u8, a: Vec<T>) -> T {
        debug_assert!(w >= 1 && w <= 128);
        let n = Node { op, w, a };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        if let Op::Select(_) = n.op {
            self.selects.push(t);
        }
        self.map.insert(n, t);
        t
    }

    pub fn w(&self, t: T) -> u8 {
        self.nodes[t as usize].w
    }
    pub fn op(&self, t: T) -> Op {
        self.nodes[t as usize].op
    }
    pub fn args(&self, t: T) -> &[T] {
        &self.nodes[t as usize].a
    }
    pub fn cval(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].op {
            Op::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn konst(&mut self, w: u8, v: u128) -> T {
        self.mk(Op::Const(v & mask(w)), w, vec![])
    }
    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.konst(1, 0)
    }
    pub fn var(&mut self, w: u8, name: &str) -> T {
        let id = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        self.mk(Op::Var(id), w, vec![])
    }
    pub fn select(&mut self, arr: u32, off: T) -> T {
        self.mk(Op::Select(arr), 8, vec![off])
    }

    // ---- known bits -------------------------------------------------------
    /// (known zero bits, known one bits)
    pub fn known(&mut self, t: T) -> (u128, u128) {
        if let Some(&k) = self.kb.get(&t) {
            return k;
        }
        let n = self.nodes[t as usize].clone();
        let m = mask(n.w);
        let r = match n.op {
            Op::Const(c) => (!c & m, c),
            Op::Concat => {
                let (mut z, mut o) = (0u128, 0u128);
                for &x in &n.a {
                    let xw = self.w(x);
                    let (xz, xo) = self.known(x);
                    z = if xw >= 128 { xz } else { z << xw | xz };
                    o = if xw >= 128 { xo } else { o << xw | xo };
                }
                (z, o)
            }
            Op::And => {
                let (a, b) = (self.known(n.a[0]), self.known(n.a[1]));
                (a.0 | b.0, a.1 & b.1)
            }
            Op::Or => {
                let (a, b) = (self.known(n.a[0]), self.known(n.a[1]));
                (a.0 & b.0, a.1 | b.1)
            }
            Op::Xor => {
                let (a, b) = (self.known(n.a[0]), self.known(n.a[1]));
                (a.0 & b.0 | a.1 & b.1, a.0 & b.1 | a.1 & b.0)
            }
            Op::Not => {
                let a = self.known(n.a[0]);
                (a.1, a.0)
            }
            Op::Ite => {
                let (a, b) = (self.known(n.a[1]), self.known(n.a[2]));
                (a.0 & b.0, a.1 & b.1)
            }
            Op::Extract(hi, lo) => {
                let a = self.known(n.a[0]);
                let mm = mask(hi - lo + 1);
                (a.0 >> lo & mm, a.1 >> lo & mm)
            }
            Op::Sext => {
                let x = n.a[0];
                let xw = self.w(x);
                let (z, o) = self.known(x);
                let ext = m & !mask(xw);
                if z >> (xw - 1) & 1 == 1 {
                    (z | ext, o)
                } else if o >> (xw - 1) & 1 == 1 {
                    (z, o | ext)
                } else {
                    (z, o)
                }
            }
            Op::Add => {
                let (a, b) = (self.known(n.a[0]), self.known(n.a[1]));
                let (ma, mb) = (!a.0 & m, !b.0 & m);
                let mut z = 0u128;
                if let Some(s) = ma.checked_add(mb) {
                    if s <= m {
                        let lz = 128 - s.leading_zeros();
                        z |= m & !mask_n(lz);
                    }
                }
                let tz = (a.0.trailing_ones()).min(b.0.trailing_ones());
                z |= mask_n(tz) & m;
                (z, 0)
            }
            _ => (0, 0),
        };
        self.kb.insert(t, r);
        r
    }
    /// A variable that is at most `max`.  The caller makes the returned condition part of every path
    /// on which the variable occurs.
    pub fn var_max(&mut self, w: u8, name: &str, max: u128) -> (T, T) {
        let v = self.var(w, name);
        let k = self.konst(w, max);
        let c = self.mk(Op::Ule, 1, vec![v, k]);
        self.ub.insert(v, max);
        (v, c)
    }
    /// bounds of the unsigned value
    pub fn range(&mut self, t: T) -> (u128, u128) {
        if let Some(&r) = self.rg.get(&t) {
            return r;
        }
        let (z, o) = self.known(t);
        let n = self.nodes[t as usize].clone();
        let (mut lo, mut hi) = (o, !z & mask(n.w));
        let mut meet = |a: u128, b: u128| {
            lo = lo.max(a);
            hi = hi.min(b);
        };
        match n.op {
            Op::Var(_) => {
                if let Some(&m) = self.ub.get(&t) {
                    meet(0, m)
                }
            }
            Op::Extract(h, l) => {
                let (a, b) = self.range(n.a[0]);
                if b <= mask(h + 1) {
                    meet(a >> l, b >> l)
                }
            }
            Op::Concat => {
                let (mut a, mut b) = (0u128, 0u128);
                for &x in &n.a {
                    let xw = self.w(x);
                    let (xa, xb) = self.range(x);
                    a = if xw >= 128 { xa } else { a << xw | xa };
                    b = if xw >= 128 { xb } else { b << xw | xb };
                }
                meet(a, b)
            }
            Op::Ite => {
                let (a, b) = (self.range(n.a[1]), self.range(n.a[2]));
                meet(a.0.min(b.0), a.1.max(b.1))
            }
            Op::Add | Op::Neg | Op::Mul => {
                if let Some((v, c)) = self.int_lin(t, false) {
                    if let Some((a, b)) = self.int_range(&v, c) {
                        meet(a as u128, b as u128)
                    }
                }
            }
            _ => {}
        }
        self.rg.insert(t, (lo, hi));
        (lo, hi)
    }
    pub fn umax(&mut self, t: T) -> u128 {
        self.range(t).1
    }
    pub fn umin(&mut self, t: T) -> u128 {
        self.range(t).0
    }

    // ---- linear arithmetic normal form ------------------------------------
    pub fn linear(&self, t: T) -> (Vec<(T, u128)>, u128) {
        let mut v = vec![];
        let mut c = 0u128;
        self.lin_rec(t, 1, &mut v, &mut c);
        let m = mask(self.w(t));
        v.retain(|x: &(T, u128)| x.1 & m != 0);
        v.sort();
        (v, c & m)
    }
    fn lin_rec(&self, t: T, k: u128, v: &mut Vec<(T, u128)>, c: &mut u128) {
        let n = &self.nodes[t as usize];
        let m = mask(n.w);
        match n.op {
            Op::Const(x) => *c = c.wrapping_add(x.wrapping_mul(k)) & m,
            Op::Add => {
                self.lin_rec(n.a[0], k, v, c);
                self.lin_rec(n.a[1], k, v, c);
            }
            Op::Neg => self.lin_rec(n.a[0], k.wrapping_neg() & m, v, c),
            Op::Mul if self.cval(n.a[1]).is_some() => {
                let x = self.cval(n.a[1]).unwrap();
                self.lin_rec(n.a[0], k.wrapping_mul(x) & m, v, c)
            }
            _ => {
                for e in v.iter_mut() {
                    if e.0 == t {
                        e.1 = e.1.wrapping_add(k) & m;
                        return;
                    }
                }
                v.push((t, k & m));
            }
        }
    }
    fn from_linear(&mut self, w: u8, v: &[(T, u128)], c: u128) -> T {
        let mut acc: Option<T> = None;
        let m = mask(w);
        for &(t, k) in v {
            let x = if k == 1 {
                t
            } else if k == m {
                self.mk(Op::Neg, w, vec![t])
            } else {
                let kc = self.konst(w, k);
                self.mk(Op::Mul, w, vec![t, kc])
            };
            acc = Some(match acc {
                None => x,
                Some(a) => self.mk(Op::Add, w, vec![a, x]),
            });
        }
        match acc {
            None => self.konst(w, c),
            Some(a) if c == 0 => a,
            Some(a) => {
                let k = self.konst(w, c);
                self.mk(Op::Add, w, vec![a, k])
            }
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(w, x.wrapping_add(y));
        }
        if self.cval(a) == Some(0) {
            return b;
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // a value being put together from its bytes
        if self.pieces(a) && self.pieces(b) {
            let (za, zb) = (self.known(a).0, self.known(b).0);
            if za | zb == mask(w) {
                return self.or(a, b);
            }
        }
        let (mut v, mut c) = self.linear(a);
        if v.len() > 12 {
            return self.mk(Op::Add, w, vec![a, b]);
        }
        self.lin_rec(b, 1, &mut v, &mut c);
        v.retain(|x| x.1 != 0);
        v.sort();
        self.from_linear(w, &v, c & mask(w))
    }
    fn pieces(&self, t: T) -> bool {
        let mut some = false;
        if let Op::Concat = self.op(t) {
            for &x in self.args(t) {
                match self.op(x) {
                    Op::Const(_) => {}
                    Op::Extract(..) | Op::Select(_) | Op::Add | Op::Neg => some = true,
                    _ if self.w(x) <= 8 => some = true,
                    _ => return false,
                }
            }
        }
        some
    }
    /// t as a sum of integers: (terms with signed coefficients, constant), exact without wrap-around
    /// for the unsigned or signed reading of t; every term is read as unsigned.
    fn int_lin(&mut self, t: T, signed: bool) -> Option<(Vec<(T, i128)>, i128)> {
        let w = self.w(t);
        let (v, c) = self.linear(t);
        if v.len() > 8 {
            return None;
        }
        let v: Vec<(T, i128)> = v.into_iter().map(|(x, k)| (x, sext_val(k, w))).collect();
        let (min, max) = if signed {
            (sext_val(1u128 << (w - 1), w), (mask(w) >> 1) as i128)
        } else {
            (0, if w >= 127 { i128::MAX } else { mask(w) as i128 })
        };
        let mut cands = vec![sext_val(c, w)];
        if w < 127 {
            cands.push(c as i128);
            cands.push(c as i128 - (1i128 << w));
        }
        for c in cands {
            if let Some((lo, hi)) = self.int_range(&v, c) {
                if lo >= min && hi <= max {
                    return Some((v, c));
                }
            }
        }
        None
    }
    fn int_range(&mut self, v: &[(T, i128)], c: i128) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (c, c);
        for &(x, k) in v {
            let (a, b) = (i128::try_from(self.umin(x)).ok()?, i128::try_from(self.umax(x)).ok()?);
            let (a, b) = (a.checked_mul(k)?, b.checked_mul(k)?);
            lo = lo.checked_add(a.min(b))?;
            hi = hi.checked_add(a.max(b))?;
        }
        Some((lo, hi))
    }
    /// Rewrite rounded values: x with its low bits replaced is x - low bits + constant.
    fn expand(&mut self, v: Vec<(T, i128)>, c: i128, depth: u32) -> Option<(Vec<(T, i128)>, i128)> {
        let mut out: Vec<(T, i128)> = vec![];
        let mut c = c;
        let mut put = |out: &mut Vec<(T, i128)>, t: T, k: i128| -> Option<()> {
            match out.iter_mut().find(|x| x.0 == t) {
                Some(e) => e.1 = e.1.checked_add(k)?,
                None => out.push((t, k)),
            }
            Some(())
        };
        for (t, k) in v {
            if depth > 0 {
                if let Some((x, l, low)) = self.rounded(t) {
                    if let Some((vx, cx)) = self.int_lin(x, false) {
                        let (vx, cx) = self.expand(vx, cx, depth - 1)?;
                        for (y, ky) in vx {
                            put(&mut out, y, ky.checked_mul(k)?)?;
                        }
                        let lo = self.extract(x, l - 1, 0);
                        c = c.checked_add(k.checked_mul(cx.checked_add(low as i128)?)?)?;
                        match self.cval(lo) {
                            Some(q) => c = c.checked_sub(k.checked_mul(q as i128)?)?,
                            None => put(&mut out, lo, k.checked_neg()?)?,
                        }
                        continue;
                    }
                }
            }
            put(&mut out, t, k)?;
        }
        out.retain(|x| x.1 != 0);
        Some((out, c))
    }
    /// t = (x with its low l bits replaced by the constant)
    fn rounded(&mut self, t: T) -> Option<(T, u8, u128)> {
        if !matches!(self.op(t), Op::Concat) {
            return None;
        }
        let a = self.args(t).to_vec();
        let a = if self.cval(a[0]) == Some(0) { &a[1..] } else { &a[..] };
        if a.len() != 2 {
            return None;
        }
        let low = self.cval(a[1])?;
        if let Op::Extract(h, l) = self.op(a[0]) {
            let x = self.args(a[0])[0];
            if l == self.w(a[1]) && self.range(x).1 <= mask(h + 1) {
                return Some((x, l, low));
            }
        }
        None
    }
    /// a - b as an integer sum, when both are exact
    fn int_diff(&mut self, a: T, b: T, signed: bool) -> Option<(i128, i128)> {
        let (va, ca) = self.int_lin(a, signed)?;
        let (vb, cb) = self.int_lin(b, signed)?;
        self.diff_range(&va, ca, &vb, cb)
    }
    fn diff_range(&mut self, va: &[(T, i128)], ca: i128, vb: &[(T, i128)], cb: i128) -> Option<(i128, i128)> {
        let mut d = va.to_vec();
        for &(t, k) in vb {
            match d.iter_mut().find(|x| x.0 == t) {
                Some(e) => e.1 = e.1.checked_sub(k)?,
                None => d.push((t, k.checked_neg()?)),
            }
        }
        d.retain(|x| x.1 != 0);
        let c = ca.checked_sub(cb)?;
        let (l0, h0) = self.int_range(&d, c)?;
        let (d, c) = self.expand(d, c, 4)?;
        let (l1, h1) = self.int_range(&d, c)?;
        Some((l0.max(l1), h0.min(h1)))
    }
    /// a < b (or a <= b) by integer reasoning: decided, or rewritten without what both sides share
    fn int_less(&mut self, a: T, b: T, signed: bool, strict: bool) -> Option<T> {
        let nontrivial = |me: &Self, t: T| matches!(me.op(t), Op::Add | Op::Neg | Op::Mul | Op::Concat);
        if !nontrivial(self, a) && !nontrivial(self, b) {
            return None;
        }
        let w = self.w(a);
        let (va, ca) = self.int_lin(a, signed)?;
        let (vb, cb) = self.int_lin(b, signed)?;
        let mut d = va.clone();
        for &(t, k) in &vb {
            match d.iter_mut().find(|x| x.0 == t) {
                Some(e) => e.1 = e.1.checked_sub(k)?,
                None => d.push((t, k.checked_neg()?)),
            }
        }
        d.retain(|x| x.1 != 0);
        d.sort();
        let c = ca.checked_sub(cb)?;
        let (lo, hi) = self.diff_range(&va, ca, &vb, cb)?;
        if hi < 0 || (!strict && hi == 0) {
            return Some(self.tru());
        }
        if lo > 0 || (strict && lo == 0) {
            return Some(self.fls());
        }
        let neg_left = va.iter().chain(&vb).any(|x| x.1 < 0);
        if d.len() == va.len() + vb.len() && !neg_left && (ca == 0 || cb == 0) && !(signed && (ca < 0 || cb < 0)) && !signed {
            return None;
        }
        let p: Vec<(T, i128)> = d.iter().filter(|x| x.1 > 0).cloned().collect();
        let n: Vec<(T, i128)> = d.iter().filter(|x| x.1 < 0).map(|x| (x.0, -x.1)).collect();
        let (cp, cn) = if c > 0 { (c, 0) } else { (0, c.checked_neg()?) };
        let (_, hp) = self.int_range(&p, cp)?;
        let (_, hn) = self.int_range(&n, cn)?;
        let m = hp.max(hn) as u128;
        let nw = (128 - m.leading_zeros()).max(2) as u8;
        if nw > w + 1 || nw > 120 {
            return None;
        }
        let x = self.build(nw, &p, cp);
        let y = self.build(nw, &n, cn);
        Some(if strict { self.ult_raw(x, y) } else { self.ule_raw(x, y) })
    }
    /// sum of coefficient * term at width w (terms extended or cut to fit, which must lose nothing)
    fn build(&mut self, w: u8, v: &[(T, i128)], c: i128) -> T {
        let mut acc = self.konst(w, c as u128);
        for &(t, k) in v {
            let tw = self.w(t);
            let x = if tw > w { self.trunc(t, w) } else { self.zext(t, w) };
            let kk = self.konst(w, k as u128);
            let y = self.mul(x, kk);
            acc = self.add(acc, y);
        }
        acc
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.cval(a) {
            return self.konst(w, x.wrapping_neg());
        }
        let (mut v, c) = self.linear(a);
        let m = mask(w);
        for e in v.iter_mut() {
            e.1 = e.1.wrapping_neg() & m;
        }
        self.from_linear(w, &v, c.wrapping_neg() & m)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if a == b {
            let w = self.w(a);
            return self.konst(w, 0);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(w, x.wrapping_mul(y));
            }
            if y == 0 {
                return self.konst(w, 0);
            }
            if y == 1 {
                return a;
            }
            let (mut v, c) = self.linear(a);
            let m = mask(w);
            for e in v.iter_mut() {
                e.1 = e.1.wrapping_mul(y) & m;
            }
            v.retain(|e| e.1 != 0);
            return self.from_linear(w, &v, c.wrapping_mul(y) & m);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, vec![a, b])
    }
    pub fn divop(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                let r = ev_div(op, x, y, w);
                return self.konst(w, r);
            }
        }
        if let Some(y) = self.cval(b) {
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as u8;
                match op {
                    Op::Udiv => {
                        let kk = self.konst(w, k as u128);
                        return self.lshr(a, kk);
                    }
                    Op::Urem => {
                        let mm = self.konst(w, y - 1);
                        return self.and(a, mm);
                    }
                    _ => {}
                }
            }
        }
        self.mk(op, w, vec![a, b])
    }

    // ---- bitwise -----------------------------------------------------------
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        match self.op(a) {
            Op::Const(c) => self.konst(w, !c),
            Op::Not => self.args(a)[0],
            Op::Concat => {
                let xs = self.args(a).to_vec();
                let ys = xs.into_iter().map(|x| self.not(x)).collect();
                self.concat(ys)
            }
            Op::Ult => {
                let (x, y) = (self.args(a)[0], self.args(a)[1]);
                self.ule(y, x)
            }
            Op::Ule => {
                let (x, y) = (self.args(a)[0], self.args(a)[1]);
                self.ult(y, x)
            }
            Op::Slt => {
                let (x, y) = (self.args(a)[0], self.args(a)[1]);
                self.sle(y, x)
            }
            Op::Sle => {
                let (x, y) = (self.args(a)[0], self.args(a)[1]);
                self.slt(y, x)
            }
            _ => self.mk(Op::Not, w, vec![a]),
        }
    }
    /// Cut points (bit positions) of the segment structure of t.
    fn cuts(&self, t: T, out: &mut Vec<u8>) {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Concat => {
                let mut p = n.w;
                for &x in &n.a {
                    p -= self.w(x);
                    if p > 0 {
                        out.push(p);
                    }
                }
            }
            Op::Const(c) => {
                let mut prev = c & 1;
                for i in 1..n.w {
                    let b = c >> i & 1;
                    if b != prev {
                        out.push(i);
                        prev = b;
                    }
                }
            }
            _ => {}
        }
    }
    fn bitop(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = match op {
                Op::And => x & y,
                Op::Or => x | y,
                _ => x ^ y,
            };
            return self.konst(w, r);
        }
        let seg = |c: &Ctx, t: T| matches!(c.op(t), Op::Concat | Op::Const(_));
        if w > 1 && (seg(self, a) || seg(self, b)) {
            let mut cs = vec![];
            // only split on const runs / concat pieces
            self.cuts(a, &mut cs);
            self.cuts(b, &mut cs);
            cs.sort();
            cs.dedup();
            if !cs.is_empty() && cs.len() <= 40 {
                // check that splitting helps: at least one piece is constant on one side
                let mut parts = vec![];
                let mut hi = w - 1;
                let mut pts: Vec<u8> = cs.iter().rev().cloned().collect();
                pts.push(0);
                for p in pts {
                    let xa = self.extract(a, hi, p);
                    let xb = self.extract(b, hi, p);
                    parts.push(self.bitop_atom(op, xa, xb));
                    if p > 0 {
                        hi = p - 1;
                    }
                }
                return self.concat(parts);
            }
        }
        self.bitop_atom(op, a, b)
    }
    fn bitop_atom(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = match op {
                Op::And => x & y,
                Op::Or => x | y,
                _ => x ^ y,
            };
            return self.konst(w, r);
        }
        if let Some(y) = self.cval(b) {
            let m = mask(w);
            match op {
                Op::And if y == 0 => return b,
                Op::And if y == m => return a,
                Op::Or if y == 0 => return a,
                Op::Or if y == m => return b,
                Op::Xor if y == 0 => return a,
                Op::Xor if y == m => return self.not(a),
                _ => {}
            }
        }
        if a == b {
            return match op {
                Op::And | Op::Or => a,
                _ => self.konst(w, 0),
            };
        }
        if w == 1 {
            // x & !x, x | !x
            let na = self.not(a);
            if na == b {
                return match op {
                    Op::And => self.konst(1, 0),
                    _ => self.konst(1, 1),
                };
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(op, w, vec![a, b])
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bitop(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bitop(Op::Or, a, b)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        self.bitop(Op::Xor, a, b)
    }

    // ---- structure ---------------------------------------------------------
    pub fn concat(&mut self, parts: Vec<T>) -> T {
        let mut out: Vec<T> = vec![];
        let mut stack: Vec<T> = parts.into_iter().rev().collect();
        while let Some(p) = stack.pop() {
            if let Op::Concat = self.op(p) {
                let xs = self.args(p).to_vec();
                for x in xs.into_iter().rev() {
                    stack.push(x);
                }
                continue;
            }
            if let Some(&l) = out.last() {
                // merge constants
                if let (Some(x), Some(y)) = (self.cval(l), self.cval(p)) {
                    let (wl, wp) = (self.w(l), self.w(p));
                    if wl as u32 + wp as u32 <= 128 {
                        let v = if wp >= 128 { y } else { x << wp | y };
                        let n = self.konst(wl + wp, v);
                        out.pop();
                        out.push(n);
                        continue;
                    }
                }
                // merge adjacent extracts
                if let Some(m) = self.merge_extract(l, p) {
                    out.pop();
                    // re-push so that it can merge further
                    stack.push(m);
                    continue;
                }
            }
            out.push(p);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w: u32 = out.iter().map(|&x| self.w(x) as u32).sum();
        assert!(w <= 128, "concat too wide");
        // all the bits of one term, some of them written as the constants they are known to be
        let whole = out.iter().find_map(|&x| match self.op(x) {
            Op::Extract(..) => Some(self.args(x)[0]),
            _ => None,
        });
        if let Some(x) = whole {
            if self.w(x) as u32 == w {
                let (z, o) = self.known(x);
                let mut pos = 0u32;
                let mut same = true;
                for &p in out.iter().rev() {
                    let wp = self.w(p) as u32;
                    if let Some(v) = self.cval(p) {
                        let m = mask(wp as u8) << pos;
                        same &= (z | o) & m == m && o & m == v << pos;
                    } else {
                        same &= matches!(self.op(p), Op::Extract(h, l) if l as u32 == pos && h as u32 == pos + wp - 1) && self.args(p)[0] == x;
                    }
                    pos += wp;
                }
                if same {
                    return x;
                }
            }
        }
        self.mk(Op::Concat, w as u8, out)
    }
    fn ext_view(&self, t: T) -> (T, u8, u8) {
        match self.op(t) {
            Op::Extract(h, l) => (self.args(t)[0], h, l),
            _ => (t, self.w(t) - 1, 0),
        }
    }
    fn merge_extract(&mut self, hi: T, lo: T) -> Option<T> {
        let (a, ah, al) = self.ext_view(hi);
        let (b, bh, bl) = self.ext_view(lo);
        if a == b && al == bh + 1 {
            return Some(self.extract(a, ah, bl));
        }
        // lo is the normal form of the bits of a below hi
        let lw = self.w(lo);
        if al >= lw && matches!(self.op(hi), Op::Extract(..)) && matches!(self.op(lo), Op::Add | Op::Neg) {
            let x = self.extract(a, al - 1, al - lw);
            if x == lo {
                return Some(self.extract(a, ah, al - lw));
            }
        }
        // sign extension: bits above come from the sign bit of lo
        if let Op::Sext = self.op(hi) {
            let x = self.args(hi)[0];
            let (c, ch, cl) = self.ext_view(x);
            // hi = sext(extract(c, ch, ch)) and lo's top bit is that same bit
            if ch == cl && c == b && bh == ch {
                let w = self.w(hi) + self.w(lo);
                return Some(self.sext(lo, w));
            }
        }
        None
    }
    pub fn extract(&mut self, t: T, hi: u8, lo: u8) -> T {
        let w = self.w(t);
        debug_assert!(hi >= lo && hi < w, "extract {} {} of {}", hi, lo, w);
        if lo == 0 && hi == w - 1 {
            return t;
        }
        let nw = hi - lo + 1;
        match self.op(t) {
            Op::Const(c) => self.konst(nw, c >> lo),
            Op::Extract(_, l2) => {
                let x = self.args(t)[0];
                self.extract(x, hi + l2, lo + l2)
            }
            Op::Concat => {
                let xs = self.args(t).to_vec();
                let mut p = w;
                let mut parts = vec![];
                for x in xs {
                    let xw = self.w(x);
                    let (xh, xl) = (p - 1, p - xw);
                    p -= xw;
                    if xl > hi || xh < lo {
                        continue;
                    }
                    let h = hi.min(xh) - xl;
                    let l = lo.max(xl) - xl;
                    parts.push(self.extract(x, h, l));
                }
                self.concat(parts)
            }
            Op::Sext => {
                let x = self.args(t)[0];
                let xw = self.w(x);
                if hi < xw {
                    self.extract(x, hi, lo)
                } else if lo < xw {
                    let e = self.extract(x, xw - 1, lo);
                    self.sext(e, nw)
                } else {
                    let e = self.extract(x, xw - 1, xw - 1);
                    self.sext(e, nw)
                }
            }
            Op::Not => {
                let x = self.args(t)[0];
                let e = self.extract(x, hi, lo);
                self.not(e)
            }
            Op::And | Op::Or | Op::Xor => {
                let op = self.op(t);
                let (x, y) = (self.args(t)[0], self.args(t)[1]);
                let ex = self.extract(x, hi, lo);
                let ey = self.extract(y, hi, lo);
                self.bitop(op, ex, ey)
            }
            Op::Ite => {
                let (c, x, y) = (self.args(t)[0], self.args(t)[1], self.args(t)[2]);
                if self.cval(x).is_some() || self.cval(y).is_some() {
                    let ex = self.extract(x, hi, lo);
                    let ey = self.extract(y, hi, lo);
                    return self.ite(c, ex, ey);
                }
                self.mk(Op::Extract(hi, lo), nw, vec![t])
            }
            Op::Add | Op::Neg if lo == 0 && nw >= 16 => {
                let (v, c) = self.linear(t);
                let mut acc = self.konst(nw, c);
                for (x, k) in v {
                    let x = self.extract(x, hi, 0);
                    let k = self.konst(nw, k);
                    let y = self.mul(x, k);
                    acc = self.add(acc, y);
                }
                acc
            }
            Op::Add | Op::Neg | Op::Mul if lo > 0 && w < 128 && self.twos(t) > 0 => {
                // the high bits of a shifted sum
                let (v, c) = self.linear(t);
                let d = lo.min(self.twos(t));
                let sw = w - d;
                let mut acc = self.konst(sw, (sext_val(c, w) >> d) as u128);
                for (x, k) in v {
                    let x = self.extract(x, sw - 1, 0);
                    let k = self.konst(sw, (sext_val(k, w) >> d) as u128);
                    let y = self.mul(x, k);
                    acc = self.add(acc, y);
                }
                self.extract(acc, hi - d, lo - d)
            }
            _ => {
                let (z, o) = self.known(t);
                let m = mask(nw);
                if z >> lo & m == m {
                    return self.konst(nw, 0);
                }
                if o >> lo & m == m {
                    return self.konst(nw, m);
                }
                self.mk(Op::Extract(hi, lo), nw, vec![t])
            }
        }
    }
    /// the power of two that divides every coefficient of the sum t
    fn twos(&self, t: T) -> u8 {
        let (v, c) = self.linear(t);
        v.iter().map(|x| x.1).chain([c]).filter(|&x| x != 0).map(|x| x.trailing_zeros() as u8).min().unwrap_or(0)
    }
    pub fn trunc(&mut self, t: T, w: u8) -> T {
        self.extract(t, w - 1, 0)
    }
    pub fn zext(&mut self, t: T, w: u8) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if tw >= 16 && matches!(self.op(t), Op::Add | Op::Neg | Op::Mul) {
            if let Some((v, c)) = self.int_lin(t, false) {
                return self.build(w, &v, c);
            }
        }
        let z = self.konst(w - tw, 0);
        self.concat(vec![z, t])
    }
    pub fn sext(&mut self, t: T, w: u8) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if let Some(c) = self.cval(t) {
            return self.konst(w, sext_val(c, tw) as u128);
        }
        if let Op::Sext = self.op(t) {
            let x = self.args(t)[0];
            return self.sext(x, w);
        }
        let (z, _) = self.known(t);
        if z >> (tw - 1) & 1 == 1 {
            return self.zext(t, w);
        }
        if tw >= 16 && matches!(self.op(t), Op::Add | Op::Neg | Op::Mul) {
            if let Some((v, c)) = self.int_lin(t, true) {
                return self.build(w, &v, c);
            }
        }
        self.mk(Op::Sext, w, vec![t])
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            if k == 0 {
                return a;
            }
            let k = k as u8;
            // keep linear structure for sums (addresses scaled by a constant)
            if matches!(self.op(a), Op::Add | Op::Mul | Op::Neg) {
                let kk = self.konst(w, 1u128 << k);
                return self.mul(a, kk);
            }
            let e = self.extract(a, w - 1 - k, 0);
            let z = self.konst(k, 0);
            return self.concat(vec![e, z]);
        }
        self.mk(Op::Shl, w, vec![a, b])
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            if k == 0 {
                return a;
            }
            let e = self.extract(a, w - 1, k as u8);
            return self.zext(e, w);
        }
        self.mk(Op::Lshr, w, vec![a, b])
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            let k = k.min(w as u128 - 1);
            if k == 0 {
                return a;
            }
            let e = self.extract(a, w - 1, k as u8);
            return self.sext(e, w);
        }
        self.mk(Op::Ashr, w, vec![a, b])
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(x) = self.cval(c) {
            return if x == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        if let Op::Not = self.op(c) {
            let nc = self.args(c)[0];
            return self.ite(nc, b, a);
        }
        self.mk(Op::Ite, w, vec![c, a, b])
    }

    // ---- predicates --------------------------------------------------------
    /// a constant or a choice between constants
    fn leaves(&self, t: T, depth: u32) -> bool {
        self.cval(t).is_some()
            || depth > 0 && matches!(self.op(t), Op::Ite) && self.leaves(self.args(t)[1], depth - 1) && self.leaves(self.args(t)[2], depth - 1)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(1, (x == y) as u128);
        }
        // ranges or known bits conflict
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.fls();
        }
        let (ka, kbb) = (self.known(a), self.known(b));
        if ka.0 & kbb.1 != 0 || ka.1 & kbb.0 != 0 {
            return self.fls();
        }
        if w == 1 {
            if let Some(y) = self.cval(b) {
                return if y == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let Some(y) = self.cval(b) {
            match self.op(a) {
                Op::Concat => {
                    let xs = self.args(a).to_vec();
                    let mut p = w;
                    let mut acc = self.tru();
                    for x in xs {
                        let xw = self.w(x);
                        p -= xw;
                        let k = self.konst(xw, y >> p);
                        let e = self.eq(x, k);
                        acc = self.and(acc, e);
                    }
                    return acc;
                }
                Op::Sext => {
                    let x = self.args(a)[0];
                    let xw = self.w(x);
                    let k = self.konst(xw, y);
                    if sext_val(y & mask(xw), xw) == sext_val(y, w) {
                        return self.eq(x, k);
                    }
                    return self.fls();
                }
                Op::Add | Op::Neg => {
                    let (v, c) = self.linear(a);
                    if c != 0 {
                        let x = self.from_linear(w, &v, 0);
                        let k = self.konst(w, y.wrapping_sub(c));
                        return self.eq(x, k);
                    }
                    if v.len() == 1 && v[0].1 == mask(w) {
                        let k = self.konst(w, y.wrapping_neg());
                        return self.eq(v[0].0, k);
                    }
                }
                Op::Not => {
                    let x = self.args(a)[0];
                    let k = self.konst(w, !y);
                    return self.eq(x, k);
                }
                Op::Ite => {
                    let (c, x, z) = (self.args(a)[0], self.args(a)[1], self.args(a)[2]);
                    if self.leaves(x, 2) || self.leaves(z, 2) {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(z, b);
                        return self.ite(c, e1, e2);
                    }
                }
                _ => {}
            }
        } else {
            // difference constant?
            let d = self.sub(a, b);
            if let Some(x) = self.cval(d) {
                return self.konst(1, (x == 0) as u128);
            }
            if w >= 16 && matches!(self.op(a), Op::Add | Op::Concat) || matches!(self.op(b), Op::Add | Op::Concat) {
                if let Some((lo, hi)) = self.int_diff(a, b, false) {
                    if lo > 0 || hi < 0 {
                        return self.fls();
                    }
                }
            }
            // segment-wise when both are concats with identical cuts
            if matches!(self.op(a), Op::Concat) || matches!(self.op(b), Op::Concat) {
                let mut ca = vec![];
                let mut cb = vec![];
                if matches!(self.op(a), Op::Concat) {
                    self.cuts(a, &mut ca);
                }
                if matches!(self.op(b), Op::Concat) {
                    self.cuts(b, &mut cb);
                }
                let mut cs = ca.clone();
                cs.extend(&cb);
                cs.sort();
                cs.dedup();
                if ca == cb || ca.is_empty() || cb.is_empty() || cs.len() <= 8 {
                    let mut acc = self.tru();
                    let mut hi = w - 1;
                    let mut pts: Vec<u8> = cs.iter().rev().cloned().collect();
                    pts.push(0);
                    let mut ok = true;
                    let mut parts = vec![];
                    for p in pts {
                        let xa = self.extract(a, hi, p);
                        let xb = self.extract(b, hi, p);
                        if self.w(xa) == w {
                            ok = false;
                            break;
                        }
                        parts.push((xa, xb));
                        if p > 0 {
                            hi = p - 1;
                        }
                    }
                    if ok {
                        for (xa, xb) in parts {
                            let e = self.eq(xa, xb);
                            acc = self.and(acc, e);
                        }
                        return acc;
                    }
                }
            }
            if let (Op::Sext, Op::Sext) = (self.op(a), self.op(b)) {
                let (x, y) = (self.args(a)[0], self.args(b)[0]);
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, vec![a, b])
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a != b {
            if let Some(r) = self.int_less(a, b, false, true) {
                return r;
            }
        }
        self.ult_raw(a, b)
    }
    fn ult_raw(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let (amin, amax) = (self.umin(a), self.umax(a));
        let (bmin, bmax) = (self.umin(b), self.umax(b));
        if amax < bmin {
            return self.tru();
        }
        if amin >= bmax {
            return self.fls();
        }
        // strip common leading zeros
        let w = self.w(a);
        if w > 1 {
            let m = amax.max(bmax);
            let need = (128 - m.leading_zeros()).max(1) as u8;
            if need < w {
                let x = self.extract(a, need - 1, 0);
                let y = self.extract(b, need - 1, 0);
                return self.ult_raw(x, y);
            }
        } else {
            let na = self.not(a);
            return self.and(na, b);
        }
        if self.cval(b) == Some(1) {
            let z = self.konst(w, 0);
            return self.eq(a, z);
        }
        if self.cval(a) == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        self.mk(Op::Ult, 1, vec![a, b])
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        if a != b {
            if let Some(r) = self.int_less(a, b, false, false) {
                return r;
            }
        }
        self.ule_raw(a, b)
    }
    fn ule_raw(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        // canonicalise on constants to Ult
        if let Some(y) = self.cval(b) {
            if y == mask(w) {
                return self.tru();
            }
            let k = self.konst(w, y + 1);
            return self.ult_raw(a, k);
        }
        if let Some(x) = self.cval(a) {
            if x == 0 {
                return self.tru();
            }
            let k = self.konst(w, x - 1);
            return self.ult_raw(k, b);
        }
        let (amin, amax) = (self.umin(a), self.umax(a));
        let (bmin, bmax) = (self.umin(b), self.umax(b));
        if amax <= bmin {
            return self.tru();
        }
        if amin > bmax {
            return self.fls();
        }
        if w == 1 {
            let na = self.not(a);
            return self.or(na, b);
        }
        self.mk(Op::Ule, 1, vec![a, b])
    }
    fn sign(&mut self, t: T) -> Option<bool> {
        let w = self.w(t);
        let (z, o) = self.known(t);
        if z >> (w - 1) & 1 == 1 {
            Some(false)
        } else if o >> (w - 1) & 1 == 1 {
            Some(true)
        } else {
            None
        }
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(1, (sext_val(x, w) < sext_val(y, w)) as u128);
        }
        match (self.sign(a), self.sign(b)) {
            (Some(false), Some(true)) => return self.fls(),
            (Some(true), Some(false)) => return self.tru(),
            (Some(x), Some(y)) if x == y => return self.ult(a, b),
            _ => {}
        }
        if let Some(r) = self.int_less(a, b, true, true) {
            return r;
        }
        // x < 0  ->  sign bit
        if self.cval(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        // -1 < x -> !sign bit
        if self.cval(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, w - 1);
            return self.not(s);
        }
        self.mk(Op::Slt, 1, vec![a, b])
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == mask(w) >> 1 {
                return self.tru();
            }
            let k = self.konst(w, y.wrapping_add(1));
            return self.slt(a, k);
        }
        if let Some(x) = self.cval(a) {
            if x == 1u128 << (w - 1) {
                return self.tru();
            }
            let k = self.konst(w, x.wrapping_sub(1));
            return self.slt(k, b);
        }
        match (self.sign(a), self.sign(b)) {
            (Some(false), Some(true)) => return self.fls(),
            (Some(true), Some(false)) => return self.tru(),
            (Some(x), Some(y)) if x == y => return self.ule(a, b),
            _ => {}
        }
        if let Some(r) = self.int_less(a, b, true, false) {
            return r;
        }
        self.mk(Op::Sle, 1, vec![a, b])
    }

    // ---- evaluation --------------------------------------------------------
    pub fn eval(&self, t: T, m: &Model) -> u128 {
        if let Op::Const(c) = self.nodes[t as usize].op {
            return c;
        }
        if let Some(&v) = m.cache.borrow().get(&t) {
            return v;
        }
        let n = &self.nodes[t as usize];
        let w = n.w;
        let e = |i: usize| self.eval(n.a[i], m);
        let aw = |i: usize| self.w(n.a[i]);
        let r = match n.op {
            Op::Const(c) => c,
            Op::Var(i) => m.vals.get(&i).cloned().unwrap_or(0),
            Op::Select(arr) => {
                let o = e(0) as u64;
                m.sel.get(&(arr, o)).cloned().unwrap_or(0) as u128
            }
            Op::Not => !e(0),
            Op::Neg => e(0).wrapping_neg(),
            Op::Add => e(0).wrapping_add(e(1)),
            Op::Mul => e(0).wrapping_mul(e(1)),
            Op::Udiv | Op::Urem | Op::Sdiv | Op::Srem => {
                let (x, y) = (e(0), e(1));
                if y == 0 {
                    match n.op {
                        Op::Udiv => mask(w),
                        Op::Sdiv => {
                            if sext_val(x, w) < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        }
                        _ => x,
                    }
                } else {
                    ev_div(n.op, x, y, w)
                }
            }
            Op::And => e(0) & e(1),
            Op::Or => e(0) | e(1),
            Op::Xor => e(0) ^ e(1),
            Op::Shl => {
                let k = e(1);
                if k >= w as u128 {
                    0
                } else {
                    e(0) << k
                }
            }
            Op::Lshr => {
                let k = e(1);
                if k >= w as u128 {
                    0
                } else {
                    e(0) >> k
                }
            }
            Op::Ashr => {
                let k = e(1).min(w as u128 - 1);
                (sext_val(e(0), w) >> k) as u128
            }
            Op::Concat => {
                let mut v = 0u128;
                for (i, &x) in n.a.iter().enumerate() {
                    let xw = aw(i);
                    let xv = self.eval(x, m);
                    v = if xw >= 128 { xv } else { v << xw | xv };
                }
                v
            }
            Op::Extract(_, lo) => e(0) >> lo,
            Op::Sext => sext_val(e(0), aw(0)) as u128,
            Op::Ite => {
                if e(0) == 1 {
                    e(1)
                } else {
                    e(2)
                }
            }
            Op::Eq => (e(0) == e(1)) as u128,
            Op::Ult => (e(0) < e(1)) as u128,
            Op::Ule => (e(0) <= e(1)) as u128,
            Op::Slt => (sext_val(e(0), aw(0)) < sext_val(e(1), aw(1))) as u128,
            Op::Sle => (sext_val(e(0), aw(0)) <= sext_val(e(1), aw(1))) as u128,
        } & mask(w);
        m.cache.borrow_mut().insert(t, r);
        r
    }

    // ---- SMT-LIB -----------------------------------------------------------
    pub fn smt_node(&self, t: T) -> String {
        let n = &self.nodes[t as usize];
        let r = |i: usize| self.smt_ref(n.a[i]);
        let b = |s: String| format!("(ite {} #b1 #b0)", s);
        match n.op {
            Op::Const(_) | Op::Var(_) => self.smt_ref(t),
            Op::Select(a) => format!("(select arr{} {})", a, r(0)),
            Op::Not => format!("(bvnot {})", r(0)),
            Op::Neg => format!("(bvneg {})", r(0)),
            Op::Add => format!("(bvadd {} {})", r(0), r(1)),
            Op::Mul => format!("(bvmul {} {})", r(0), r(1)),
            Op::Udiv => format!("(bvudiv {} {})", r(0), r(1)),
            Op::Urem => format!("(bvurem {} {})", r(0), r(1)),
            Op::Sdiv => format!("(bvsdiv {} {})", r(0), r(1)),
            Op::Srem => format!("(bvsrem {} {})", r(0), r(1)),
            Op::And => format!("(bvand {} {})", r(0), r(1)),
            Op::Or => format!("(bvor {} {})", r(0), r(1)),
            Op::Xor => format!("(bvxor {} {})", r(0), r(1)),
            Op::Shl => format!("(bvshl {} {})", r(0), r(1)),
            Op::Lshr => format!("(bvlshr {} {})", r(0), r(1)),
            Op::Ashr => format!("(bvashr {} {})", r(0), r(1)),
            Op::Concat => {
                let mut s = r(0);
                for i in 1..n.a.len() {
                    s = format!("(concat {} {})", s, r(i));
                }
                s
            }
            Op::Extract(h, l) => format!("((_ extract {} {}) {})", h, l, r(0)),
            Op::Sext => {
                let d = n.w - self.w(n.a[0]);
                format!("((_ sign_extend {}) {})", d, r(0))
            }
            Op::Ite => format!("(ite (= {} #b1) {} {})", r(0), r(1), r(2)),
            Op::Eq => b(format!("(= {} {})", r(0), r(1))),
            Op::Ult => b(format!("(bvult {} {})", r(0), r(1))),
            Op::Ule => b(format!("(bvule {} {})", r(0), r(1))),
            Op::Slt => b(format!("(bvslt {} {})", r(0), r(1))),
            Op::Sle => b(format!("(bvsle {} {})", r(0), r(1))),
        }
    }
    pub fn smt_ref(&self, t: T) -> String {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const(c) => format!("(_ bv{} {})", c, n.w),
            Op::Var(v) => format!("v{}", v),
            _ => format!("n{}", t),
        }
    }
    pub fn show(&self, t: T, depth: u32) -> String {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const(c) => format!("{:#x}:{}", c, n.w),
            Op::Var(v) => self.vars[v as usize].0.clone(),
            _ if depth == 0 => format!("n{}", t),
            op => format!(
                "({:?} {})",
                op,
                n.a.iter()
                    .map(|&x| self.show(x, depth - 1))
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
        }
    }
}

fn mask_n(n: u32) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1u128 << n) - 1
    }
}

pub fn ev_div(op: Op, x: u128, y: u128, w: u8) -> u128 {
    match op {
        Op::Udiv => x / y,
        Op::Urem => x % y,
        Op::Sdiv => sext_val(x, w).wrapping_div(sext_val(y, w)) as u128,
        Op::Srem => sext_val(x, w).wrapping_rem(sext_val(y, w)) as u128,
        _ => unreachable!(),
    }
}
