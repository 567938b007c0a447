use crate::dec::*;
use crate::rt::*;
use monoasm::*;

pub const PAGE: u64 = 256 << 20;

/// Bytes emitted between `start` and the cursor, in a zero-padded buffer.
pub fn grab(base: *mut u8, start: usize, end: usize) -> ([u8; 24], usize) {
    let mut b = [0u8; 24];
    let n = end - start;
    if n > 24 {
        return (b, 0);
    }
    let mut i = 0;
    while i < n {
        b[i] = unsafe { *base.add(start + i) };
        i += 1;
    }
    (b, n)
}

/// Decode the single instruction that was emitted from the start of a fresh memory.
pub fn one(jit: &JitMemory, base: *mut u8) -> Ins {
    let end = jit.get_current();
    check(end <= 15 && end > 0, 1);
    let (b, n) = grab(base, 0, end);
    let mut i = 0;
    while i < n {
        observe(b[i] as u64);
        i += 1;
    }
    let d = decode(&b, n);
    check(d.op != BAD, 2);
    check(d.len == n, 3);
    d
}

pub fn new() -> (JitMemory, *mut u8) {
    let j = JitMemory::new();
    let p = j.get_current_address().as_ptr();
    (j, p)
}

pub fn fits8(v: i64) -> bool {
    v >= -128 && v <= 127
}
pub fn fits16(v: i64) -> bool {
    v >= -32768 && v <= 32767
}
pub fn fits32(v: i64) -> bool {
    v >= -2147483648 && v <= 2147483647
}

pub fn trunc(v: i64, w: u8) -> i64 {
    match w {
        1 => v as u8 as i64,
        2 => v as u16 as i64,
        4 => v as u32 as i64,
        _ => v,
    }
}

/// the decoded operand is exactly this register
pub fn is_reg(o: &Opnd, kind: u8, r: u64, id: u32) {
    check(o.kind == kind, id);
    check(o.reg as u64 == r, id + 1);
}

pub fn is_gpr(o: &Opnd, r: u64, id: u32) {
    is_reg(o, K_GPR, r, id)
}
pub fn is_xmm(o: &Opnd, r: u64, id: u32) {
    is_reg(o, K_XMM, r, id)
}

/// the decoded operand addresses base + index << scale + disp; index 17 = none
pub fn is_mem(o: &Opnd, base: u64, index: u64, scale: u8, disp: i64, id: u32) {
    check(o.kind == K_MEM, id);
    let b = o.base as u64;
    let x = o.index as u64;
    if index == NOREG as u64 {
        // without an index; an index with scale 1 and no base is the same address
        let plain = (b == base) & (x == NOREG as u64);
        let swapped = (b == NOREG as u64) & (x == base) & (o.scale == 0);
        check(plain | swapped, id + 1);
    } else if scale == 0 {
        let plain = (b == base) & (x == index);
        let swapped = (b == index) & (x == base);
        check(plain | swapped, id + 1);
        check(o.scale == 0, id + 2);
    } else {
        check((b == base) & (x == index), id + 1);
        check(o.scale == scale, id + 2);
    }
    check(o.val == disp, id + 3);
}

pub fn is_imm(o: &Opnd, v: i64, w: u8, id: u32) {
    check(o.kind == K_IMM, id);
    check(trunc(o.val, w) == trunc(v, w), id + 1);
}

pub fn is_op(d: &Ins, op: u16, w: u8) {
    check(d.op == op, 4);
    check(d.w == w, 5);
}

/// mov to a 64-bit register of an arbitrary immediate: any of the encodings with that effect
pub fn is_movimm64(d: &Ins, r: u64, v: i64) {
    check(d.op == MOV, 4);
    is_gpr(&d.a, r, 10);
    check(d.b.kind == K_IMM, 20);
    if d.w == 4 {
        check(d.b.val as u32 as u64 as i64 == v, 21);
    } else {
        check(d.w == 8, 5);
        check(d.b.val == v, 21);
    }
}

/// the value the destination receives from the immediate
pub fn is_imm64(d: &Ins, v: i64) {
    check(d.b.kind == K_IMM, 20);
    let x = if d.w == 4 { d.b.val as u32 as u64 as i64 } else { d.b.val };
    check(x == v, 21);
}

/// the memory operand
pub fn memop(d: &Ins) -> Opnd {
    if d.b.kind == K_MEM {
        d.b
    } else {
        d.a
    }
}

/// panic conditions of an [base + index * scale + disp] operand: index 16 (rip) and base 16 with an
/// index can not be expressed; rsp as index only by swapping it with the base at scale 1
pub fn bad_index(b: u64, x: u64, scale: u8) -> (bool, bool) {
    let lo = (b == 16) | (x == 16) | ((x == 4) & ((scale != 0) | (b == 4)));
    let hi = lo | (x == 4);
    (lo, hi)
}

// ---- memories with a chosen cursor ------------------------------------------

const WORDS: usize = 40;

/// Where each page keeps its cursor: the words of the page record that move when a byte is emitted.
pub struct Cur {
    sign: [[i8; WORDS]; 3],
    /// first byte of each page
    pub base: [*mut u8; 3],
}

fn words(jit: &mut JitMemory, k: usize) -> (*mut u64, usize) {
    let p = &mut jit[Page(k)] as *mut MemPage as *mut u64;
    let n = std::mem::size_of::<MemPage>() / 8;
    (p, if n < WORDS { n } else { WORDS })
}

#[inline(never)]
fn snap(p: *mut u64, n: usize) -> [u64; WORDS] {
    let mut w = [0u64; WORDS];
    let mut i = 0;
    while i < n {
        w[i] = unsafe { p.add(i).read_volatile() };
        i += 1;
    }
    w
}

/// A fresh memory and the knowledge to place its cursors.  Every page has one byte emitted.
#[inline(never)]
pub fn newc() -> (JitMemory, Cur) {
    let mut jit = JitMemory::new();
    let mut c = Cur { sign: [[0; WORDS]; 3], base: [std::ptr::null_mut(); 3] };
    let mut k = 0;
    while k < 3 {
        c.base[k] = &mut jit[Page(k)][Pos::from(0)] as *mut u8;
        let (p, n) = words(&mut jit, k);
        let a = snap(p, n);
        jit[Page(k)].emitb(0x90);
        let (p, n) = words(&mut jit, k);
        let b = snap(p, n);
        let mut found = false;
        let mut i = 0;
        while i < n {
            let d = b[i].wrapping_sub(a[i]);
            if d == 1 {
                c.sign[k][i] = 1;
                found = true;
            } else if d == u64::MAX {
                c.sign[k][i] = -1;
            }
            i += 1;
        }
        check(found, 9000);
        k += 1;
    }
    (jit, c)
}

/// Move the cursor of page k from `from` to `to`, as if bytes had been emitted there.
#[inline(never)]
pub fn move_cur(jit: &mut JitMemory, c: &Cur, k: usize, from: u64, to: u64) {
    let d = to.wrapping_sub(from);
    let (p, n) = words(jit, k);
    let mut i = 0;
    while i < n {
        if c.sign[k][i] != 0 {
            let v = unsafe { p.add(i).read_volatile() };
            let v = if c.sign[k][i] > 0 { v.wrapping_add(d) } else { v.wrapping_sub(d) };
            unsafe { p.add(i).write_volatile(v) };
        }
        i += 1;
    }
    if k < 2 {
        let s = jit.get_page();
        jit.select_page(k);
        check(jit.get_current() as u64 == to, 9000);
        jit.select_page(s);
    }
}

/// The cursor of page k.
#[inline(never)]
pub fn cur(jit: &mut JitMemory, c: &Cur, k: usize) -> u64 {
    if k < 2 {
        let s = jit.get_page();
        jit.select_page(k);
        let r = jit.get_current() as u64;
        jit.select_page(s);
        return r;
    }
    let (p, n) = words(jit, k);
    let mut i = 0;
    while i < n {
        if c.sign[k][i] > 0 {
            return unsafe { p.add(i).read_volatile() };
        }
        i += 1;
    }
    0
}

/// A memory whose three cursors stand at arbitrary positions.
pub fn placed(p: [u64; 3]) -> (JitMemory, Cur) {
    let (mut jit, c) = newc();
    let mut k = 0;
    while k < 3 {
        move_cur(&mut jit, &c, k, 1, p[k]);
        k += 1;
    }
    (jit, c)
}

/// Arbitrary positions of the three cursors, at most `room` bytes before the end of the page.
pub fn any_pos(tag: u32, room: u64) -> [u64; 3] {
    let mut p = [0u64; 3];
    let mut k = 0;
    while k < 3 {
        p[k] = any_max(tag + k as u32, 29, PAGE - room);
        k += 1;
    }
    p
}

#[inline(always)]
pub fn rd(p: *mut u8) -> u8 {
    unsafe { *p }
}
#[inline(always)]
pub fn at(base: *mut u8, off: u64) -> *mut u8 {
    base.wrapping_add(off as usize)
}
pub fn rdn(p: *mut u8, n: u64) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < n {
        v |= (rd(at(p, i)) as u64) << (8 * i);
        i += 1;
    }
    v
}

// ---- references to labels ----------------------------------------------------

pub struct Ref {
    pub page: usize,
    lpage: usize,
    lpos: u64,
    before: bool,
}

/// Bind l at position q of page k (page 2: the data page).
#[inline(never)]
pub fn bind_at(jit: &mut JitMemory, c: &Cur, k: usize, q: u64, l: DestLabel) {
    let from = cur(jit, c, k);
    move_cur(jit, c, k, from, q);
    if k < 2 {
        let s = jit.get_page();
        jit.select_page(k);
        jit.bind_label(l);
        jit.select_page(s);
    } else {
        jit.bind_label_with_page(Page(k), l);
    }
}

/// A memory with the cursor of either code page at an arbitrary position, and a label that is bound, at an
/// arbitrary position of an arbitrary page, now or only after the reference.
pub fn ref_start() -> (JitMemory, Cur, DestLabel, Ref) {
    let p = any_pos(50, 64);
    let (mut jit, c) = placed(p);
    let page = choice(60, 2) as usize;
    let lpage = choice(61, 3) as usize;
    let before = choice(62, 2) == 1;
    let lpos = any_max(63, 29, PAGE - 64);
    let other = jit.label();
    let l = jit.label();
    let _ = other;
    if before {
        bind_at(&mut jit, &c, lpage, lpos, l);
        let from = cur(&mut jit, &c, lpage);
        move_cur(&mut jit, &c, lpage, from, p[lpage]);
    }
    jit.select_page(page);
    (jit, c, l, Ref { page, lpage, lpos, before })
}

/// The decoded instruction and the distance from its end to the label.
pub fn ref_end(jit: &mut JitMemory, c: &Cur, l: DestLabel, r: &Ref, start: u64, end: u64) -> (Ins, i64) {
    if !r.before {
        bind_at(jit, c, r.lpage, r.lpos, l);
    }
    jit.finalize();
    check(end > start, 1);
    check(end - start <= 15, 1);
    let n = (end - start) as usize;
    let mut b = [0u8; 24];
    let mut i = 0;
    while i < n {
        b[i] = rd(at(c.base[r.page], start + i as u64));
        observe(b[i] as u64);
        i += 1;
    }
    let d = decode(&b, n);
    check(d.op != BAD, 2);
    check(d.len == n, 3);
    let label = c.base[r.lpage] as u64 + r.lpos;
    check(jit.get_label_u64(l) == label, 6);
    let want = label as i64 - (c.base[r.page] as u64 + end) as i64;
    (d, want)
}

/// n bytes at a + i equal those at b + j
#[inline(never)]
pub fn same_bytes(a: *mut u8, i: u64, b: *mut u8, j: u64, n: u64, id: u32) {
    check(n <= 64, id);
    let mut x = 0;
    while x < n {
        let v = rd(at(a, i + x));
        observe(v as u64);
        check(v == rd(at(b, j + x)), id);
        x += 1;
    }
}
