/// Emission of `n` bytes of value `v` by `f` on page k, with every cursor at an arbitrary position.
fn emission(k: usize, sel: usize, n: u64, v: u64, f: fn(&mut JitMemory, usize, u64)) {
    let p = any_pos(1, 0);
    let (mut jit, c) = placed(p);
    jit.select_page(sel);
    for q in 0..3 {
        if q != k {
            guard(c.base[q], PAGE);
        }
    }
    let pr = any(10, 28);
    let old = rd(at(c.base[k], pr));
    let over = p[k] + n > PAGE;
    panic_if(over, over);
    f(&mut jit, k, v);
    panic_end();
    for q in 0..3 {
        check(cur(&mut jit, &c, q) == p[q] + if q == k { n } else { 0 }, 11 + q as u32);
    }
    check(jit.get_page() == sel, 14);
    check(rdn(at(c.base[k], p[k]), n) == v, 15);
    let new = rd(at(c.base[k], pr));
    check((new == old) | ((pr >= p[k]) & (pr < p[k] + n)), 16);
    observe(new as u64);
}

fn do_b(jit: &mut JitMemory, k: usize, v: u64) {
    jit[Page(k)].emitb(v as u8)
}
fn do_w(jit: &mut JitMemory, k: usize, v: u64) {
    jit[Page(k)].emitw(v as u16)
}
fn do_l(jit: &mut JitMemory, k: usize, v: u64) {
    jit[Page(k)].emitl(v as u32)
}
fn do_q(jit: &mut JitMemory, k: usize, v: u64) {
    jit[Page(k)].emitq(v)
}
fn sel_b(jit: &mut JitMemory, k: usize, v: u64) {
    jit.emitb(v as u8)
}
fn sel_w(jit: &mut JitMemory, k: usize, v: u64) {
    jit.emitw(v as u16)
}
fn sel_l(jit: &mut JitMemory, k: usize, v: u64) {
    jit.emitl(v as u32)
}
fn sel_q(jit: &mut JitMemory, k: usize, v: u64) {
    jit.emitq(v)
}

/// @for n,x in 1,b 2,w 4,l 8,q
#[no_mangle]
pub extern "C" fn h_c13_page_@x() {
    let k = choice(20, 3) as usize;
    let s = choice(21, 2) as usize;
    let v = any(0, @n * 8);
    emission(k, s, @n, v, do_@x);
}
#[no_mangle]
pub extern "C" fn h_c13_selected_@x() {
    let k = choice(20, 2) as usize;
    let v = any(0, @n * 8);
    emission(k, k, @n, v, sel_@x);
}
/// @end

/// @for n in 0 1 2 3 4 5 6 7 8
fn slice@n(jit: &mut JitMemory, k: usize, v: u64) {
    let b = v.to_le_bytes();
    jit.emit(&b[..@n]);
}
#[no_mangle]
pub extern "C" fn h_c13_slice_@n() {
    let k = choice(20, 2) as usize;
    let v = if @n == 0 { 0 } else { any(0, if @n == 0 { 8 } else { @n * 8 }) };
    emission(k, k, @n, v, slice@n);
}
/// @end

/// longer slices, every byte arbitrary
fn long_slice(n: usize, room: u64) {
    let k = choice(20, 2) as usize;
    let mut p = any_pos(1, room);
    p[k] += 16;
    assume(p[k] <= PAGE);
    let (mut jit, c) = placed(p);
    jit.select_page(k);
    for q in 0..3 {
        if q != k {
            guard(c.base[q], PAGE);
        }
    }
    let mut b = [0u8; 5000];
    let mut i = 0;
    while i < n {
        let v = any(100 + i as u32, 64).to_le_bytes();
        b[i..i + 8].copy_from_slice(&v);
        i += 8;
    }
    // the bytes on both sides
    let mut side = [0u8; 32];
    let mut i = 0;
    while i < 16 {
        side[i] = rd(at(c.base[k], p[k] - 16 + i as u64));
        if room > 0 {
            side[16 + i] = rd(at(c.base[k], p[k] + n as u64 + i as u64));
        }
        i += 1;
    }
    let over = p[k] + n as u64 > PAGE;
    panic_if(over, over);
    jit.emit(&b[..n]);
    panic_end();
    for q in 0..3 {
        check(cur(&mut jit, &c, q) == p[q] + if q == k { n as u64 } else { 0 }, 11 + q as u32);
    }
    let mut i = 0;
    while i < n {
        check(rd(at(c.base[k], p[k] + i as u64)) == b[i], 15);
        i += 1;
    }
    let mut i = 0;
    while i < 16 {
        check(rd(at(c.base[k], p[k] - 16 + i as u64)) == side[i], 16);
        if room > 0 {
            check(rd(at(c.base[k], p[k] + n as u64 + i as u64)) == side[16 + i], 17);
        }
        i += 1;
    }
    observe(p[k]);
}
/// @for n,r in 15,0 16,0 17,0 40,0 127,128 129,256 256,256 300,512 1025,2048 4097,8192
#[no_mangle]
pub extern "C" fn h_c13_long_@n() {
    long_slice(@n, @r);
}
/// @end
/// @thorough
/// @for n,r in 100,0 512,512 4999,8192
#[no_mangle]
pub extern "C" fn h_c13_long_@n() {
    long_slice(@n, @r);
}
/// @end
/// @end

/// consecutive emissions of different kinds
#[no_mangle]
pub extern "C" fn h_c13_sequence() {
    let k = choice(20, 2) as usize;
    let p = any_pos(1, 32);
    let (mut jit, c) = placed(p);
    jit.select_page(k);
    let mut at_ = p[k];
    let mut log = [(0u64, 0u64, 0u64); 3];
    for i in 0..3 {
        let v = any(30 + i as u32, 64);
        let n = [1, 2, 4, 8, 3][choice(40 + i as u32, 5) as usize];
        let v = if n == 8 { v } else { v & ((1 << (n * 8)) - 1) };
        match n {
            1 => jit.emitb(v as u8),
            2 => jit.emitw(v as u16),
            4 => jit.emitl(v as u32),
            8 => jit.emitq(v),
            _ => jit.emit(&v.to_le_bytes()[..3]),
        }
        log[i] = (at_, n, v);
        at_ += n;
        check(jit.get_current() as u64 == at_, 11);
    }
    for i in 0..3 {
        check(rdn(at(c.base[k], log[i].0), log[i].1) == log[i].2, 15);
    }
    for q in 0..3 {
        if q != k {
            check(cur(&mut jit, &c, q) == p[q], 12);
        }
    }
    observe(rdn(at(c.base[k], p[k]), 8));
}

/// every instruction encoder emits through the same bounds check: an instruction at the end of a page
#[no_mangle]
pub extern "C" fn h_c13_instruction_at_end() {
    let k = choice(20, 2) as usize;
    let p = any_pos(1, 0);
    let (mut jit, c) = placed(p);
    jit.select_page(k);
    for q in 0..3 {
        if q != k {
            guard(c.base[q], PAGE);
        }
    }
    let which = choice(21, 5);
    let n = [10u64, 1, 11, 5, 5][which as usize];
    let v = any(0, 64);
    let l = jit.label();
    // shorter encodings of the two mov instructions are as good
    let min = [5u64, 1, 7, 5, 5][which as usize];
    panic_if(p[k] + min > PAGE, p[k] + n > PAGE);
    match which {
        0 => { monoasm!(&mut jit, movq rax, (v);); }
        1 => { monoasm!(&mut jit, ret;); }
        2 => { monoasm!(&mut jit, movq [rax + 1000], 100000;); }
        3 => { monoasm!(&mut jit, jmp l;); }
        _ => { monoasm!(&mut jit, call l;); }
    }
    panic_end();
    let e = jit.get_current() as u64;
    check((e >= p[k] + min) & (e <= p[k] + n), 11);
    for q in 0..3 {
        if q != k {
            check(cur(&mut jit, &c, q) == p[q], 12);
        }
    }
    observe(rd(at(c.base[k], p[k])) as u64);
}

/// resolving a reference and placing constants never leave the page either
#[no_mangle]
pub extern "C" fn h_c13_constants_at_end() {
    let k = choice(20, 2) as usize;
    let p = any_pos(1, 0);
    let (mut jit, c) = placed(p);
    jit.select_page(k);
    for q in 0..3 {
        if q != k {
            guard(c.base[q], PAGE);
        }
    }
    let v = any(0, 64);
    let which = choice(21, 4);
    let (al, n) = [(16u64, 8u64), (4, 4), (16, 9), (8, 8)][which as usize];
    match which {
        0 => jit.const_i64(v as i64),
        1 => jit.const_i32(v as i32),
        2 => jit.constant(9),
        _ => {
            let l = jit.label();
            jit.bind_label(l);
            jit.abs_address(l)
        }
    };
    let start = (p[k] + al - 1) & !(al - 1);
    let over = start + n > PAGE;
    panic_if(over, over);
    jit.finalize();
    panic_end();
    let e = cur(&mut jit, &c, k);
    check((e >= start + n) & (e <= PAGE), 11);
    observe(rd(at(c.base[k], start)) as u64);
}
