/// A label in the middle of a block stands between the instructions around it and emits nothing.
#[no_mangle]
pub extern "C" fn h_c20_label_in_block() {
    let (r, v) = (any(1, 4), any(2, 64) as i64);
    let (mut first, base) = new();
    monoasm!(&mut first, movq R(r), (v););
    let n = first.get_current() as u64;
    monoasm!(&mut first, pushq R(r););
    let m = first.get_current() as u64 - n;
    let p = any_pos(50, 64);
    let (mut jit, c) = placed(p);
    let k = choice(60, 2) as usize;
    jit.select_page(k);
    let (x, y, z) = (jit.label(), jit.label(), jit.label());
    monoasm!(&mut jit, x: movq R(r), (v); y: pushq R(r); z:);
    let b = c.base[k] as u64 + p[k];
    check(jit.get_label_u64(x) == b, 10);
    check(jit.get_label_u64(y) == b + n, 11);
    check(jit.get_label_u64(z) == b + n + m, 12);
    check(jit.get_current() as u64 == p[k] + n + m, 13);
    same_bytes(c.base[k], p[k], base, 0, n + m, 14);
}

/// Data in the instruction stream
#[no_mangle]
pub extern "C" fn h_c20_dq() {
    let p = any_pos(50, 64);
    let (mut jit, c) = placed(p);
    let k = choice(60, 2) as usize;
    jit.select_page(k);
    monoasm!(&mut jit, ret; dq 0x1122334455667788; leave; dq 1.5; ret;);
    let b = at(c.base[k], p[k]);
    check(jit.get_current() as u64 == p[k] + 19, 10);
    check(rd(b) == 0xc3, 11);
    check(rdn(at(b, 1), 8) == 0x1122334455667788, 12);
    check(rd(at(b, 9)) == 0xc9, 13);
    check(rdn(at(b, 10), 8) == 1.5f64.to_bits(), 14);
    check(rd(at(b, 18)) == 0xc3, 15);
}

/// Label references: everything but the displacement is the same wherever they stand, before and after
/// the label is bound.
/// @for i,t in 0,jmp\x20l; 1,call\x20l; 2,jeq\x20l; 3,lea\x20R(r),[rip+l]; 4,movl\x20[rip+l],(v); 5,roundpd\x20xmm(r),[rip+l],(v\x20as\x20u8); 6,cmpb\x20[rip+l],R(r); 7,testq\x20[rip+l],(v); 8,setne\x20[rip+l];
#[no_mangle]
pub extern "C" fn h_c20_reference_@i() {
    let (r, v) = (any(1, 4), any(2, 7) as i64);
    let (mut first, base) = new();
    let l = first.label();
    monoasm!(&mut first, @t);
    let n = first.get_current() as u64;
    let p = any_pos(50, 64);
    let (mut jit, c) = placed(p);
    let l = jit.label();
    let k = choice(60, 2) as usize;
    let order = choice(61, 3);
    jit.select_page(k);
    if order == 0 {
        jit.bind_label(l);
    }
    let q = jit.get_current() as u64;
    monoasm!(&mut jit, ret; @t leave;);
    check(jit.get_current() as u64 == q + n + 2, 10);
    if order == 1 {
        jit.bind_label(l);
    }
    jit.finalize();
    check(rd(at(c.base[k], q)) == 0xc3, 11);
    check(rd(at(c.base[k], q + n + 1)) == 0xc9, 12);
    let imm = [0u64, 0, 0, 0, 4, 1, 0, 4, 0][@i];
    let mut i = 0;
    while i < n {
        if i < n - imm - 4 || i >= n - imm {
            check(rd(at(c.base[k], q + 1 + i)) == rd(at(base, i)), 13);
        }
        i += 1;
    }
}
/// @end

/// Jumps around the labels they refer to: each keeps its place and size.
#[no_mangle]
pub extern "C" fn h_c20_around_labels() {
    let p = any_pos(50, 128);
    let (mut jit, c) = placed(p);
    let k = choice(60, 2) as usize;
    jit.select_page(k);
    let (x, y, z, w, t, u) = (jit.label(), jit.label(), jit.label(), jit.label(), jit.label(), jit.label());
    let after = choice(61, 2) == 1;
    monoasm!(&mut jit, jmp x; x: jmp x; jmp y; y: call y; call z; z: jne z; jeq w; w: ret; ret; t: jmp t; jmp t; leave; leave; lea rax, [rip + u]; u: jmp u; ret;);
    if after {
        monoasm!(&mut jit, jmp u; ret;);
    }
    jit.finalize();
    // opcode length, label offset; 0: no label
    let ins: [(u64, u64, u64); 18] = [
        (0xe9, 1, 5), (0xe9, 1, 5), (0xe9, 1, 15), (0xe8, 1, 15), (0xe8, 1, 25), (0x850f, 2, 25), (0x840f, 2, 37), (0xc3, 1, 0), (0xc3, 1, 0),
        (0xe9, 1, 39), (0xe9, 1, 39), (0xc9, 1, 0), (0xc9, 1, 0), (0x058d48, 3, 58), (0xe9, 1, 58), (0xc3, 1, 0), (0xe9, 1, 58), (0xc3, 1, 0),
    ];
    let b = at(c.base[k], p[k]);
    let mut off = 0;
    for i in 0..if after { 18 } else { 16 } {
        let (op, n, to) = ins[i];
        check(rdn(at(b, off), n) == op, 10);
        off += n;
        if to != 0 {
            off += 4;
            check(rdn(at(b, off - 4), 4) as u32 as i32 as i64 == to as i64 - off as i64, 11);
        }
    }
    check(jit.get_current() as u64 == p[k] + off, 12);
}
