#[no_mangle]
pub extern "C" fn h_c16_protection() {
    let mut jit = JitMemory::new();
    let when = choice(20, 3);
    if when == 1 {
        jit.emitl(any(5, 32) as u32);
        jit.data_i64(1);
        jit.const_i64(2);
        jit.finalize();
    }
    if when == 2 {
        jit.select_page(1);
        jit.finalize();
        jit.finalize();
    }
    let k = choice(21, 3) as usize;
    let base = &mut jit[Page(k)][Pos::from(0)] as *mut u8;
    let o = any(1, 28);
    let a = at(base, o);
    let want = if k < 2 { 7 } else { 3 };
    check(prot(a as u64) == want, 10);
    check(alive(a as u64) == 1, 11);
    // mapped: every byte can be read and written
    let v = any(2, 8) as u8;
    unsafe { *a = v };
    check(rd(a) == v, 12);
    check(&mut jit[Page(k)][Pos::from(o as usize)] as *mut u8 == a, 13);
    observe(v as u64);
}

/// the last byte of a page is usable, nothing beyond is
#[no_mangle]
pub extern "C" fn h_c16_size() {
    let mut jit = JitMemory::new();
    let k = choice(20, 3) as usize;
    let o = any(1, 40);
    panic_if(o >= PAGE, o >= PAGE);
    let a = &mut jit[Page(k)][Pos::from(o as usize)] as *mut u8;
    panic_end();
    let base = &mut jit[Page(k)][Pos::from(0)] as *mut u8;
    check(a == at(base, o), 13);
    observe(o);
}

#[no_mangle]
pub extern "C" fn h_c16_disjoint() {
    let mut jit = JitMemory::new();
    let mut b = [0u64; 3];
    for k in 0..3 {
        b[k] = &mut jit[Page(k)][Pos::from(0)] as *mut u8 as u64;
    }
    let mut other = JitMemory::new();
    for i in 0..3 {
        for j in 0..i {
            check((b[i] >= b[j] + PAGE) | (b[j] >= b[i] + PAGE), 14);
        }
        // rel32 fields hold byte addresses: page aligned starts are not required, alignment to 16 is
        check(b[i] & 15 == 0, 15);
        for k in 0..3 {
            let o = &mut other[Page(k)][Pos::from(0)] as *mut u8 as u64;
            check((b[i] >= o + PAGE) | (o >= b[i] + PAGE), 16);
        }
    }
}

/// any two positions are within rel32 reach of each other
#[no_mangle]
pub extern "C" fn h_c16_reach() {
    let mut jit = JitMemory::new();
    let (i, j) = (choice(20, 3) as usize, choice(21, 3) as usize);
    let (p, q) = (any(1, 29), any(2, 29));
    assume((p <= PAGE) & (q <= PAGE));
    let a = &mut jit[Page(i)][Pos::from(0)] as *mut u8 as u64 + p;
    let b = &mut jit[Page(j)][Pos::from(0)] as *mut u8 as u64 + q;
    let d = a as i64 - b as i64;
    check(fits32(d), 17);
    observe(p);
}

/// so finalization resolves every reference without overflow
#[no_mangle]
pub extern "C" fn h_c16_resolve() {
    let p = any_pos(1, 64);
    let q = any_pos(4, 64);
    let (mut jit, c) = newc();
    let i = choice(20, 2) as usize;
    let j = choice(21, 3) as usize;
    let l = jit.label();
    let order = choice(22, 2);
    let kind = choice(23, 3);
    if order == 0 {
        move_cur(&mut jit, &c, j, 1, q[j]);
        jit.bind_label_with_page(Page(j), l);
        if i == j {
            // references may lie before or behind
            move_cur(&mut jit, &c, j, q[j], p[i]);
        } else {
            move_cur(&mut jit, &c, i, 1, p[i]);
        }
    } else {
        move_cur(&mut jit, &c, i, 1, p[i]);
    }
    jit.select_page(i);
    match kind {
        0 => { monoasm!(&mut jit, jmp l;); }
        1 => { monoasm!(&mut jit, lea rax, [rip + l];); }
        _ => { monoasm!(&mut jit, call l;); }
    }
    if order == 1 {
        let from = cur(&mut jit, &c, j);
        move_cur(&mut jit, &c, j, from, q[j]);
        jit.bind_label_with_page(Page(j), l);
    }
    jit.finalize();
    // and data and constants alike
    let m = if choice(24, 2) == 0 { jit.data_i64(3) } else { jit.const_i32(3) };
    monoasm!(&mut jit, movq rax, [rip + m];);
    jit.finalize();
    check(jit.get_label_u64(l) == c.base[j] as u64 + q[j], 18);
    observe(p[i]);
}
