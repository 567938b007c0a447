/// one operation on a generator; `l` was created before
#[inline(never)]
fn op25(jit: &mut JitMemory, op: u64, l: DestLabel, tag: u32) {
    match op {
        0 => jit.emitl(any(tag, 32) as u32),
        1 => {
            let k = jit.get_page();
            jit.select_page(1 - k);
        }
        2 => {
            let x = jit.label();
            jit.bind_label(x);
            monoasm!(&mut *jit, jmp x;);
        }
        3 => {
            jit.const_i64(any(tag, 64) as i64);
            jit.data_i32(3);
        }
        4 => jit.finalize(),
        5 => monoasm!(&mut *jit, lea rax, [rip + l];),
        6 => jit.align16(),
        _ => {
            jit.abs_address(l);
        }
    }
}

/// Two generators, operated alternately: the memory of each is never written by the other, and each ends up with the
/// bytes, addresses and records it has when it is operated alone.
#[inline(never)]
fn independent(first: u64, second: u64) {
    let p = any_pos(1, 1024);
    let q = any_pos(4, 1024);
    let (mut a, ca) = placed(p);
    let (mut b, cb) = placed(q);
    let (la, lb) = (a.label(), b.label());
    let (ma, mb) = (a.label(), b.label());
    for i in 0..3 {
        for j in 0..3 {
            let (x, y) = (ca.base[i] as u64, cb.base[j] as u64);
            check((x + PAGE <= y) | (y + PAGE <= x), 10);
        }
    }
    // a has code, a constant and an unresolved reference
    let s = a.get_current_address().as_ptr() as u64;
    let v = any(10, 64);
    monoasm!(&mut a, jmp la; movq rdi, (v););
    let e = a.get_current_address().as_ptr() as u64;
    let k = a.const_i64(v as i64);
    let d = a.data_i64(v as i64);
    let w = a.abs_address(la);
    let at_ = [cur(&mut a, &ca, 0), cur(&mut a, &ca, 1), cur(&mut a, &ca, 2)];
    for i in 0..3 {
        guard(ca.base[i], PAGE);
    }
    op25(&mut b, first, lb, 20);
    op25(&mut b, second, lb, 21);
    // labels of b with the same numbers are bound elsewhere
    b.emitb(1);
    b.bind_label(lb);
    b.bind_label(mb);
    b.finalize();
    unguard();
    // nothing about a has changed
    for i in 0..3 {
        check(cur(&mut a, &ca, i) == at_[i], 11);
        check(a[Page(i)].code_block.len() == 0, 12);
    }
    check(a.get_page() == 0, 13);
    check(a.get_current_address().as_ptr() as u64 == e, 14);
    let here = b.get_label_u64(lb);
    let cbe = [cur(&mut b, &cb, 0), cur(&mut b, &cb, 1), cur(&mut b, &cb, 2)];
    for i in 0..3 {
        guard(cb.base[i], PAGE);
    }
    monoasm!(&mut a, la: ret;);
    a.bind_label(ma);
    a.finalize();
    unguard();
    check(a.get_label_u64(la) == e, 20);
    check(a.get_label_u64(ma) == e + 1, 21);
    check(rdn((s + 1) as *mut u8, 4) as u32 as i32 as i64 == e as i64 - s as i64 - 5, 22);
    check(rd(e as *mut u8) == 0xc3, 23);
    for x in [k, d] {
        let y = a.get_label_u64(x);
        check(rdn(y as *mut u8, 8) == v, 24);
    }
    let y = a.get_label_u64(w);
    check(rdn(y as *mut u8, 8) == e, 25);
    let mut inside = false;
    for i in 0..3 {
        let c = ca.base[i] as u64;
        inside |= (y >= c) & (y < c + PAGE);
        check(a[Page(i)].code_block.len() == 1, 26);
    }
    check(inside, 27);
    // and nothing about b by a
    check(b.get_label_u64(lb) == here, 30);
    for i in 0..3 {
        check(cur(&mut b, &cb, i) == cbe[i], 31);
    }
    // an address belongs to at most one of them
    let z = any(30, 47) as *mut u8;
    check(!(a.include(z) & b.include(z)), 32);
    check(a.include(e as *mut u8) & !b.include(e as *mut u8), 33);
    check(b.include(here as *mut u8) & !a.include(here as *mut u8), 34);
    observe(e - ca.base[0] as u64);
}
/// @for k in 0 1 2 3 4 5 6 7
#[no_mangle]
pub extern "C" fn h_c25_two_@k() {
    independent(@k, choice(40, 8));
}
/// @end

/// A generator used after another one of the same kind was dropped starts afresh, however it is made.
#[no_mangle]
pub extern "C" fn h_c25_fresh() {
    let mut x = JitMemory::new();
    let l = x.label();
    x.select_page(choice(20, 2) as usize);
    let n = any(1, 32);
    monoasm!(&mut x, addl rax, (n as i32 as i64); jmp l; l:);
    x.const_i32(7);
    x.data_i64(8);
    if choice(21, 2) == 1 {
        x.finalize();
    }
    if choice(22, 2) == 1 {
        drop(x);
    }
    let mut y = if choice(23, 2) == 0 { JitMemory::new() } else { JitMemory::default() };
    check(y.get_page() == 0, 10);
    check(y.get_current() == 0, 11);
    check(y.as_slice().len() == 0, 12);
    for k in 0..2 {
        y.select_page(k);
        check(y.get_current() == 0, 13);
        check(y[Page(k)].code_block.len() == 0, 14);
    }
    y.select_page(0);
    let b = y.get_current_address().as_ptr() as u64;
    y.finalize();
    // nothing requested from x turns up here
    for k in 0..3 {
        let (s, c, e) = y[Page(k)].code_block[0];
        check(e == Pos::from(0), 15);
        check((s == Pos::from(0)) & (c == Pos::from(0)), 16);
    }
    let m = y.label();
    monoasm!(&mut y, m: jmp m;);
    y.finalize();
    check(y.get_label_u64(m) == b, 17);
    check(rdn(b as *mut u8, 5) == 0xfffffffbe9, 18);
}

/// Six generators, some of them dropped on the way: the memory of each is its own for good, mapped with the right
/// protection, and the same operations yield the same code in each.
#[no_mangle]
pub extern "C" fn h_c25_six() {
    let v = any(1, 64);
    let drops = choice(2, 4);
    let mut base = [[0u64; 3]; 6];
    let mut end = [0u64; 6];
    let mut kept: Vec<(JitMemory, u64)> = Vec::new();
    let mut i = 0;
    while i < 6 {
        let (mut a, c) = newc();
        for k in 0..3 {
            base[i][k] = c.base[k] as u64;
            check(prot(base[i][k]) == if k < 2 { 7 } else { 3 }, 46);
            check(prot(base[i][k] + PAGE - 1) == if k < 2 { 7 } else { 3 }, 47);
            for j in 0..i {
                for m in 0..3 {
                    let (x, y) = (base[i][k], base[j][m]);
                    check((x + PAGE <= y) | (y + PAGE <= x), 40);
                }
            }
        }
        let l = a.label();
        let n = a.const_i64(v.wrapping_add(i as u64) as i64);
        let d = a.data_i64((v ^ i as u64) as i64);
        monoasm!(&mut a, jmp l; movq rax, [rip + n]; l: ret;);
        a.finalize();
        check(a.get_label_u64(l) == base[i][0] + 13, 41);
        check(rdn((base[i][0] + 2) as *mut u8, 4) == 7, 42);
        let x = a.get_label_u64(n);
        check((x >= base[i][0] + 14) & (x < base[i][0] + PAGE) & (rdn(x as *mut u8, 8) == v.wrapping_add(i as u64)), 43);
        let x = a.get_label_u64(d);
        check((x >= base[i][2]) & (x < base[i][2] + PAGE) & (rdn(x as *mut u8, 8) == v ^ i as u64), 44);
        end[i] = x;
        if (drops == 1) | ((drops == 2) & (i & 1 == 0)) | ((drops == 3) & (i < 3)) {
            drop(a);
        } else {
            kept.push((a, base[i][0]));
        }
        i += 1;
    }
    for i in 0..6 {
        check(rdn((base[i][0] + 2) as *mut u8, 4) == 7, 45);
        check(rdn(end[i] as *mut u8, 8) == v ^ i as u64, 48);
        for j in 0..kept.len() {
            let own = kept[j].0.include(base[i][0] as *mut u8);
            check(own == (kept[j].1 == base[i][0]), 49);
        }
    }
}
