/// reading: the byte at that offset of that page, without changing anything
/// @for n,e in page,jit[Page(k)][Pos::from(o)] selected,jit[Pos::from(o)]
#[no_mangle]
pub extern "C" fn h_c24_read_@n() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let data = "@n" == "page";
    let k = choice(20, if data { 3 } else { 2 }) as usize;
    let s = if data { choice(21, 2) as usize } else { k };
    jit.select_page(s);
    for q in 0..3 {
        guard(c.base[q], PAGE);
    }
    let o = any(10, 64) as usize;
    panic_if(o as u64 >= PAGE, o as u64 >= PAGE);
    let v = @e;
    panic_end();
    check(v == rd(at(c.base[k], o as u64)), 10);
    for q in 0..3 {
        check(cur(&mut jit, &c, q) == p[q], 11);
    }
    check(jit.get_page() == s, 12);
    observe(v as u64);
}

/// writing: that byte and no other
#[no_mangle]
pub extern "C" fn h_c24_write_@n() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let data = "@n" == "page";
    let k = choice(20, if data { 3 } else { 2 }) as usize;
    let s = if data { choice(21, 2) as usize } else { k };
    jit.select_page(s);
    for q in 0..3 {
        if q != k {
            guard(c.base[q], PAGE);
        }
    }
    let o = any(10, 64) as usize;
    let v = any(11, 8) as u8;
    let pr = any(12, 28);
    let old = rd(at(c.base[k], pr));
    panic_if(o as u64 >= PAGE, o as u64 >= PAGE);
    @e = v;
    panic_end();
    check(rd(at(c.base[k], o as u64)) == v, 13);
    check((rd(at(c.base[k], pr)) == old) | (pr == o as u64), 14);
    check(@e == v, 15);
    for q in 0..3 {
        check(cur(&mut jit, &c, q) == p[q], 11);
    }
    check(jit.get_page() == s, 12);
    observe(v as u64);
}
/// @end

/// what was emitted can be read back by position, by way of either index
#[no_mangle]
pub extern "C" fn h_c24_emitted() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let k = choice(20, 2) as usize;
    jit.select_page(k);
    let v = any(10, 64);
    jit.emitq(v);
    jit.select_page(choice(21, 2) as usize);
    jit.emitb(9);
    let mut w = 0;
    for i in 0..8 {
        let x = Pos::from(p[k] as usize) + i;
        w |= (jit[Page(k)][x] as u64) << (8 * i);
    }
    check(w == v, 10);
    jit.select_page(k);
    for i in 0..8 {
        check(jit[Pos::from(p[k] as usize + i)] == (v >> (8 * i)) as u8, 11);
    }
    let _ = c;
}

/// arithmetic on positions
#[no_mangle]
pub extern "C" fn h_c24_positions() {
    let a = any_max(10, 29, PAGE);
    let b = any_max(11, 29, PAGE);
    let d = any(12, 29) as i32;
    let neg = choice(20, 2) == 1;
    let (x, y) = (Pos::from(a as usize), Pos::from(b as usize));
    check((x == y) == (a == b), 10);
    assume(a >= b);
    check((x - y) as u64 == a - b, 11);
    assume(!neg | (a >= d as u64));
    let z = x + if neg { -d } else { d };
    let want = if neg { a - d as u64 } else { a + d as u64 };
    check(z == Pos::from(want as usize), 12);
    check((z - Pos::from(0)) as u64 == want, 13);
    observe(want);
}

/// pages other than the two code pages can not be selected
#[no_mangle]
pub extern "C" fn h_c24_select() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    jit.select_page(choice(20, 2) as usize);
    let k = any(10, 64) as usize;
    panic_if(k >= 2, k >= 2);
    jit.select_page(k);
    panic_end();
    check(jit.get_page() == k, 10);
    // from here on one by one
    let kk = choice(22, 2) as usize;
    assume(kk == k);
    let k = kk;
    jit.select_page(k);
    check(jit.get_current() as u64 == p[k], 11);
    check(jit.get_current_address().as_ptr() == at(c.base[k], p[k]), 12);
    for q in 0..3 {
        check(cur(&mut jit, &c, q) == p[q], 13);
    }
}
