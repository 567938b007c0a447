fn same(jit: &mut JitMemory, l: DestLabel, a: u64) {
    check(jit.get_label_address(l).as_ptr() as u64 == a, 20);
    check(jit.get_label_u64(l) == a, 21);
    let f = jit.get_label_addr::<u64, u64>(l);
    check(f as usize as u64 == a, 22);
    let g = jit.get_label_addr2::<u64, u64, u64>(l);
    check(g as usize as u64 == a, 23);
}

/// the label's address is the current address when it was bound, by every query and for good
#[no_mangle]
pub extern "C" fn h_c15_bind() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let k = choice(20, 2) as usize;
    let early = choice(21, 2);
    // other labels before and between
    let l0 = jit.label();
    let l = jit.label();
    let l2 = jit.label();
    if early == 1 {
        jit.select_page(1 - k);
        jit.bind_label(l2);
    }
    jit.select_page(k);
    check(jit.get_page() == k, 10);
    check(jit.get_current() as u64 == p[k], 11);
    let a = jit.get_current_address();
    check(a.as_ptr() == at(c.base[k], p[k]), 12);
    jit.bind_label(l);
    same(&mut jit, l, a.as_ptr() as u64);
    // later events do not move it
    jit.emitl(any(10, 32) as u32);
    check(jit.get_current() as u64 == p[k] + 4, 13);
    check(jit.get_current_address().as_ptr() == at(c.base[k], p[k] + 4), 14);
    same(&mut jit, l, a.as_ptr() as u64);
    jit.select_page(1 - k);
    same(&mut jit, l, a.as_ptr() as u64);
    check(jit.get_current_address().as_ptr() == at(c.base[1 - k], p[1 - k]), 15);
    jit.bind_label(l0);
    let kc = jit.const_i64(5);
    jit.finalize();
    same(&mut jit, l, a.as_ptr() as u64);
    same(&mut jit, l0, at(c.base[1 - k], p[1 - k]) as u64);
    if early == 1 {
        same(&mut jit, l2, at(c.base[1 - k], p[1 - k]) as u64);
    }
    let ka = jit.get_label_address(kc).as_ptr() as u64;
    same(&mut jit, kc, ka);
    observe(a.as_ptr() as u64 - c.base[0] as u64);
}

/// the macro's label definition binds at the place where it stands
#[no_mangle]
pub extern "C" fn h_c15_macro_label() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let k = choice(20, 2) as usize;
    jit.select_page(k);
    let (a, b, d) = (jit.label(), jit.label(), jit.label());
    let r = any(10, 4);
    monoasm!(&mut jit,
    a:
        pushq R(r);
    b:
        ret;
    d:
    );
    let base = c.base[k] as u64;
    same(&mut jit, a, base + p[k]);
    let e = jit.get_current() as u64;
    same(&mut jit, b, base + e - 1);
    same(&mut jit, d, base + e);
    check(rd(at(c.base[k], e - 1)) == 0xc3, 30);
    observe(e - p[k]);
}

/// binding to a page, whichever page is selected
#[no_mangle]
pub extern "C" fn h_c15_bind_with_page() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let k = choice(20, 3) as usize;
    jit.select_page(choice(21, 2) as usize);
    let l = jit.label();
    jit.bind_label_with_page(Page(k), l);
    same(&mut jit, l, c.base[k] as u64 + p[k]);
    jit.finalize();
    same(&mut jit, l, c.base[k] as u64 + p[k]);
    observe(p[k]);
}

/// labels are distinct and independent
#[no_mangle]
pub extern "C" fn h_c15_labels_independent() {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let mut l = [jit.label(), jit.label(), jit.label()];
    let mut want = [0u64; 3];
    let first = choice(20, 3) as usize;
    for i in 0..3 {
        let j = (first + i) % 3;
        let k = choice(21 + i as u32, 2) as usize;
        jit.select_page(k);
        want[j] = jit.get_current_address().as_ptr() as u64;
        jit.bind_label(l[j]);
        jit.emitb(1);
    }
    for i in 0..3 {
        same(&mut jit, l[i], want[i]);
        for j in 0..i {
            check(l[i] != l[j], 31);
        }
    }
    jit.finalize();
    for i in 0..3 {
        same(&mut jit, l[i], want[i]);
    }
}

/// constant and data labels are distinct from the others
#[no_mangle]
pub extern "C" fn h_c15_distinct_ids() {
    let mut jit = JitMemory::new();
    let l = [
        jit.label(),
        jit.const_i64(1),
        jit.data_i64(1),
        jit.const_i32(1),
        jit.data_i32(1),
        jit.const_f64(1.0),
        jit.constant(3),
        jit.data(3),
        jit.const_align8(),
    ];
    let x = jit.abs_address(l[1]);
    for i in 0..9 {
        check(l[i] != x, 31);
        for j in 0..i {
            check(l[i] != l[j], 31);
        }
    }
    observe(x.to_usize() as u64);
}

#[no_mangle]
pub extern "C" fn h_c15_include() {
    let p = any_pos(1, 0);
    let (mut jit, c) = placed(p);
    jit.select_page(choice(20, 2) as usize);
    let a = any(10, 64);
    let r = jit.include(a as *mut u8);
    let (b0, b1) = (c.base[0] as u64, c.base[1] as u64);
    let want = ((a >= b0) & (a < b0 + PAGE)) | ((a >= b1) & (a < b1 + PAGE));
    check(r == want, 40);
}

/// addresses of the code itself, first and last byte included
#[no_mangle]
pub extern "C" fn h_c15_include_own() {
    let p = any_pos(1, 1);
    let (mut jit, c) = placed(p);
    jit.select_page(choice(20, 2) as usize);
    let a = jit.get_current_address().as_ptr();
    jit.select_page(choice(21, 2) as usize);
    check(jit.include(a), 41);
    check(!jit.include(at(c.base[2], p[2])), 42);
}

/// CodePtr arithmetic is that of plain addresses
#[no_mangle]
pub extern "C" fn h_c15_codeptr() {
    let a = any(1, 47);
    let b = any(2, 47);
    assume((a != 0) & (b != 0));
    let n = any(3, 46);
    let (x, y) = (CodePtr::from(a as *mut u8), CodePtr::from(b as *mut u8));
    check(x.as_ptr() as u64 == a, 50);
    check(x - y == a as i64 - b as i64, 51);
    check((x + n as usize).as_ptr() as u64 == a + n, 52);
    check((x == y) == (a == b), 53);
    check((x < y) == (a < b), 54);
    check((x > y) == (a > b), 55);
    check((x <= y) == (a <= b), 56);
    check((x >= y) == (a >= b), 57);
    observe(a);
}

/// many labels, bound in another order than they were made, in both pages, over several finalizations
#[inline(never)]
fn many(n: usize, step: usize) {
    let p = any_pos(1, 4096);
    let (mut jit, c) = placed(p);
    let mut l = [jit.label(); 64];
    let mut want = [0u64; 64];
    for i in 0..n {
        l[i] = jit.label();
    }
    let mut j = 0;
    for i in 0..n {
        j = (j + step) % n;
        jit.select_page((i / 2) & 1);
        want[j] = jit.get_current_address().as_ptr() as u64;
        check(want[j] == c.base[(i / 2) & 1] as u64 + jit.get_current() as u64, 32);
        jit.bind_label(l[j]);
        jit.emitb(1);
        if i % 8 == 5 {
            jit.const_i32(1);
            jit.finalize();
        }
    }
    for i in 0..n {
        same(&mut jit, l[i], want[i]);
        for j in 0..i {
            check(l[i] != l[j], 31);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c15_many_up() {
    many(17, 1);
}
#[no_mangle]
pub extern "C" fn h_c15_many_mixed() {
    many(17, 6);
}
/// @thorough
#[no_mangle]
pub extern "C" fn h_c15_many_more() {
    many(63, 20);
}
/// @end

/// membership does not depend on what was emitted and finalized
#[no_mangle]
pub extern "C" fn h_c15_include_later() {
    let p = any_pos(1, 1024);
    let (mut jit, c) = placed(p);
    jit.select_page(choice(20, 2) as usize);
    jit.emitb(1);
    jit.const_i64(2);
    jit.finalize();
    jit.select_page(choice(21, 2) as usize);
    let a = any(10, 64);
    let r = jit.include(a as *mut u8);
    let (b0, b1) = (c.base[0] as u64, c.base[1] as u64);
    let want = ((a >= b0) & (a < b0 + PAGE)) | ((a >= b1) & (a < b1 + PAGE));
    check(r == want, 40);
}
