/// An absolute-address constant requested in page r for a label of the given kind.
/// kind: 0 code label bound before the request, 1 code label bound after the request,
/// 2 constant, 3 data, 4 alignment mark, 5 code label bound only before the second finalization,
/// 6 label in the data page
fn absolute(kind: u64) {
    let p = any_pos(1, 256);
    let (mut jit, c) = placed(p);
    let r = choice(20, 2) as usize;
    let k = choice(21, 2) as usize;
    let v = any(10, 64);
    let mut l = jit.label();
    if kind == 0 {
        jit.select_page(k);
        jit.bind_label(l);
        jit.emitl(7);
    }
    if kind == 6 {
        jit.bind_label_with_page(Page(2), l);
    }
    if kind >= 2 && kind <= 4 {
        jit.select_page(k);
        l = match kind {
            2 => jit.const_i64(v as i64),
            3 => jit.data_i64(v as i64),
            _ => jit.const_align8(),
        };
    }
    jit.select_page(r);
    let a = jit.abs_address(l);
    let filler = choice(22, 2);
    let b = if filler == 1 {
        jit.const_i32(1);
        // a second constant for the same label, from the other page
        jit.select_page(1 - r);
        jit.abs_address(l)
    } else {
        a
    };
    if kind == 1 {
        jit.select_page(k);
        jit.emitb(1);
        jit.bind_label(l);
        jit.emitb(2);
    }
    jit.finalize();
    if kind == 5 {
        jit.select_page(k);
        jit.emitw(1);
        jit.bind_label(l);
        jit.finalize();
    }
    let want = jit.get_label_address(l).as_ptr() as u64;
    let pa = jit.get_label_address(a).as_ptr();
    let pb = jit.get_label_address(b).as_ptr();
    check(rdn(pa, 8) == want, 10);
    check(rdn(pb, 8) == want, 11);
    check(unsafe { *(pa as *const u64) } == want, 12);
    if kind == 2 || kind == 3 {
        check(rdn(want as *mut u8, 8) == v, 13);
    }
    match kind {
        0 => check(want == c.base[k] as u64 + p[k], 14),
        6 => check(want == c.base[2] as u64 + p[2], 14),
        _ => {}
    }
    // a further finalization leaves it alone
    jit.emitb(3);
    jit.finalize();
    check(rdn(pa, 8) == want, 15);
    check(rdn(pb, 8) == want, 16);
    observe(want - c.base[0] as u64);
}
/// @for k in 0 1 2 3 4 5 6
#[no_mangle]
pub extern "C" fn h_c11_kind@k() {
    absolute(@k);
}
/// @end

/// several constants for different labels do not get mixed up
#[no_mangle]
pub extern "C" fn h_c11_two_labels() {
    let p = any_pos(1, 256);
    let (mut jit, c) = placed(p);
    let (x, y) = (jit.label(), jit.label());
    let order = choice(20, 4);
    let (kx, ky, ka, kb) = (choice(21, 2) as usize, choice(22, 2) as usize, choice(23, 2) as usize, choice(24, 2) as usize);
    if order & 1 == 0 {
        jit.select_page(kx);
        jit.bind_label(x);
        jit.emitb(1);
    }
    jit.select_page(ka);
    let a = jit.abs_address(x);
    jit.select_page(kb);
    let b = jit.abs_address(y);
    if order & 2 == 0 {
        jit.select_page(ky);
        jit.bind_label(y);
        jit.emitb(1);
    }
    jit.finalize();
    if order & 1 != 0 {
        jit.select_page(kx);
        jit.bind_label(x);
        jit.emitb(2);
    }
    if order & 2 != 0 {
        jit.select_page(ky);
        jit.bind_label(y);
        jit.emitb(3);
    }
    jit.finalize();
    let (wx, wy) = (jit.get_label_u64(x), jit.get_label_u64(y));
    let pa = jit.get_label_address(a).as_ptr();
    let pb = jit.get_label_address(b).as_ptr();
    check(rdn(pa, 8) == wx, 10);
    check(rdn(pb, 8) == wy, 11);
    check(wx != wy, 12);
    observe(wx - c.base[0] as u64);
}

/// a label that stays unbound leaves the rest intact
#[no_mangle]
pub extern "C" fn h_c11_unbound_neighbour() {
    let p = any_pos(1, 256);
    let (mut jit, c) = placed(p);
    let (x, y) = (jit.label(), jit.label());
    jit.select_page(choice(20, 2) as usize);
    let a = jit.abs_address(x);
    let b = jit.abs_address(y);
    jit.bind_label(y);
    jit.emitb(1);
    jit.finalize();
    let wy = jit.get_label_u64(y);
    let pb = jit.get_label_address(b).as_ptr();
    check(rdn(pb, 8) == wy, 11);
    jit.emitb(1);
    jit.bind_label(x);
    jit.emitb(1);
    jit.finalize();
    let wx = jit.get_label_u64(x);
    let pa = jit.get_label_address(a).as_ptr();
    check(rdn(pa, 8) == wx, 10);
    check(rdn(pb, 8) == wy, 12);
}

/// many constants for many labels, bound before, between and after the finalizations, in both pages
#[inline(never)]
fn many(n: usize, twist: usize) {
    let p = any_pos(1, 4096);
    let (mut jit, c) = placed(p);
    let mut l = [jit.label(); 40];
    let mut a = [jit.label(); 40];
    for i in 0..n {
        l[i] = jit.label();
    }
    for i in 0..n {
        jit.select_page((i / 2 + twist) & 1);
        if i % 3 == 0 {
            jit.emitw(1);
            jit.bind_label(l[i]);
        }
        jit.select_page(i & 1);
        // not in the order of the labels
        let j = (i * 7 + twist) % n;
        a[j] = jit.abs_address(l[j]);
        if i % 5 == 4 {
            jit.const_i32(3);
        }
    }
    for i in 0..n {
        if i % 3 == 1 {
            jit.bind_label(l[i]);
            jit.emitb(2);
        }
    }
    jit.finalize();
    for i in 0..n {
        if i % 3 == 2 {
            jit.select_page(i & 1);
            jit.bind_label(l[i]);
            jit.emitl(2);
        }
    }
    jit.finalize();
    for i in 0..n {
        let want = jit.get_label_u64(l[i]);
        let x = jit.get_label_address(a[i]).as_ptr();
        check(x as u64 & 7 == 0, 18);
        check(rdn(x, 8) == want, 10);
        for j in 0..i {
            check(jit.get_label_address(a[j]).as_ptr() != x, 13);
        }
    }
    observe(jit.get_label_u64(l[n - 1]) - c.base[0] as u64);
}
/// @for k in 0 1
/// @quick
#[no_mangle]
pub extern "C" fn h_c11_many_@k() {
    many(12, @k);
}
/// @end
/// @thorough
#[no_mangle]
pub extern "C" fn h_c11_many_@k() {
    many(36, @k);
}
/// @end
/// @end
