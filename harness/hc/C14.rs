fn aligned(k: usize, sel: usize, n: u64, f: fn(&mut JitMemory, usize)) {
    let p = any_pos(1, 0);
    let (mut jit, c) = placed(p);
    jit.select_page(sel);
    // no byte of any page may be written
    for q in 0..3 {
        guard(c.base[q], PAGE);
    }
    f(&mut jit, k);
    let r = cur(&mut jit, &c, k);
    check(r & (n - 1) == 0, 11);
    check(r >= p[k], 12);
    check(r - p[k] < n, 13);
    for q in 0..3 {
        if q != k {
            check(cur(&mut jit, &c, q) == p[q], 14);
        }
    }
    check(jit.get_page() == sel, 15);
    // again: an aligned cursor stays
    f(&mut jit, k);
    check(cur(&mut jit, &c, k) == r, 16);
    observe(r);
    unguard();
    // emission continues exactly there
    if r < PAGE {
        let v = any(10, 8) as u8;
        jit[Page(k)].emitb(v);
        check(cur(&mut jit, &c, k) == r + 1, 17);
        check(rd(at(c.base[k], r)) == v, 18);
    }
}

/// @for n,f in 4,align4 8,align8 16,align16 4096,align_page
fn p_@f(jit: &mut JitMemory, k: usize) {
    jit[Page(k)].@f()
}
fn s_@f(jit: &mut JitMemory, k: usize) {
    jit.@f()
}
#[no_mangle]
pub extern "C" fn h_c14_page_@f() {
    let k = choice(20, 3) as usize;
    let s = choice(21, 2) as usize;
    aligned(k, s, @n, p_@f);
}
#[no_mangle]
pub extern "C" fn h_c14_selected_@f() {
    let k = choice(20, 2) as usize;
    aligned(k, k, @n, s_@f);
}
/// @end
