/// A five-byte jmp or call at an arbitrary place, patched to labels at arbitrary places.
fn patching(call: bool, by_label: bool, n: u32) {
    let p = any_pos(1, 64);
    let (mut jit, c) = placed(p);
    let k = choice(20, 2) as usize;
    jit.select_page(k);
    let (site, first) = (jit.label(), jit.label());
    monoasm!(&mut jit,
    site:
    );
    let addr = jit.get_current_address();
    if call {
        monoasm!(&mut jit, call first;);
    } else {
        monoasm!(&mut jit, jmp first;);
    }
    let end = jit.get_current() as u64;
    check(end == p[k] + 5, 10);
    // the original destination, in either page
    let kf = choice(21, 2) as usize;
    jit.select_page(kf);
    jit.emitb(0xcc);
    jit.bind_label(first);
    jit.finalize();
    jit.select_page(k);
    let op = rd(addr.as_ptr());
    let mut from = [cur(&mut jit, &c, 0), cur(&mut jit, &c, 1), p[2]];
    for i in 0..n {
        let l = jit.label();
        // a destination anywhere: as if other code had been emitted up to it, or earlier
        let kd = choice(30 + i, 2) as usize;
        let q = any(40 + i, 28);
        move_cur(&mut jit, &c, kd, from[kd], q);
        jit.bind_label_with_page(Page(kd), l);
        move_cur(&mut jit, &c, kd, q, from[kd]);
        let pk = choice(50 + i, 2) as usize;
        let pr = any(60 + i, 28);
        let probe = at(c.base[pk], pr);
        let old = rd(probe);
        jit.select_page(choice(70 + i, 2) as usize);
        if by_label {
            jit.apply_jmp_patch(site, l);
        } else {
            jit.apply_jmp_patch_address(addr, l);
        }
        // the instruction transfers to exactly the label
        let d = rdn(at(addr.as_ptr(), 1), 4) as u32 as i32 as i64;
        let next = c.base[k] as i64 + p[k] as i64 + 5;
        let want = c.base[kd] as i64 + q as i64;
        check(d == want - next, 11);
        check(rd(addr.as_ptr()) == op, 12);
        let new = rd(probe);
        check((new == old) | ((pk == k) & (pr > p[k]) & (pr < p[k] + 5)), 13);
        check(cur(&mut jit, &c, 0) == from[0], 14);
        check(cur(&mut jit, &c, 1) == from[1], 15);
        observe(d as u64);
    }
    // the patch survives a later finalization
    let d = rdn(at(addr.as_ptr(), 1), 4);
    jit.finalize();
    check(rdn(at(addr.as_ptr(), 1), 4) == d, 16);
    check(op == if call { 0xe8 } else { 0xe9 }, 17);
}

/// @for n,c,b in jmp_label,false,true jmp_address,false,false call_label,true,true call_address,true,false
#[no_mangle]
pub extern "C" fn h_c12_once_@n() {
    patching(@c, @b, 1);
}
#[no_mangle]
pub extern "C" fn h_c12_twice_@n() {
    patching(@c, @b, 2);
}
/// @end
/// @thorough
/// @for n,c,b in jmp_label,false,true call_address,true,false
#[no_mangle]
pub extern "C" fn h_c12_thrice_@n() {
    patching(@c, @b, 3);
}
/// @end
/// @end

/// several jumps, patched in turn and repeatedly to several labels
#[inline(never)]
fn several(n: usize) {
    let p = any_pos(1, 1024);
    let (mut jit, c) = placed(p);
    let mut site = [jit.label(); 5];
    let mut addr = [0u64; 5];
    let mut dest = [jit.label(); 5];
    let ks = choice(20, 2) as usize;
    let f = jit.label();
    jit.bind_label(f);
    for i in 0..5 {
        jit.select_page(if i % 3 == 2 { 1 - ks } else { ks });
        site[i] = jit.label();
        dest[i] = jit.label();
        let s = site[i];
        addr[i] = jit.get_current_address().as_ptr() as u64;
        if i & 1 == 0 {
            monoasm!(&mut jit, s: jmp f;);
        } else {
            monoasm!(&mut jit, s: call f;);
        }
    }
    for i in 0..5 {
        jit.select_page(choice(21 + i as u32, 2) as usize);
        jit.emitl(any(30 + i as u32, 32) as u32);
        jit.bind_label(dest[i]);
    }
    jit.finalize();
    let mut goes = [jit.get_label_u64(f); 5];
    for i in 0..n {
        let (s, d) = ((i * 3) % 5, (i * 2 + i / 5) % 5);
        if i & 1 == 0 {
            jit.apply_jmp_patch(site[s], dest[d]);
        } else {
            jit.apply_jmp_patch_address(CodePtr::from(addr[s] as *mut u8), dest[d]);
        }
        goes[s] = jit.get_label_u64(dest[d]);
        for j in 0..5 {
            check(rd(addr[j] as *mut u8) == if j & 1 == 0 { 0xe9 } else { 0xe8 }, 12);
            let x = rdn(at(addr[j] as *mut u8, 1), 4) as u32 as i32 as i64;
            check((addr[j] as i64 + 5 + x) as u64 == goes[j], 11);
        }
        if i % 4 == 3 {
            jit.finalize();
        }
    }
    observe(goes[0] - c.base[0] as u64);
}
#[no_mangle]
pub extern "C" fn h_c12_several() {
    several(10);
}
