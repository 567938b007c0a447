/// asking for the address of an unbound label panics
#[no_mangle]
pub extern "C" fn h_c09_unbound() {
    let p = any_pos(1, 64);
    let (mut jit, _c) = placed(p);
    let (a, l, b) = (jit.label(), jit.label(), jit.label());
    jit.bind_label(a);
    jit.bind_label(b);
    if choice(20, 2) == 1 {
        monoasm!(&mut jit, jmp l;);
    }
    if choice(22, 2) == 1 {
        jit.finalize();
    }
    check(true, 1);
    panic_if(true, true);
    match choice(21, 5) {
        0 => observe(jit.get_label_u64(l)),
        1 => observe(jit.get_label_address(l).as_ptr() as u64),
        2 => observe(jit.get_label_addr::<u64, u64>(l) as u64),
        3 => observe(jit.get_label_addr2::<u64, u64, u64>(l) as u64),
        _ => jit.apply_jmp_patch(a, l),
    }
    panic_end();
}

/// references to constants and data, requested before or after the reference
/// @for k in 0 1 2 3 4
#[no_mangle]
pub extern "C" fn h_c09_const_@k() {
    let p = any_pos(1, 256);
    let (mut jit, c) = placed(p);
    let (kc, kr) = (choice(20, 2) as usize, choice(21, 2) as usize);
    jit.select_page(kc);
    // another one in front
    if choice(22, 2) == 1 {
        jit.const_i32(5);
        jit.data_i32(5);
    }
    let v = any(30, 64);
    let l = match @k {
        0 => jit.const_i64(v as i64),
        1 => jit.const_f64(f64::from_bits(v)),
        2 => jit.data_i64(v as i64),
        3 => jit.constant(8),
        _ => jit.data(8),
    };
    jit.select_page(kr);
    let start = c.base[kr] as u64 + jit.get_current() as u64;
    monoasm!(&mut jit,
        movq rax, [rip + l];
        addb [rip + l], (7);
    );
    let end = c.base[kr] as u64 + jit.get_current() as u64;
    jit.finalize();
    let want = jit.get_label_u64(l);
    let (b, n) = grab(start as *mut u8, 0, (end - start) as usize);
    let d = decode(&b, n);
    check(d.op == MOV && d.w == 8, 4);
    is_mem(&d.b, 16, 17, 0, want as i64 - (start + d.len as u64) as i64, 10);
    let (b, n) = grab(start as *mut u8, d.len, n);
    let e = decode(&b, n);
    check(e.op == ADD && e.w == 1, 5);
    check(e.len == n, 3);
    is_mem(&e.a, 16, 17, 0, want as i64 - end as i64, 20);
    if @k < 3 {
        check(rdn(want as *mut u8, 8) == v, 30);
    }
}
/// @end

/// several references to one label, of different kinds, from both pages
#[no_mangle]
pub extern "C" fn h_c09_many() {
    let p = any_pos(1, 256);
    let (mut jit, c) = placed(p);
    let l = jit.label();
    let m = jit.label();
    let when = choice(20, 4);
    let lp = choice(21, 2) as usize;
    let mut at_ = [0u64; 4];
    let mut end = [0u64; 4];
    for i in 0..4 {
        if when == i {
            jit.select_page(lp);
            jit.bind_label(l);
        }
        let k = choice(30 + i as u32, 2) as usize;
        jit.select_page(k);
        at_[i as usize] = c.base[k] as u64 + jit.get_current() as u64;
        match i {
            0 => monoasm!(&mut jit, call l;),
            1 => monoasm!(&mut jit, jgt l;),
            2 => monoasm!(&mut jit, lea rdi, [rip + l];),
            _ => monoasm!(&mut jit, cmpl [rip + l], (77);),
        }
        end[i as usize] = c.base[k] as u64 + jit.get_current() as u64;
    }
    monoasm!(&mut jit, jmp m;);
    jit.bind_label(m);
    jit.finalize();
    let want = jit.get_label_u64(l);
    for i in 0..4 {
        let n = end[i] - at_[i];
        let (b, k) = grab(at_[i] as *mut u8, 0, n as usize);
        let d = decode(&b, k);
        check(d.len as u64 == n, 3);
        let o = if i == 2 { d.b } else { d.a };
        check(d.op == [CALL, JCC, LEA, CMP][i], 4);
        check(o.val == want as i64 - (at_[i] + n) as i64, 10);
    }
    let x = end[3];
    let (b, k) = grab(x as *mut u8, 0, 5);
    let d = decode(&b, k);
    check(d.op == JMP, 5);
    check(d.a.val == 0, 11);
}

/// histories: references to two labels, their bindings, page changes and finalizations in any order
#[inline(never)]
fn history(first: u64, steps: u32) {
    let p = any_pos(1, 1024);
    let (mut jit, c) = placed(p);
    let l = [jit.label(), jit.label()];
    let mut bound = [0u64; 2];
    let mut refs = [(0u64, 0usize, 0u64); 8];
    let mut n = 0;
    let mut s = 0;
    while s < steps {
        let op = if s == 0 { first } else { choice(10 + s, 6) };
        match op {
            0 | 1 => {
                let start = jit.get_current_address().as_ptr() as u64;
                let x = l[op as usize];
                if n % 2 == 0 {
                    monoasm!(&mut jit, jmp x;);
                } else {
                    monoasm!(&mut jit, movb [rip + x], (9););
                }
                refs[n] = (start, op as usize, jit.get_current_address().as_ptr() as u64);
                n += 1;
            }
            2 | 3 => {
                let i = op as usize - 2;
                // once only
                assume(bound[i] == 0);
                bound[i] = jit.get_current_address().as_ptr() as u64;
                jit.bind_label(l[i]);
            }
            4 => jit.finalize(),
            _ => {
                let k = jit.get_page();
                jit.select_page(1 - k);
            }
        }
        s += 1;
    }
    for i in 0..2 {
        if bound[i] == 0 {
            bound[i] = jit.get_current_address().as_ptr() as u64;
            jit.bind_label(l[i]);
        }
    }
    jit.emitb(0);
    jit.finalize();
    check(true, 1);
    for i in 0..n {
        let (start, x, end) = refs[i];
        let (b, k) = grab(start as *mut u8, 0, (end - start) as usize);
        let d = decode(&b, k);
        check(d.op == if i % 2 == 0 { JMP } else { MOV }, 4);
        check(d.len == k, 3);
        check(d.a.val == bound[x] as i64 - end as i64, 10);
        check(jit.get_label_u64(l[x]) == bound[x], 6);
    }
}
/// @quick
/// @for k in 0 1 2 3 4 5
#[no_mangle]
pub extern "C" fn h_c09_history_@k() {
    history(@k, 5);
}
/// @end
/// @end
/// @thorough
/// @for k in 0 1 2 3 4 5
#[no_mangle]
pub extern "C" fn h_c09_history_@k() {
    history(@k, 7);
}
/// @end
/// @end

/// label numbers: two of many labels are not mixed up
#[inline(never)]
fn numbered(n: usize, idx: &[usize], all: u64) {
    let p = any_pos(1, 256);
    let (mut jit, c) = placed(p);
    let mut keep = [jit.label(); 16];
    let mut i = 1;
    let mut k = 0;
    while i < n {
        let l = jit.label();
        if k < idx.len() && idx[k] == i {
            keep[k] = l;
            k += 1;
        }
        i += 1;
    }
    let m = idx.len();
    let x = choice(20, m as u64) as usize;
    let y = (x + 1 + choice(21, 1 + (m as u64 - 2) * all) as usize) % m;
    let late = choice(22, 1 + all) == 1;
    let (a, b) = (keep[x], keep[y]);
    let kr = choice(23, 1 + all) as usize;
    jit.select_page(kr);
    let start = c.base[kr] as u64 + jit.get_current() as u64;
    monoasm!(&mut jit,
        jmp a;
        call b;
    );
    let kb = choice(24, 1 + all) as usize;
    jit.select_page(kb);
    jit.emitb(1);
    let wa = jit.get_current_address().as_ptr() as u64;
    jit.bind_label(a);
    jit.emitb(2);
    if late {
        jit.finalize();
    }
    let wb = jit.get_current_address().as_ptr() as u64;
    jit.bind_label(b);
    jit.finalize();
    check(jit.get_label_u64(a) == wa, 6);
    check(jit.get_label_u64(b) == wb, 7);
    check(rdn((start + 1) as *mut u8, 4) as u32 as i32 as i64 == wa as i64 - start as i64 - 5, 10);
    check(rdn((start + 6) as *mut u8, 4) as u32 as i32 as i64 == wb as i64 - start as i64 - 10, 11);
    observe(wa - c.base[0] as u64);
}
#[no_mangle]
pub extern "C" fn h_c09_numbered() {
    numbered(600, &[1, 2, 127, 128, 255, 256, 257, 511, 599], 1);
}
#[no_mangle]
pub extern "C" fn h_c09_numbered_64k() {
    numbered(66000, &[1, 300, 65537], 0);
}

/// many references to one label
#[no_mangle]
pub extern "C" fn h_c09_many_references() {
    let p = any_pos(1, 8192);
    let (mut jit, c) = placed(p);
    let (a, l, b) = (jit.label(), jit.label(), jit.label());
    let kl = choice(20, 2) as usize;
    let when = [0u64, 1, 150, 290, 300][choice(21, 5) as usize];
    let mut n = [0u64; 2];
    let mut i = 0;
    let mut want = 0;
    while i <= 300 {
        if i == when {
            jit.select_page(kl);
            want = jit.get_current_address().as_ptr() as u64;
            jit.bind_label(l);
        }
        if i == 300 {
            break;
        }
        let k = (i % 3 == 0) as usize;
        jit.select_page(k);
        monoasm!(&mut jit, jmp l;);
        n[k] += 1;
        i += 1;
    }
    jit.bind_label(a);
    jit.bind_label(b);
    jit.finalize();
    check(jit.get_label_u64(l) == want, 6);
    for k in 0..2 {
        let mut j = 0;
        while j < n[k] {
            let at_ = c.base[k] as u64 + p[k] + 5 * j;
            check(rd(at_ as *mut u8) == 0xe9, 4);
            check(rdn((at_ + 1) as *mut u8, 4) as u32 as i32 as i64 == want as i64 - at_ as i64 - 5, 10);
            j += 1;
        }
    }
    observe(want - c.base[0] as u64);
}
