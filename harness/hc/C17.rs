struct Log {
    a: [u64; 400],
    v: [u8; 400],
    n: usize,
}

impl Log {
    /// remember what the bytes [from, to) hold now
    #[inline(never)]
    fn keep(&mut self, from: u64, to: u64) {
        let mut x = from;
        while x < to {
            self.a[self.n] = x;
            self.v[self.n] = rd(x as *mut u8);
            self.n += 1;
            x += 1;
        }
    }
    #[inline(never)]
    fn same(&self, id: u32) {
        for i in 0..self.n {
            check(rd(self.a[i] as *mut u8) == self.v[i], id);
        }
    }
}

fn here(jit: &JitMemory) -> u64 {
    jit.get_current_address().as_ptr() as u64
}

/// one operation that must leave everything emitted before alone
#[inline(never)]
fn step(jit: &mut JitMemory, op: u64, u: DestLabel, b: DestLabel, ub: &mut bool, tag: u32) {
    match op {
        0 => jit.emitb(any(tag, 8) as u8),
        1 => {
            let k = jit.get_page();
            jit.select_page(1 - k);
        }
        2 => {
            // the label that was left unresolved, once
            assume(!*ub);
            *ub = true;
            jit.bind_label(u);
        }
        3 => {
            jit.const_i64(any(tag, 64) as i64);
        }
        4 => {
            jit.data_i64(any(tag, 64) as i64);
        }
        5 => jit.finalize(),
        6 => jit.align16(),
        7 => monoasm!(&mut *jit, jmp b; cmpb [rip + u], (3);),
        8 => {
            jit.abs_address(b);
        }
        _ => {
            let n = jit.label();
            monoasm!(&mut *jit, lea rax, [rip + n]; n:);
        }
    }
}

/// Code with resolved and unresolved references, constants and data; then operations; then the end of
/// the generator.
#[inline(never)]
fn history(first: u64, steps: u32, early: bool, patch: bool) {
    let p = any_pos(1, 1024);
    let (mut jit, c) = placed(p);
    let (u, b) = (jit.label(), jit.label());
    let v = any(10, 32);
    let k = choice(60, 2) as usize;
    let mut log = Log { a: [0; 400], v: [0; 400], n: 0 };
    jit.select_page(k);
    let s0 = here(&jit);
    let x = any(11, 4);
    monoasm!(&mut jit, b: addq R(x), (v as i32 as i64););
    let s1 = here(&jit);
    log.keep(s0, s1);
    monoasm!(&mut jit, call b;);
    let s2 = here(&jit);
    monoasm!(&mut jit, jne u;);
    let s3 = here(&jit);
    log.keep(s2, s3 - 4);
    monoasm!(&mut jit, ret;);
    log.keep(s3, s3 + 1);
    jit.select_page(1 - k);
    let t0 = here(&jit);
    monoasm!(&mut jit, movq rax, (v); movb [rip + u], (5););
    let t1 = here(&jit);
    // all but the unresolved field
    log.keep(t0, t1 - 5);
    log.keep(t1 - 1, t1);
    let cs = [jit.const_i64(any(12, 64) as i64), jit.const_i32(v as i32), jit.abs_address(b), jit.data_i64(v as i64)];
    let mut bound = false;
    if early {
        jit.finalize();
        if patch {
            // redirect the call behind itself or to a label in the other page
            let y = jit.label();
            jit.select_page(choice(61, 2) as usize);
            jit.bind_label(y);
            jit.apply_jmp_patch_address(CodePtr::from(s1 as *mut u8), y);
        }
        // the resolved reference and the constants are fixed from now on
        log.keep(s1, s2);
        for i in 0..4 {
            let a = jit.get_label_u64(cs[i]);
            log.keep(a, a + if i == 1 { 4 } else { 8 });
        }
    }
    let mut s = 0;
    while s < steps {
        let op = if s == 0 { first } else { choice(20 + s, 10) };
        step(&mut jit, op, u, b, &mut bound, 30 + s);
        s += 1;
    }
    log.same(10);
    jit.emitl(0x1234_5678);
    jit.finalize();
    log.same(11);
    observe(here(&jit) - c.base[0] as u64);
    let q = [prot(c.base[0] as u64), prot(c.base[1] as u64), prot(c.base[2] as u64)];
    drop(jit);
    for k in 0..3 {
        check(alive(c.base[k] as u64) == 1, 20);
        check(alive(c.base[k] as u64 + PAGE - 1) == 1, 21);
        check(prot(c.base[k] as u64) == q[k], 22);
    }
    log.same(12);
}
/// @for k in 0 1 2 3 4 5 6 7 8 9
/// @quick
#[no_mangle]
pub extern "C" fn h_c17_patched_@k() {
    history(@k, 2, true, true);
}
#[no_mangle]
pub extern "C" fn h_c17_early_@k() {
    history(@k, 3, true, false);
}
#[no_mangle]
pub extern "C" fn h_c17_late_@k() {
    history(@k, 2, false, false);
}
/// @end
/// @thorough
#[no_mangle]
pub extern "C" fn h_c17_patched_@k() {
    history(@k, 3, true, true);
}
#[no_mangle]
pub extern "C" fn h_c17_early_@k() {
    history(@k, 4, true, false);
}
#[no_mangle]
pub extern "C" fn h_c17_late_@k() {
    history(@k, 3, false, false);
}
/// @end
/// @end

/// The memory of a dropped generator stays while others are created and dropped.
#[no_mangle]
pub extern "C" fn h_c17_second_generator() {
    let (mut a, ca) = newc();
    a.emitq(any(1, 64));
    let l = a.const_i64(any(2, 64) as i64);
    a.finalize();
    let mut log = Log { a: [0; 400], v: [0; 400], n: 0 };
    let s = ca.base[0] as u64 + 1;
    log.keep(s, s + 8);
    let x = a.get_label_u64(l);
    log.keep(x, x + 8);
    let early = choice(3, 2) == 1;
    let mut keep = None;
    if early {
        drop(a);
    } else {
        keep = Some(a);
    }
    let (mut b, cb) = newc();
    for k in 0..3 {
        for j in 0..3 {
            let (x, y) = (ca.base[k] as u64, cb.base[j] as u64);
            check((x + PAGE <= y) | (y + PAGE <= x), 30);
        }
    }
    b.emitq(any(4, 64));
    b.data_i32(7);
    b.finalize();
    log.same(10);
    drop(b);
    drop(keep);
    log.same(11);
    check(alive(ca.base[0] as u64) == 1, 20);
    check(alive(cb.base[0] as u64) == 1, 21);
}

/// Code is added in rounds, each ended by a finalization; what earlier rounds left stays as it is.
/// kind 0: always the same page; 1: the pages take turns; 2: any page in each round; 3: as 2, and
/// a round may be empty.
#[inline(never)]
fn rounds(n: u32, kind: u64) {
    let p = any_pos(1, 1024);
    let (mut jit, _c) = placed(p);
    let b = jit.label();
    jit.bind_label(b);
    let k0 = choice(60, 2) as usize;
    let mut log = Log { a: [0; 400], v: [0; 400], n: 0 };
    let mut i = 0;
    while i < n {
        let k = match kind {
            0 => k0,
            1 => (k0 + i as usize) & 1,
            _ => choice(61 + i, 2) as usize,
        };
        jit.select_page(k);
        let empty = kind == 3 && choice(81 + i, 2) == 1;
        let s0 = here(&jit);
        let mut c = None;
        if !empty {
            let f = jit.label();
            monoasm!(&mut jit, jmp b; call f; f: negq R(any(100 + i, 4)););
            c = Some(jit.const_i64(any(120 + i, 64) as i64));
        }
        let s1 = here(&jit);
        jit.finalize();
        log.same(10);
        log.keep(s0, s1);
        if let Some(c) = c {
            let a = jit.get_label_u64(c);
            log.keep(a, a + 8);
        }
        i += 1;
    }
    log.same(11);
    observe(log.n as u64);
}
/// @quick
/// @for k in 0 1
#[no_mangle]
pub extern "C" fn h_c17_rounds_@k() {
    rounds(5, @k);
}
/// @end
#[no_mangle]
pub extern "C" fn h_c17_rounds_2() {
    rounds(4, 2);
}
#[no_mangle]
pub extern "C" fn h_c17_rounds_3() {
    rounds(3, 3);
}
/// @end
/// @thorough
/// @for k in 0 1
#[no_mangle]
pub extern "C" fn h_c17_rounds_@k() {
    rounds(8, @k);
}
/// @end
#[no_mangle]
pub extern "C" fn h_c17_rounds_2() {
    rounds(5, 2);
}
#[no_mangle]
pub extern "C" fn h_c17_rounds_3() {
    rounds(4, 3);
}
/// @end
