#[derive(Clone, Copy)]
struct Item {
    label: DestLabel,
    kind: u64,
    page: usize,
    n: u64,
    v: u64,
    /// address of the first byte behind the code of its page when it was placed
    behind: u64,
}

const SIZES: [u64; 5] = [0, 1, 5, 16, 17];

/// kinds 0..8; page: where it is requested
fn request(jit: &mut JitMemory, kind: u64, tag: u32, target: DestLabel) -> Item {
    let page = choice(tag, 2) as usize;
    jit.select_page(page);
    let (n, v) = match kind {
        0 | 1 | 6 => (8, any(tag + 1, 64)),
        2 | 7 => (4, any(tag + 1, 32)),
        3 | 8 => (SIZES[choice(tag + 2, 5) as usize], 0),
        4 => (8, 0),
        _ => (0, 0),
    };
    let label = match kind {
        0 => jit.const_f64(f64::from_bits(v)),
        1 => jit.const_i64(v as i64),
        2 => jit.const_i32(v as i32),
        3 => jit.constant(n as usize),
        4 => jit.abs_address(target),
        5 => jit.const_align8(),
        6 => jit.data_i64(v as i64),
        7 => jit.data_i32(v as i32),
        _ => jit.data(n as usize),
    };
    Item { label, kind, page: if kind >= 6 { 2 } else { page }, n, v, behind: 0 }
}

fn placed_right(jit: &mut JitMemory, c: &Cur, i: &Item, target: DestLabel, id: u32) -> u64 {
    let a = jit.get_label_u64(i.label);
    let al = match i.kind {
        2 | 7 => 4,
        4 | 5 => 8,
        _ => 16,
    };
    check(a & (al - 1) == 0, id);
    let base = c.base[i.page] as u64;
    check(a >= base, id + 1);
    check(a <= base + PAGE - i.n, id + 2);
    check(a >= i.behind, id + 3);
    // the contents, byte by byte
    let want = if i.kind == 4 { jit.get_label_u64(target) } else { i.v };
    let mut j = 0;
    while j < i.n {
        let w = if j < 8 { (want >> (8 * j)) as u8 } else { 0 };
        check(rd((a + j) as *mut u8) == w, id + 4);
        j += 1;
    }
    a
}

/// `first` and `second` before the first finalization, a third one before the second
fn sequence(first: u64, third: bool) {
    let p = any_pos(1, 1024);
    let (mut jit, c) = placed(p);
    let target = jit.label();
    let code = any(90, 8) as u8;
    jit.bind_label(target);
    // a byte of code on every code page, directly before the constants
    for k in 0..2 {
        jit[Page(k)].emitb(code);
    }
    let e = [c.base[0] as u64 + p[0] + 1, c.base[1] as u64 + p[1] + 1, c.base[2] as u64 + p[2]];
    let mut it = [Item { label: target, kind: 0, page: 0, n: 0, v: 0, behind: 0 }; 3];
    it[0] = request(&mut jit, first, 10, target);
    it[1] = request(&mut jit, choice(20, 9), 30, target);
    it[0].behind = e[it[0].page];
    it[1].behind = e[it[1].page];
    jit.finalize();
    let mut n = 2;
    let mut x = [placed_right(&mut jit, &c, &it[0], target, 10), placed_right(&mut jit, &c, &it[1], target, 20), 0];
    if third {
        // more code behind the constants, then another item
        let mut f = [0u64; 3];
        for k in 0..2 {
            f[k] = c.base[k] as u64 + cur(&mut jit, &c, k);
            jit[Page(k)].emitb(code);
            // the new code does not lie on the items
            for i in 0..2 {
                check((x[i] + it[i].n <= f[k]) | (x[i] > f[k]), 70);
            }
            f[k] += 1;
        }
        f[2] = c.base[2] as u64 + cur(&mut jit, &c, 2);
        it[2] = request(&mut jit, choice(21, 9), 50, target);
        it[2].behind = f[it[2].page];
        jit.finalize();
        x[2] = placed_right(&mut jit, &c, &it[2], target, 30);
        n = 3;
        for i in 0..2 {
            // the earlier ones are still what and where they were
            check(placed_right(&mut jit, &c, &it[i], target, 40) == x[i], 50);
        }
        for k in 0..2 {
            check(rd((f[k] - 1) as *mut u8) == code, 61);
        }
    }
    for i in 0..n {
        for j in 0..i {
            // empty areas and marks own no byte
            let (a, b) = (x[i], x[j]);
            check((a + it[i].n <= b) | (b + it[j].n <= a) | (it[i].n == 0) | (it[j].n == 0), 51);
        }
    }
    for k in 0..2 {
        check(rd((e[k] - 1) as *mut u8) == code, 60);
    }
    // later emission does not run into them either
    for k in 0..2 {
        let g = c.base[k] as u64 + cur(&mut jit, &c, k);
        for i in 0..n {
            check((it[i].page != k) | (x[i] + it[i].n <= g), 71);
        }
    }
    observe(x[0] - c.base[0] as u64);
    observe(x[1] - c.base[0] as u64);
}
/// @for k in 0 1 2 3 4 5 6 7 8
#[no_mangle]
pub extern "C" fn h_c10_two_@k() {
    sequence(@k, false);
}
#[no_mangle]
pub extern "C" fn h_c10_three_@k() {
    sequence(@k, true);
}
/// @end

/// larger areas
#[no_mangle]
pub extern "C" fn h_c10_area() {
    let p = any_pos(1, 1024);
    let (mut jit, c) = placed(p);
    jit.select_page(choice(20, 2) as usize);
    let n = [31usize, 64, 100][choice(21, 3) as usize];
    let d = choice(22, 2);
    let l = if d == 0 { jit.constant(n) } else { jit.data(n) };
    let m = if d == 0 { jit.const_i32(-1) } else { jit.data_i32(-1) };
    jit.finalize();
    let a = jit.get_label_u64(l);
    check(a & 15 == 0, 10);
    for i in 0..n as u64 {
        check(rd((a + i) as *mut u8) == 0, 14);
    }
    let b = jit.get_label_u64(m);
    check(b & 3 == 0, 11);
    check(b >= a + n as u64, 51);
    check(rdn(b as *mut u8, 4) == 0xffff_ffff, 15);
    observe(a - c.base[0] as u64);
}

#[no_mangle]
pub extern "C" fn h_c10_empty_requests() {
    // finalizing without requests places nothing
    let p = any_pos(1, 16);
    let (mut jit, c) = placed(p);
    for k in 0..3 {
        guard(c.base[k], PAGE);
    }
    jit.finalize();
    jit.finalize();
    for k in 0..3 {
        check(cur(&mut jit, &c, k) == p[k], 10);
    }
}

/// many requests, of every kind in turn, over several finalizations
#[inline(never)]
fn bulk(rounds: usize, per: usize, step: u64) {
    let p = any_pos(1, 8192);
    let (mut jit, c) = placed(p);
    let target = jit.label();
    jit.bind_label(target);
    let code = any(90, 8) as u8;
    let mut it = [(Item { label: target, kind: 0, page: 0, n: 0, v: 0, behind: 0 }, 0u64); 32];
    let mut n = 0;
    let start = choice(20, 9);
    for r in 0..rounds {
        let mut e = [0u64; 3];
        for k in 0..3 {
            if k < 2 {
                jit[Page(k)].emitb(code);
            }
            e[k] = c.base[k] as u64 + cur(&mut jit, &c, k);
            // nothing placed earlier is overwritten by the new code
            for i in 0..n {
                let (a, b) = (it[i].1, it[i].1 + it[i].0.n);
                check((it[i].0.page != k) | (b < e[k]) | (k == 2) & (b <= e[k]) | (it[i].0.n == 0), 70);
            }
        }
        let from = n;
        for i in 0..per {
            let q = (n as u64 * step + start) % 9;
            let page = (n / 2 + r) % 2;
            jit.select_page(page);
            let v = any(100 + n as u32, 64);
            let size = SIZES[n % 5];
            let (label, len, v) = match q {
                0 => (jit.const_f64(f64::from_bits(v)), 8, v),
                1 => (jit.const_i64(v as i64), 8, v),
                2 => (jit.const_i32(v as i32), 4, v),
                3 => (jit.constant(size as usize), size, 0),
                4 => (jit.abs_address(target), 8, 0),
                5 => (jit.const_align8(), 0, 0),
                6 => (jit.data_i64(v as i64), 8, v),
                7 => (jit.data_i32(v as i32), 4, v),
                _ => (jit.data(size as usize), size, 0),
            };
            let page = if q >= 6 { 2 } else { page };
            it[n] = (Item { label, kind: q, page, n: len, v, behind: e[page] }, 0);
            n += 1;
        }
        jit.finalize();
        for i in 0..n {
            let a = placed_right(&mut jit, &c, &it[i].0, target, 10);
            if i < from {
                check(a == it[i].1, 50);
            }
            it[i].1 = a;
        }
    }
    for i in 0..n {
        for j in 0..i {
            if it[i].0.page == it[j].0.page && it[i].0.n > 0 && it[j].0.n > 0 {
                let (a, b) = (it[i].1, it[j].1);
                check((a + it[i].0.n <= b) | (b + it[j].0.n <= a), 51);
            }
        }
    }
    observe(it[n - 1].1 - c.base[0] as u64);
}
#[no_mangle]
pub extern "C" fn h_c10_bulk_1x12() {
    bulk(1, 12, 1);
}
#[no_mangle]
pub extern "C" fn h_c10_bulk_3x5() {
    bulk(3, 5, 2);
}
#[no_mangle]
pub extern "C" fn h_c10_bulk_5x2() {
    bulk(5, 2, 4);
}
/// @thorough
#[no_mangle]
pub extern "C" fn h_c10_bulk_2x14() {
    bulk(2, 14, 5);
}
/// @end

/// areas above the sizes of the other harnesses, with every byte behind and before them untouched
#[inline(never)]
fn big_area(n: usize, d: u64) {
    let mut p = any_pos(1, 16384);
    p[0] += 16;
    p[2] += 16;
    let (mut jit, c) = placed(p);
    let k = if d == 0 { 0 } else { 2 };
    let l = if d == 0 { jit.constant(n) } else { jit.data(n) };
    let b = at(c.base[k], p[k]);
    let mut before = [0u8; 16];
    for i in 0..16 {
        before[i] = rd(at(b, i as u64).wrapping_sub(16));
    }
    jit.finalize();
    let a = jit.get_label_u64(l);
    check(a & 15 == 0, 10);
    check(a >= b as u64, 11);
    let mut i = 0;
    while i < n as u64 {
        check(rd((a + i) as *mut u8) == 0, 14);
        i += 1;
    }
    for i in 0..16 {
        check(rd(at(b, i as u64).wrapping_sub(16)) == before[i], 15);
    }
    let e = c.base[k] as u64 + cur(&mut jit, &c, k);
    check(e >= a + n as u64, 16);
    observe(a - c.base[0] as u64);
}
/// @for n in 255 256 257 1000 4100
#[no_mangle]
pub extern "C" fn h_c10_big_@n() {
    big_area(@n, choice(22, 2));
}
/// @end
