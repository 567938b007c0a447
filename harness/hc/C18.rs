fn n(p: Pos) -> u64 {
    (p - Pos::from(0)) as u64
}

/// `rounds` finalizations; before each one the cursors advance by any amount and constants or data may
/// be requested in either page
#[inline(never)]
fn rounds(rounds: usize, first: u64) {
    let (mut jit, c) = newc();
    let mut at_ = [1u64; 3];
    let mut recs = [[(0u64, 0u64, 0u64); 3]; 4];
    for r in 0..rounds {
        for k in 0..3 {
            let d = any_max(10 + (r * 3 + k) as u32, 26, (1 << 26) - 4096);
            let to = at_[k] + d;
            move_cur(&mut jit, &c, k, at_[k], to);
            at_[k] = to;
        }
        let what = if r == 0 { first } else { choice(30 + r as u32, 5) };
        jit.select_page((what & 1) as usize);
        match what {
            0 => {}
            1 => {
                jit.emitb(0x55);
                at_[1] += 1;
            }
            2 => {
                jit.const_i64(1);
            }
            3 => {
                jit.const_i32(1);
                jit.data(5);
            }
            _ => {
                jit.data_i64(2);
                jit.const_align8();
            }
        }
        for k in 0..3 {
            check(cur(&mut jit, &c, k) == at_[k], 9);
        }
        let sel = choice(40 + r as u32, 2) as usize;
        jit.select_page(sel);
        jit.finalize();
        check(jit.get_page() == sel, 8);
        // the code slice, of whichever page is selected
        for k in [1 - sel, sel] {
            jit.select_page(k);
            let s = jit.as_slice();
            check(s.as_ptr() as u64 == c.base[k] as u64, 10);
            check(s.len() as u64 == at_[k], 11);
        }
        for k in 0..3 {
            let end = cur(&mut jit, &c, k);
            check(end >= at_[k], 12);
            let start = if r == 0 { 0 } else { recs[r - 1][k].2 };
            recs[r][k] = (start, at_[k], end);
            at_[k] = end;
            // all the records so far, in order
            check(jit[Page(k)].code_block.len() == r + 1, 20);
            for i in 0..r + 1 {
                let (a, b, e) = jit[Page(k)].code_block[i];
                check(n(a) == recs[i][k].0, 21);
                check(n(b) == recs[i][k].1, 22);
                check(n(e) == recs[i][k].2, 23);
            }
        }
        // emission goes on behind the constants
        let k = sel;
        let here = jit.get_current_address().as_ptr() as u64;
        check(here == c.base[k] as u64 + recs[r][k].2, 13);
        jit.emitb(0x77);
        check(rd(at(c.base[k], recs[r][k].2)) == 0x77, 14);
        at_[k] += 1;
    }
}
/// @for k in 0 1 2 3 4
#[no_mangle]
pub extern "C" fn h_c18_two_@k() {
    rounds(2, @k);
}
#[no_mangle]
pub extern "C" fn h_c18_three_@k() {
    rounds(3, @k);
}
/// @thorough
#[no_mangle]
pub extern "C" fn h_c18_four_@k() {
    rounds(4, @k);
}
/// @end
/// @end

/// real instructions: the slice holds what was emitted, and ends where the constants begin
#[no_mangle]
pub extern "C" fn h_c18_slice() {
    let mut jit = JitMemory::new();
    let k = choice(1, 2) as usize;
    jit.select_page(k);
    let r = any(2, 3);
    let v = any(3, 32) as i32;
    let l = jit.const_i64(any(4, 64) as i64);
    monoasm!(&mut jit, addq R(r), (v as i64); movq rax, [rip + l]; ret;);
    let m = jit.get_current();
    jit.finalize();
    let s = jit.as_slice();
    check(s.len() == m, 10);
    check(s[m - 1] == 0xc3, 11);
    let end = s.as_ptr() as u64 + m as u64;
    let a = jit.get_label_u64(l);
    check(a >= end, 13);
    // a second block
    let t = jit.get_current();
    monoasm!(&mut jit, leave; ret;);
    jit.finalize();
    let s = jit.as_slice();
    check(s.len() == t + 2, 14);
    check((s[t] == 0xc9) & (s[t + 1] == 0xc3), 15);
    let b = jit[Page(k)].code_block[1];
    check((n(b.0) == t as u64) & (n(b.1) == t as u64 + 2), 16);
    let b = jit[Page(1 - k)].code_block[1];
    check((n(b.0) == 0) & (n(b.1) == 0) & (n(b.2) == 0), 17);
}

/// many finalizations; the pages in turn, now and then without code, with constants in between
#[inline(never)]
fn many(rounds: usize, pattern: u64) {
    let (mut jit, c) = newc();
    let mut at_ = [1u64; 3];
    let mut recs = [[(0u64, 0u64, 0u64); 3]; 40];
    for r in 0..rounds {
        let k = match pattern {
            0 => 0,
            1 => 1,
            2 => r & 1,
            _ => (r / 3) & 1,
        };
        let d = any_max(10 + r as u32, 22, 1 << 22);
        move_cur(&mut jit, &c, k, at_[k], at_[k] + d);
        at_[k] += d;
        jit.select_page(if r % 5 == 3 { 1 - k } else { k });
        if r % 4 == 1 {
            jit.const_i64(r as i64);
        }
        if r % 7 == 2 {
            jit.data_i32(1);
        }
        jit.finalize();
        for j in 0..3 {
            let end = cur(&mut jit, &c, j);
            let start = if r == 0 { 0 } else { recs[r - 1][j].2 };
            recs[r][j] = (start, at_[j], end);
            at_[j] = end;
            check(jit[Page(j)].code_block.len() == r + 1, 20);
        }
        for j in 0..2 {
            jit.select_page(j);
            let s = jit.as_slice();
            check(s.as_ptr() as u64 == c.base[j] as u64, 10);
            check(s.len() as u64 == recs[r][j].1, 11);
        }
    }
    for j in 0..3 {
        for i in 0..rounds {
            let (a, b, e) = jit[Page(j)].code_block[i];
            check(n(a) == recs[i][j].0, 21);
            check(n(b) == recs[i][j].1, 22);
            check(n(e) == recs[i][j].2, 23);
        }
    }
}
/// @for k in 0 1 2 3
/// @quick
#[no_mangle]
pub extern "C" fn h_c18_many_@k() {
    many(10, @k);
}
/// @end
/// @thorough
#[no_mangle]
pub extern "C" fn h_c18_many_@k() {
    many(34, @k);
}
/// @end
/// @end
