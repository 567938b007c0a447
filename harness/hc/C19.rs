/// Expressions of several tokens keep their value as a whole, in every kind of operand.
fn next(jit: &JitMemory, base: *mut u8, off: &mut usize) -> Ins {
    let end = jit.get_current();
    check(*off < end, 1);
    let n = if end - *off < 15 { end - *off } else { 15 };
    let (b, n) = grab(base, *off, *off + n);
    let d = decode(&b, n);
    check(d.op != BAD, 2);
    *off += d.len;
    check(*off <= end, 3);
    d
}

#[no_mangle]
pub extern "C" fn h_c19_displacement_expressions() {
    let b = any(1, 4);
    let (p, q) = (any(2, 30) as i32, any(3, 30) as i32);
    let (mut jit, base) = new();
    let k = choice(10, 6);
    match k {
        0 => monoasm!(&mut jit, movq rax, [R(b) + (p + q)]; movq rax, [R(b) - (p + q)];),
        1 => monoasm!(&mut jit, movq rax, [R(b) + (p - q)]; movq rax, [R(b) - (p - q)];),
        2 => monoasm!(&mut jit, movq rax, [R(b) + (p | q)]; movq rax, [R(b) - (p | q)];),
        3 => monoasm!(&mut jit, movq rax, [R(b) + (-p)]; movq rax, [R(b) - (-p)];),
        4 => monoasm!(&mut jit, movq rax, [R(b) + (p & !q)]; movq rax, [R(b) - (p & !q)];),
        _ => monoasm!(&mut jit, movq rax, [R(b) + ((p ^ q).wrapping_neg())]; movq rax, [R(b) - ((p ^ q).wrapping_neg())];),
    }
    let want = match k {
        0 => p + q,
        1 => p - q,
        2 => p | q,
        3 => -p,
        4 => p & !q,
        _ => -(p ^ q),
    } as i64;
    let mut off = 0;
    let d = next(&jit, base, &mut off);
    check(d.op == MOV, 4);
    is_mem(&d.b, b, 17, 0, want, 10);
    let d = next(&jit, base, &mut off);
    is_mem(&d.b, b, 17, 0, -want, 20);
    check(off == jit.get_current(), 5);
}

#[no_mangle]
pub extern "C" fn h_c19_indexed_displacement_expressions() {
    let b = any(1, 4);
    let x = any(4, 4);
    assume(x != 4);
    let (p, q) = (any(2, 30) as i32, any(3, 30) as i32);
    let (mut jit, base) = new();
    let k = choice(10, 3);
    match k {
        0 => monoasm!(&mut jit, addl [R(b) + R(x)*4 + (p + q)], R(b); addl [R(b) + R(x)*4 - (p + q)], R(b);),
        1 => monoasm!(&mut jit, addl [R(b) + R(x)*4 + (p - q)], R(b); addl [R(b) + R(x)*4 - (p - q)], R(b);),
        _ => monoasm!(&mut jit, addl [R(b) + R(x)*4 + (p | q)], R(b); addl [R(b) + R(x)*4 - (p | q)], R(b);),
    }
    let want = match k {
        0 => p + q,
        1 => p - q,
        _ => p | q,
    } as i64;
    let mut off = 0;
    let d = next(&jit, base, &mut off);
    check(d.op == ADD, 4);
    is_mem(&d.a, b, x, 2, want, 10);
    let d = next(&jit, base, &mut off);
    is_mem(&d.a, b, x, 2, -want, 20);
    check(off == jit.get_current(), 5);
}

/// a displacement of another integer type: the value converted to 32 bits, then negated
/// @for n,t in i64,i64 u8,u8 i8,i8 u16,u16 usize,usize u32,u32
#[no_mangle]
pub extern "C" fn h_c19_displacement_type_@n() {
    let b = any(1, 4);
    let p = any(2, 64) as @t;
    assume(p as i32 != i32::MIN);
    let (mut jit, base) = new();
    monoasm!(&mut jit, movq rax, [R(b) + (p)]; movq rax, [R(b) - (p)];);
    let want = p as i32 as i64;
    let mut off = 0;
    let d = next(&jit, base, &mut off);
    is_mem(&d.b, b, 17, 0, want, 10);
    let d = next(&jit, base, &mut off);
    is_mem(&d.b, b, 17, 0, -want, 20);
}
#[no_mangle]
pub extern "C" fn h_c19_immediate_type_@n() {
    let r = any(1, 4);
    let p = any(2, 64) as @t;
    let (mut jit, base) = new();
    monoasm!(&mut jit, movq R(r), (p); movq R(r), qword (p););
    let want = p as i64;
    let mut off = 0;
    let d = next(&jit, base, &mut off);
    is_movimm64(&d, r, want);
    let d = next(&jit, base, &mut off);
    is_movimm64(&d, r, want);
    let fits = fits32(want);
    panic_if(!fits, !fits);
    monoasm!(&mut jit, subq R(r), (p););
    panic_end();
    let d = next(&jit, base, &mut off);
    is_op(&d, SUB, 8);
    is_imm(&d.b, want, 8, 40);
}
/// @end

#[no_mangle]
pub extern "C" fn h_c19_immediate_expressions() {
    let r = any(1, 4);
    let (p, q) = (any(2, 29) as i32 - (1 << 28), any(3, 28) as i32);
    let (mut jit, base) = new();
    let k = choice(10, 5);
    match k {
        0 => monoasm!(&mut jit, addq R(r), (p + q); movl R(r), (p + q); movq R(r), (p + q); cmpl [R(r)], (p + q); testq R(r), (p + q);),
        1 => monoasm!(&mut jit, addq R(r), (p - q); movl R(r), (p - q); movq R(r), (p - q); cmpl [R(r)], (p - q); testq R(r), (p - q);),
        2 => monoasm!(&mut jit, addq R(r), (p | q); movl R(r), (p | q); movq R(r), (p | q); cmpl [R(r)], (p | q); testq R(r), (p | q);),
        3 => monoasm!(&mut jit, addq R(r), (-q); movl R(r), (-q); movq R(r), (-q); cmpl [R(r)], (-q); testq R(r), (-q);),
        _ => monoasm!(&mut jit, addq R(r), (p ^ q); movl R(r), (p ^ q); movq R(r), (p ^ q); cmpl [R(r)], (p ^ q); testq R(r), (p ^ q);),
    }
    let want = match k {
        0 => p + q,
        1 => p - q,
        2 => p | q,
        3 => -q,
        _ => p ^ q,
    } as i64;
    let mut off = 0;
    let d = next(&jit, base, &mut off);
    is_op(&d, ADD, 8);
    is_imm(&d.b, want, 8, 10);
    let d = next(&jit, base, &mut off);
    is_op(&d, MOV, 4);
    is_imm(&d.b, want, 4, 20);
    let d = next(&jit, base, &mut off);
    is_movimm64(&d, r, want);
    let d = next(&jit, base, &mut off);
    is_op(&d, CMP, 4);
    is_imm(&d.b, want, 4, 30);
    let d = next(&jit, base, &mut off);
    is_op(&d, TEST, 8);
    is_imm(&d.b, want, 8, 40);
}

#[no_mangle]
pub extern "C" fn h_c19_small_immediate_expressions() {
    let r = any(1, 4);
    let (p, q) = (any(2, 5) as i32, any(3, 5) as i32);
    let (s, t) = (any(4, 8) as u8, any(5, 8) as u8);
    let (mut jit, base) = new();
    let k = choice(10, 3);
    match k {
        0 => monoasm!(&mut jit, shlq R(r), (p + q); addb R(r), (p + q); movb [R(r)], (p + q); movw R(r), (p + q); rorl R(r), (p + q); roundpd xmm1, xmm2, (s & t); call (p as i64 + 77);),
        1 => monoasm!(&mut jit, shlq R(r), (p | q); addb R(r), (p | q); movb [R(r)], (p | q); movw R(r), (p | q); rorl R(r), (p | q); roundpd xmm1, xmm2, (s | t); call (p as i64 | 64);),
        _ => monoasm!(&mut jit, shlq R(r), (p & q); addb R(r), (p & q); movb [R(r)], (p & q); movw R(r), (p & q); rorl R(r), (p & q); roundpd xmm1, xmm2, (s ^ t); call (p as i64 - 99);),
    }
    let want = match k {
        0 => p + q,
        1 => p | q,
        _ => p & q,
    } as i64;
    let mut off = 0;
    let d = next(&jit, base, &mut off);
    is_op(&d, SHL, 8);
    check((d.b.val ^ want) & 63 == 0, 10);
    let d = next(&jit, base, &mut off);
    is_op(&d, ADD, 1);
    is_imm(&d.b, want, 1, 20);
    let d = next(&jit, base, &mut off);
    is_op(&d, MOV, 1);
    is_imm(&d.b, want, 1, 30);
    let d = next(&jit, base, &mut off);
    is_op(&d, MOV, 2);
    is_imm(&d.b, want, 2, 40);
    let d = next(&jit, base, &mut off);
    is_op(&d, ROR, 4);
    check((d.b.val ^ want) & 31 == 0, 50);
    let d = next(&jit, base, &mut off);
    check(d.op == ROUNDPD, 4);
    check(d.c == (match k { 0 => s & t, 1 => s | t, _ => s ^ t }) as i64, 60);
    let d = next(&jit, base, &mut off);
    check(d.op == CALL, 4);
    check(d.a.val == (match k { 0 => p as i64 + 77, 1 => p as i64 | 64, _ => p as i64 - 99 }), 70);
    check(off == jit.get_current(), 5);
}

#[no_mangle]
pub extern "C" fn h_c19_register_expressions() {
    let (r, s) = (any(1, 4), any(2, 4));
    let f = |x: u64| 15 - x;
    let arr = [3u64, 9, 12, 0];
    let i = any(3, 2) as usize;
    let (mut jit, base) = new();
    monoasm!(&mut jit,
        movq R(r ^ 1), R(15 - s);
        addl [R(f(r)) + 4], R(arr[i]);
        addsd xmm(s | 8), xmm(r & 7);
        movq xmm(15 - r), R(if r == s { 7 } else { 11 });
        cmovneq R((r + 1) & 15), [R(f(s))];
        pushq R(match s { 0 => 15, _ => s - 1 });
    );
    let mut off = 0;
    let d = next(&jit, base, &mut off);
    is_op(&d, MOV, 8);
    is_gpr(&d.a, r ^ 1, 10);
    is_gpr(&d.b, 15 - s, 12);
    let d = next(&jit, base, &mut off);
    is_mem(&d.a, 15 - r, 17, 0, 4, 20);
    is_gpr(&d.b, arr[i], 24);
    let d = next(&jit, base, &mut off);
    is_xmm(&d.a, s | 8, 30);
    is_xmm(&d.b, r & 7, 32);
    let d = next(&jit, base, &mut off);
    is_xmm(&d.a, 15 - r, 40);
    is_gpr(&d.b, if r == s { 7 } else { 11 }, 42);
    let d = next(&jit, base, &mut off);
    is_gpr(&d.a, (r + 1) & 15, 50);
    is_mem(&d.b, 15 - s, 17, 0, 0, 52);
    let d = next(&jit, base, &mut off);
    is_gpr(&d.a, if s == 0 { 15 } else { s - 1 }, 60);
    check(off == jit.get_current(), 5);
}

/// an expression may refer to items and variables of several surrounding scopes
const K19: i64 = 0x1234;
#[no_mangle]
pub extern "C" fn h_c19_scopes() {
    let a = any(1, 31) as i64;
    let (mut jit, base) = new();
    let mut off = 0;
    for i in 0..3i64 {
        let b = a + i;
        {
            let a = b * 2;
            monoasm!(&mut jit, movq rax, (a); addq rcx, (i); movl rdx, (K19 + i););
        }
        let d = next(&jit, base, &mut off);
        is_movimm64(&d, 0, b * 2);
        let d = next(&jit, base, &mut off);
        is_imm(&d.b, i, 8, 10);
        let d = next(&jit, base, &mut off);
        is_imm(&d.b, 0x1234 + i, 4, 20);
    }
    check(off == jit.get_current(), 5);
}
