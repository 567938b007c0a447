/// literal displacements and scales
/// @for i,t,b,x,s,d in 0,[rax+0],0,17,0,0 1,[rbx+0x10],3,17,0,16 2,[r13-0x80],13,17,0,-128 3,[RSP+1_000],4,17,0,1000 4,[r12-1_0],12,17,0,-10 5,[rbp+rax*1+0xff],5,0,0,255 6,[RSI+R15*2-0x7f],6,15,1,-127 7,[r8+rdi*4+2147483647],8,7,2,2147483647 8,[rdx+R(9)*8-2147483647],2,9,3,-2147483647 9,[rip+0x1234],16,17,0,0x1234 10,[RIP-4],16,17,0,-4 11,[rcx+rcx],1,1,0,0 12,[rdi],7,17,0,0 13,[RIP],16,17,0,0 14,[r9+0b1010],9,17,0,10 15,[r10+0o17],10,17,0,15 16,[r14-0],14,17,0,0 17,[R11+RBP*8],11,5,3,0 18,[rax+127],0,17,0,127 19,[rax+128],0,17,0,128 20,[rax-129],0,17,0,-129 21,[rsp-8],4,17,0,-8
#[no_mangle]
pub extern "C" fn h_c21_address_@i() {
    let r = any(1, 4);
    let (mut jit, base) = new();
    monoasm!(&mut jit, movq R(r), @t;);
    let d = one(&jit, base);
    is_op(&d, MOV, 8);
    is_gpr(&d.a, r, 10);
    is_mem(&d.b, @b, @x, @s, @d, 20);
}
/// @end

/// literal immediates
/// @for i,v in 0,0 1,1 2,0x7f 3,1_0_0 4,0b101 5,0o17 6,0x0a 7,127
#[no_mangle]
pub extern "C" fn h_c21_immediate_@i() {
    let (mut jit, base) = new();
    match choice(1, 5) {
        0 => monoasm!(&mut jit, addb rbx, @v;),
        1 => monoasm!(&mut jit, cmpq [rbx], @v;),
        2 => monoasm!(&mut jit, movw rbx, @v;),
        3 => monoasm!(&mut jit, movl [rbx], @v;),
        _ => monoasm!(&mut jit, testb rbx, @v;),
    }
    let d = one(&jit, base);
    check(d.b.kind == K_IMM, 10);
    check(d.b.val == @v, 11);
}
/// @end
/// @for i,v in 0,0x7fff_ffff 1,2147483647 2,0x8000 3,65_536 4,128 5,255 6,300
#[no_mangle]
pub extern "C" fn h_c21_immediate32_@i() {
    let (mut jit, base) = new();
    match choice(1, 4) {
        0 => monoasm!(&mut jit, subq rbx, @v;),
        1 => monoasm!(&mut jit, movl r9, @v;),
        2 => monoasm!(&mut jit, movq [r9], @v;),
        _ => monoasm!(&mut jit, testq rcx, @v;),
    }
    let d = one(&jit, base);
    check(d.b.kind == K_IMM, 10);
    check(d.b.val as i32 == @v, 11);
}
/// @end
/// @for i,v in 0,0x7fff_ffff_ffff_ffff 1,4294967296 2,0x1_0000_0000 3,0xdead_beef_cafe 4,2147483648 5,4294967295 6,0
#[no_mangle]
pub extern "C" fn h_c21_immediate64_@i() {
    let r = any(1, 4);
    let (mut jit, base) = new();
    if choice(2, 2) == 0 {
        monoasm!(&mut jit, movq R(r), (@v_i64););
    } else {
        monoasm!(&mut jit, movq R(r), qword (@v_i64););
    }
    let d = one(&jit, base);
    is_movimm64(&d, r, @v_i64);
}
/// @end

/// dq constants
/// @for i,v in 0,0 1,1 2,0x1234_5678_9abc_def0 3,9223372036854775807 4,1_000_000_000_000 5,0b11 6,0xff 7,0x8000_0000 8,4294967296
#[no_mangle]
pub extern "C" fn h_c21_dq_int_@i() {
    let p = any_pos(50, 64);
    let (mut jit, c) = placed(p);
    let k = choice(60, 2) as usize;
    jit.select_page(k);
    monoasm!(&mut jit, dq @v;);
    check(jit.get_current() as u64 == p[k] + 8, 10);
    check(rdn(at(c.base[k], p[k]), 8) == @v_u64, 11);
}
/// @end
/// @for i,v in 0,0.0 1,1.0 2,1.5 3,3.141592653589793 4,1e300 5,5e-324 6,1.7976931348623157e308 7,0.1 8,123_456.789 9,2.2250738585072014e-308 10,1E-5 11,16777217.0 12,9007199254740993.0
#[no_mangle]
pub extern "C" fn h_c21_dq_float_@i() {
    let p = any_pos(50, 64);
    let (mut jit, c) = placed(p);
    let k = choice(60, 2) as usize;
    jit.select_page(k);
    monoasm!(&mut jit, dq @v;);
    check(jit.get_current() as u64 == p[k] + 8, 10);
    check(rdn(at(c.base[k], p[k]), 8) == (@v_f64).to_bits(), 11);
}
/// @end

/// cl as a shift count, in either case
/// @for i,t,o,w in shlq,shlq,SHL,8 shll,shll,SHL,4 salq,salq,SHL,8 sall,sall,SHL,4 shrq,shrq,SHR,8 shrl,shrl,SHR,4 sarq,sarq,SAR,8 sarl,sarl,SAR,4 rolq,rolq,ROL,8 roll,roll,ROL,4 rorq,rorq,ROR,8 rorl,rorl,ROR,4
#[no_mangle]
pub extern "C" fn h_c21_cl_@i() {
    let r = any(1, 4);
    let (mut jit, base) = new();
    match choice(2, 4) {
        0 => monoasm!(&mut jit, @t R(r), cl;),
        1 => monoasm!(&mut jit, @t R(r), CL;),
        2 => monoasm!(&mut jit, @t R(r), rcx;),
        _ => monoasm!(&mut jit, @t R(r), RCX;),
    }
    let d = one(&jit, base);
    is_op(&d, @o, @w);
    is_gpr(&d.a, r, 10);
    is_gpr(&d.b, 1, 20);
}
/// @end
