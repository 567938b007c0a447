/// Everything a new memory needs: each page readable and writable, the code pages executable.
fn usable(jit: &mut JitMemory) {
    let k = choice(21, 3) as usize;
    let base = &mut jit[Page(k)][Pos::from(0)] as *mut u8;
    check(!base.is_null(), 10);
    let a = at(base, any(1, 28));
    check(prot(a as u64) == if k < 2 { 7 } else { 3 }, 11);
    check(alive(a as u64) == 1, 12);
    let v = any(2, 8) as u8;
    unsafe { *a = v };
    check(rd(a) == v, 13);
}

/// a failing protection change: the creation panics or does not depend on it
#[no_mangle]
pub extern "C" fn h_c28_protect() {
    let n = choice(1, 5);
    fault_protect(n);
    panic_if(false, n != 0);
    let mut jit = if choice(2, 2) == 0 { JitMemory::new() } else { JitMemory::default() };
    panic_end();
    fault_protect(0);
    usable(&mut jit);
}

/// the first creation panics or not, the second meets the failure
#[no_mangle]
pub extern "C" fn h_c28_second() {
    let mut first = JitMemory::new();
    first.emitl(any(5, 32) as u32);
    if choice(3, 2) == 1 {
        first.finalize();
    }
    let n = choice(1, 4);
    let m = choice(4, 2);
    fault_protect(n);
    fault_alloc(m);
    panic_if(m == 1, (n != 0) | (m != 0));
    let mut jit = JitMemory::new();
    panic_end();
    fault_protect(0);
    fault_alloc(0);
    if choice(6, 2) == 0 {
        usable(&mut jit);
    } else {
        usable(&mut first);
    }
}

/// no memory
#[no_mangle]
pub extern "C" fn h_c28_alloc() {
    let n = choice(1, 2);
    fault_alloc(n);
    panic_if(n == 1, n == 1);
    let mut jit = if choice(2, 2) == 0 { JitMemory::new() } else { JitMemory::default() };
    panic_end();
    fault_alloc(0);
    usable(&mut jit);
}

/// nothing behind the creation asks for protection changes: they cannot fail it
#[no_mangle]
pub extern "C" fn h_c28_use() {
    let mut jit = JitMemory::new();
    fault_protect(1);
    let l = jit.label();
    let c = jit.const_i64(any(3, 64) as i64);
    let d = jit.data(8);
    monoasm!(&mut jit, jmp l; lea rax, [rip + c]; l: lea rax, [rip + d]; ret;);
    jit.select_page(choice(22, 2) as usize);
    monoasm!(&mut jit, jmp l;);
    jit.finalize();
    check(jit.get_label_u64(c) != jit.get_label_u64(d), 20);
    fault_protect(0);
    usable(&mut jit);
}
