// What dump_code() uses of the operating system: one file system with a few files, pipes and a process that
// stands in for objdump.  The stand-in prints, in the layout of objdump, lines that spell the bytes of the
// file it is given.  The same stand-in serves the symbolic and the native run.
#[allow(static_mut_refs)]
pub mod os {
    pub struct File {
        pub path: [u8; 256],
        pub len: usize,
        pub data: Vec<u8>,
        pub there: bool,
    }
    /// an open descriptor: 0 closed, 1 file, 2 reading end of a pipe, 3 writing end, 4 /dev/null
    #[derive(Clone, Copy)]
    pub struct Fd {
        pub kind: u8,
        pub no: usize,
        pub pos: usize,
    }
    pub const FIRST: usize = 600;
    pub static mut ON: bool = false;
    pub static mut FILES: Vec<File> = vec![];
    pub static mut FDS: [Fd; 96] = [Fd { kind: 0, no: 0, pos: 0 }; 96];
    pub static mut NFD: usize = 0;
    pub static mut PIPES: Vec<Vec<u8>> = vec![];
    pub static mut STDOUT: i32 = -1;
    /// the child was started, and how it ends
    pub static mut STARTED: usize = 0;
    pub static mut RUNS: usize = 0;
    /// no such program
    pub static mut MISSING: bool = false;
    /// files cannot be created
    pub static mut FULL: bool = false;
    pub static mut STATUS: i32 = 0;
    pub static mut WAITED: usize = 0;

    pub unsafe fn fd(f: i32) -> Option<&'static mut Fd> {
        let i = (f as usize).wrapping_sub(FIRST);
        if ON && f >= FIRST as i32 && i < NFD && FDS[i].kind != 0 {
            Some(&mut FDS[i])
        } else {
            None
        }
    }
    pub unsafe fn open_fd(kind: u8, no: usize) -> i32 {
        if NFD == FDS.len() {
            return -1;
        }
        FDS[NFD] = Fd { kind, no, pos: 0 };
        NFD += 1;
        (FIRST + NFD - 1) as i32
    }
    /// the number of the file of this name
    pub unsafe fn file(p: *const u8) -> Option<usize> {
        let mut k = 0;
        while k < FILES.len() {
            if FILES[k].there {
                let mut i = 0;
                loop {
                    let c = *p.add(i);
                    let d = if i < FILES[k].len { FILES[k].path[i] } else { 0 };
                    if c != d {
                        break;
                    }
                    if c == 0 {
                        return Some(k);
                    }
                    i += 1;
                }
            }
            k += 1;
        }
        None
    }
    pub unsafe fn is(p: *const u8, s: &[u8]) -> bool {
        let mut i = 0;
        while i < s.len() {
            if *p.add(i) != s[i] {
                return false;
            }
            i += 1;
        }
        *p.add(s.len()) == 0
    }
    pub unsafe fn has(p: *const u8, s: &[u8]) -> bool {
        let mut i = 0;
        while *p.add(i) != 0 {
            let mut j = 0;
            while j < s.len() && *p.add(i + j) == s[j] {
                j += 1;
            }
            if j == s.len() {
                return true;
            }
            i += 1;
        }
        false
    }
    /// files that exist
    pub unsafe fn left() -> usize {
        let mut n = 0;
        let mut k = 0;
        while k < FILES.len() {
            n += FILES[k].there as usize;
            k += 1;
        }
        n
    }
    /// the line about byte i
    pub fn line(out: &mut Vec<u8>, i: usize, b: u8) {
        out.extend_from_slice(b"    ");
        out.push(b'a' + (i / 16 % 26) as u8);
        out.push(b'a' + (i % 16) as u8);
        out.extend_from_slice(b":\t");
        out.push(0x30 | b >> 4);
        out.push(0x30 | b & 15);
        out.extend_from_slice(match i % 5 {
            0 => b"                   \tret\n" as &[u8],
            1 => b" \tmov    rax,QWORD PTR [rbx+0x8]\n",
            2 => b" \t(bad)\n",
            3 => b" \tdata16\n\t...\n",
            _ => b"\n",
        });
    }
    #[cfg(feature = "native")]
    pub unsafe fn raw(n: i64, a: u64, b: u64, c: u64, d: u64) -> i64 {
        let r = libc::syscall(n, a, b, c, d);
        r
    }
    #[cfg(not(feature = "native"))]
    pub unsafe fn raw(_n: i64, _a: u64, _b: u64, _c: u64, _d: u64) -> i64 {
        -1
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
        if !ON {
            return raw(2, p as u64, flags as u64, mode as u64, 0) as i32;
        }
        if is(p, b"/dev/null") {
            return open_fd(4, 0);
        }
        if let Some(k) = file(p) {
            if flags & 0o300 == 0o300 {
                return -1;
            }
            if flags & 0o1000 != 0 {
                FILES[k].data.clear();
            }
            return open_fd(1, k);
        }
        if flags & 0o100 == 0 || FULL {
            return -1;
        }
        let mut f = File { path: [0; 256], len: 0, data: vec![], there: true };
        while *p.add(f.len) != 0 {
            f.path[f.len] = *p.add(f.len);
            f.len += 1;
        }
        FILES.push(f);
        open_fd(1, FILES.len() - 1)
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(f: i32) -> i32 {
        match fd(f) {
            Some(d) => {
                d.kind = 0;
                0
            }
            None => raw(3, f as u64, 0, 0, 0) as i32,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(f: i32, p: *const u8, n: usize) -> isize {
        match fd(f) {
            Some(d) if d.kind == 1 => {
                let b = core::slice::from_raw_parts(p, n);
                let t = &mut FILES[d.no].data;
                let mut i = 0;
                while i < n {
                    if d.pos < t.len() {
                        t[d.pos] = b[i];
                    } else {
                        t.push(b[i]);
                    }
                    d.pos += 1;
                    i += 1;
                }
                n as isize
            }
            Some(d) if d.kind == 4 => n as isize,
            Some(_) => -1,
            None => raw(1, f as u64, p as u64, n as u64, 0) as isize,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(f: i32, p: *mut u8, n: usize) -> isize {
        match fd(f) {
            Some(d) if d.kind == 1 || d.kind == 2 => {
                let s = if d.kind == 1 { &FILES[d.no].data } else { &PIPES[d.no] };
                let mut i = 0;
                while i < n && d.pos < s.len() {
                    *p.add(i) = s[d.pos];
                    d.pos += 1;
                    i += 1;
                }
                i as isize
            }
            Some(d) if d.kind == 4 => 0,
            Some(_) => -1,
            None => raw(0, f as u64, p as u64, n as u64, 0) as isize,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(f: i32, off: i64, whence: i32) -> i64 {
        match fd(f) {
            Some(d) if d.kind == 1 => {
                let from = [0, d.pos as i64, FILES[d.no].data.len() as i64][whence as usize % 3];
                d.pos = (from + off) as usize;
                d.pos as i64
            }
            Some(_) => -1,
            None => raw(8, f as u64, off as u64, whence as u64, 0),
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
        if !ON {
            return raw(87, p as u64, 0, 0, 0) as i32;
        }
        match file(p) {
            Some(k) => {
                FILES[k].there = false;
                0
            }
            None => -1,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl(f: i32, op: i32, arg: u64) -> i32 {
        match fd(f) {
            Some(_) => 0,
            None => raw(72, f as u64, op as u64, arg, 0) as i32,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn ioctl(f: i32, op: u64, arg: u64) -> i32 {
        match fd(f) {
            Some(_) => 0,
            None => raw(16, f as u64, op, arg, 0) as i32,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn pipe2(p: *mut i32, flags: i32) -> i32 {
        if !ON {
            return raw(293, p as u64, flags as u64, 0, 0) as i32;
        }
        PIPES.push(vec![]);
        *p = open_fd(2, PIPES.len() - 1);
        *p.add(1) = open_fd(3, PIPES.len() - 1);
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn poll(p: *mut [u8; 8], n: u64, t: i32) -> i32 {
        if !ON {
            return raw(7, p as u64, n, t as u64, 0) as i32;
        }
        let mut i = 0;
        while i < n as usize {
            // revents = POLLIN
            (*p.add(i))[6] = 1;
            (*p.add(i))[7] = 0;
            i += 1;
        }
        n as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawn_file_actions_init(_a: *mut u8) -> i32 {
        STDOUT = -1;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawn_file_actions_destroy(_a: *mut u8) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(_a: *mut u8, from: i32, to: i32) -> i32 {
        if to == 1 {
            STDOUT = from;
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnattr_init(_a: *mut u8) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnattr_destroy(_a: *mut u8) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnattr_setflags(_a: *mut u8, _f: i16) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnattr_setsigdefault(_a: *mut u8, _s: *const u8) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnattr_setsigmask(_a: *mut u8, _s: *const u8) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnattr_setpgroup(_a: *mut u8, _p: i32) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnp(pid: *mut i32, prog: *const u8, _fa: *const u8, _at: *const u8, argv: *const *const u8, _env: *const *const u8) -> i32 {
        if MISSING {
            return 2;
        }
        *pid = 4711;
        STARTED += 1;
        let out = match fd(STDOUT) {
            Some(d) if d.kind == 3 => d.no,
            _ => return 0,
        };
        let mut input = None;
        let (mut all, mut raw, mut x64) = (false, false, false);
        let mut i = 1;
        while !(*argv.add(i)).is_null() {
            let a = *argv.add(i);
            let prev = if i > 1 { *argv.add(i - 1) } else { b"\0".as_ptr() };
            if let Some(k) = file(a) {
                input = Some(k);
            }
            all |= is(a, b"-D") | is(a, b"--disassemble-all");
            raw |= is(a, b"-bbinary") | is(a, b"--target=binary") | (is(a, b"binary") && (is(prev, b"-b") || is(prev, b"--target")));
            x64 |= has(a, b"x86-64");
            i += 1;
        }
        let objdump = is(prog, b"objdump") || has(prog, b"/objdump");
        let o = &mut PIPES[out];
        if let (true, true, true, Some(k)) = (objdump, all, raw, input) {
            RUNS += 1;
            o.extend_from_slice(b"\n");
            o.extend_from_slice(&FILES[k].path[..FILES[k].len]);
            o.extend_from_slice(b":     file format binary\n\n\nDisassembly of section .data:\n\n0000000000000000 <.data>:\n");
            let mut j = 0;
            while j < FILES[k].data.len() {
                // without x86-64 the bytes are read as 32-bit code
                line(o, j, FILES[k].data[j] ^ if x64 { 0 } else { 0xff });
                j += 1;
            }
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn waitpid(pid: i32, status: *mut i32, flags: i32) -> i32 {
        if !ON {
            return raw(61, pid as u64, status as u64, flags as u64, 0) as i32;
        }
        WAITED += 1;
        *status = STATUS;
        pid
    }
}

/// further functions of the C library; the native run uses the real ones
#[cfg(not(feature = "native"))]
mod rest {
    #[no_mangle]
    pub unsafe extern "C" fn getenv(_p: *const u8) -> *const u8 {
        core::ptr::null()
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut i64) -> i32 {
        *t = 1_700_000_000;
        *t.add(1) = 1234;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
        let mut i = 0;
        while i < n {
            *p.add(i) = i as u8;
            i += 1;
        }
        n as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn gettid() -> i32 {
        4710
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> i32 {
        4710
    }
    #[no_mangle]
    pub unsafe extern "C" fn gnu_get_libc_version() -> *const u8 {
        b"2.39\0".as_ptr()
    }
    #[no_mangle]
    pub unsafe extern "C" fn strlen(p: *const u8) -> usize {
        let mut n = 0;
        while core::ptr::read_volatile(p.add(n)) != 0 {
            n += 1;
        }
        n
    }
    #[no_mangle]
    pub unsafe extern "C" fn sigemptyset(_s: *mut u8) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn sigaddset(_s: *mut u8, _n: i32) -> i32 {
        0
    }
    #[no_mangle]
    pub static mut environ: *const *const u8 = core::ptr::null();
    #[no_mangle]
    pub unsafe extern "C" fn pthread_key_create(k: *mut u32, _d: *const u8) -> i32 {
        static mut NEXT: u32 = 1;
        *k = NEXT;
        NEXT += 1;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_key_delete(_k: u32) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_setspecific(_k: u32, _v: *const u8) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn __cxa_thread_atexit_impl(_f: *const u8, _a: *mut u8, _d: *mut u8) -> i32 {
        0
    }
}

/// the text for these bytes
fn listing(base: *mut u8, from: u64, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        os::line(&mut v, i, rd(at(base, from + i as u64)));
        i += 1;
    }
    v
}

fn agree(s: &str, want: &[u8]) {
    check(s.len() == want.len(), 10);
    let mut i = 0;
    while i < want.len() {
        check(s.as_bytes()[i] == want[i], 11);
        i += 1;
    }
}

/// `n` arbitrary bytes at the cursor
fn fill(jit: &mut JitMemory, n: usize, v: u64) {
    let mut i = 0;
    while i < n {
        jit.emitb((v >> (i % 8 * 8)) as u8);
        i += 1;
    }
}

/// The listing of what was finalized last in the selected page: `first` bytes of an earlier block or none, `n`
/// bytes, constants, code emitted since.
#[inline(never)]
fn dump(first: usize, n: usize, k: usize, m: usize) {
    let p = any_pos(50, 8192);
    let (mut jit, c) = placed(p);
    // the block begins at the first cursor
    jit.finalize();
    jit.select_page(k);
    if first != 0 {
        fill(&mut jit, first, any(1, 64));
        if choice(20, 2) == 1 {
            jit.const_i32(any(2, 32) as i32);
        }
        jit.finalize();
    }
    let from = jit.get_current() as u64;
    fill(&mut jit, n, any(3, 64));
    jit.select_page(1 - k);
    fill(&mut jit, m, any(4, 64));
    match choice(21, 3) {
        0 => {}
        1 => {
            jit.const_i64(any(5, 64) as i64);
        }
        _ => {
            jit.select_page(k);
            jit.const_i64(any(5, 64) as i64);
            jit.data_i32(7);
        }
    }
    jit.finalize();
    jit.select_page(k);
    if choice(22, 2) == 1 {
        // not part of a block yet
        jit.emitl(any(6, 32) as u32);
    }
    let want = listing(c.base[k], from, n);
    unsafe { os::ON = true };
    let r = jit.dump_code();
    let left = unsafe { os::left() };
    unsafe { os::ON = false };
    check(r.is_ok(), 12);
    agree(&r.unwrap(), &want);
    // nothing is left behind
    check(left == 0, 13);
    observe(n as u64);
}
/// @for n in 0 1 2 3 5 8
#[no_mangle]
pub extern "C" fn h_c22_dump_@n() {
    dump(0, @n, choice(23, 2) as usize, 3);
}
#[no_mangle]
pub extern "C" fn h_c22_second_@n() {
    dump(3, @n, choice(23, 2) as usize, 0);
}
/// @end
/// @for n in 33 100 200
#[no_mangle]
pub extern "C" fn h_c22_long_@n() {
    dump(5, @n, 1, 2);
}
/// @end
/// @thorough
#[no_mangle]
pub extern "C" fn h_c22_long_700() {
    dump(40, 700, 0, 70);
}
/// @end

/// A fresh memory with instructions.
#[no_mangle]
pub extern "C" fn h_c22_instructions() {
    let (mut jit, base) = new();
    let (r1, r2, d) = (any(1, 4), any(2, 4), any(3, 32) as i32);
    monoasm!(&mut jit, movq R(r1), [R(r2) + (d)]; addl R(r2), 0x55aa55; ret;);
    let n = jit.get_current();
    jit.finalize();
    let want = listing(base, 0, n);
    unsafe { os::ON = true };
    let r = jit.dump_code();
    // and again
    let q = jit.dump_code();
    let left = unsafe { os::left() };
    unsafe { os::ON = false };
    check(r.is_ok() & q.is_ok(), 12);
    agree(&r.unwrap(), &want);
    agree(&q.unwrap(), &want);
    check(left == 0, 13);
}

/// Where the disassembler or the file is not to be had, the caller gets an error.
#[no_mangle]
pub extern "C" fn h_c22_unavailable() {
    let (mut jit, base) = new();
    fill(&mut jit, 4, any(1, 64));
    jit.finalize();
    let k = choice(20, 3);
    unsafe {
        os::ON = true;
        os::MISSING = k != 1;
        os::FULL = k != 0;
    }
    let r = jit.dump_code();
    unsafe {
        os::MISSING = false;
        os::FULL = false;
    }
    let bad = r.is_err();
    // and it still works afterwards
    let q = jit.dump_code();
    let left = unsafe { os::left() };
    unsafe { os::ON = false };
    check(bad, 14);
    check(q.is_ok(), 15);
    agree(&q.unwrap(), &listing(base, 0, 4));
    check(left == 0, 13);
}
