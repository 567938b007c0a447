//! Runs one harness natively with the recorded values of a symbolic path.
//! usage: replay CASEFILE ; prints OBS lines and one RESULT line.
#![allow(dead_code, unused, non_snake_case)]
#[cfg(not(feature = "mac"))]
#[path = "../../src/dec.rs"]
pub mod dec;
#[path = "../../src/rt.rs"]
pub mod rt;
#[cfg(not(feature = "mac"))]
#[path = "../../src/util.rs"]
pub mod util;
pub mod gen {
    include!(concat!(env!("SYMX_GEN"), "/gen.rs"));
}

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static mut INPUTS: Vec<(u32, u32, u64)> = vec![];
static mut BASES: Vec<u64> = vec![];
static mut MEM: Vec<(usize, u64, u8)> = vec![];
static mut NEXT: usize = 0;
static NBIG: AtomicUsize = AtomicUsize::new(0);
static mut LO: Option<bool> = None;
static mut HI: Option<bool> = None;

fn finish(s: &str) -> ! {
    println!("RESULT {}", s);
    std::io::stdout().flush().ok();
    unsafe { libc::_exit(0) }
}

static FAULT: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
/// Is this the call that was chosen to fail?
fn fails(k: usize) -> bool {
    let n = FAULT[k].load(SeqCst);
    if n > 0 {
        FAULT[k].store(n - 1, SeqCst);
    }
    n == 1
}
unsafe fn set_prot(a: *mut libc::c_void, n: usize, p: i32) -> i64 {
    libc::syscall(libc::SYS_mprotect, a, n, p)
}
/// what the code under test calls
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut libc::c_void, n: usize, p: i32) -> i32 {
    if fails(0) {
        *libc::__errno_location() = libc::ENOMEM;
        return -1;
    }
    set_prot(a, n, p) as i32
}

struct A;
const BIG: usize = 1 << 24;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() < BIG {
            return System.alloc(l);
        }
        if fails(1) {
            return std::ptr::null_mut();
        }
        let k = NBIG.fetch_add(1, SeqCst);
        #[allow(static_mut_refs)]
        let want = BASES.get(k).cloned().unwrap_or(0);
        let fl = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let mut p = libc::MAP_FAILED;
        if want != 0 {
            p = libc::mmap(want as *mut _, l.size(), 3, fl | libc::MAP_FIXED_NOREPLACE, -1, 0);
        }
        if p == libc::MAP_FAILED {
            let q = libc::mmap(std::ptr::null_mut(), l.size() + l.align(), 0, fl, -1, 0);
            if q == libc::MAP_FAILED {
                return std::ptr::null_mut();
            }
            let a = (q as usize + l.align() - 1) / l.align() * l.align();
            p = a as *mut _;
            set_prot(p, l.size(), 3);
        }
        #[allow(static_mut_refs)]
        for &(j, o, v) in MEM.iter() {
            if j == k && (o as usize) < l.size() {
                *(p as *mut u8).add(o as usize) = v;
            }
        }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() < BIG {
            return System.dealloc(p, l);
        }
        libc::munmap(p as *mut _, l.size());
    }
}
#[global_allocator]
static GA: A = A;

fn maps(addr: u64) -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/maps").unwrap();
    for l in s.lines() {
        let mut it = l.split_whitespace();
        let (r, p) = (it.next().unwrap(), it.next().unwrap());
        let (a, b) = r.split_once('-').unwrap();
        let (a, b) = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap());
        if a <= addr && addr < b {
            let p = p.as_bytes();
            return Some((p[0] == b'r') as u64 | ((p[1] == b'w') as u64) << 1 | ((p[2] == b'x') as u64) << 2);
        }
    }
    None
}

pub mod ext {
    use super::*;
    #[allow(static_mut_refs)]
    pub unsafe fn symx_input(tag: u32, bits: u32) -> u64 {
        match INPUTS.get(NEXT) {
            Some(&(t, b, v)) if t == tag && b == bits => {
                NEXT += 1;
                v
            }
            Some(x) => finish(&format!("diverged: wanted input {} of {} bits, recorded {:?}", tag, bits, x)),
            None => finish("diverged: more inputs than recorded"),
        }
    }
    pub unsafe fn symx_input_max(tag: u32, bits: u32, max: u64) -> u64 {
        let v = symx_input(tag, bits);
        symx_assume(v <= max);
        v
    }
    pub unsafe fn symx_choice(tag: u32, _n: u64) -> u64 {
        symx_input(tag, 16)
    }
    pub unsafe fn symx_assume(c: bool) {
        if !c {
            finish("assume")
        }
    }
    pub unsafe fn symx_assert(c: bool, id: u32) {
        if !c {
            finish(&format!("assert {}", id))
        }
    }
    pub unsafe fn symx_panic_cond(lo: bool, hi: bool) {
        LO = Some(lo);
        HI = Some(hi);
    }
    pub unsafe fn symx_panic_end() {
        if LO == Some(true) {
            finish("nopanic")
        }
        LO = None;
        HI = None;
    }
    pub unsafe fn symx_observe(v: u64) {
        println!("OBS {}", v);
    }
    pub unsafe fn symx_prot(a: u64) -> u64 {
        maps(a).unwrap_or(0)
    }
    pub unsafe fn symx_alive(a: u64) -> u64 {
        maps(a).map_or(false, |p| p != 0) as u64
    }
    static mut GUARDS: Vec<(u64, u64, i32)> = vec![];
    #[allow(static_mut_refs)]
    pub unsafe fn symx_guard(a: u64, n: u64) {
        let old = maps(a).unwrap_or(3) as i32;
        GUARDS.push((a, n, old));
        set_prot(a as *mut _, n as usize, old & !2);
    }
    #[allow(static_mut_refs)]
    pub unsafe fn symx_unguard() {
        for &(a, n, old) in GUARDS.iter() {
            set_prot(a as *mut _, n as usize, old);
        }
        GUARDS.clear();
    }
    pub unsafe fn symx_fault(kind: u32, n: u64) {
        FAULT[kind as usize].store(n as usize, SeqCst);
    }
    pub unsafe fn symx_must(c: bool) -> u64 {
        c as u64
    }
}

fn main() {
    let f = std::env::args().nth(1).expect("case file");
    let s = std::fs::read_to_string(f).expect("case file");
    let mut name = String::new();
    for l in s.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        unsafe {
            #[allow(static_mut_refs)]
            match w.first().cloned() {
                Some("harness") => name = w[1].to_string(),
                Some("in") => INPUTS.push((w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap())),
                Some("base") => BASES.push(w[1].parse().unwrap()),
                Some("mem") => MEM.push((w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap())),
                _ => {}
            }
        }
    }
    let h = match gen::TABLE.iter().find(|x| x.0 == name) {
        Some(h) => h.1,
        None => finish("unknown harness"),
    };
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i);
        unsafe {
            match HI {
                Some(true) => finish("panic-ok"),
                _ => finish("panic"),
            }
        }
    }));
    h();
    finish("ok");
}
