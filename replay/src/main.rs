//! Runs one harness natively on recorded input values: the counterexample (or witness) found by the solver, against the
//! crate compiled normally.  Exit: 0 finished, 101 panic, 102 assertion, 103 allocation limit, 104 assumption not met.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

struct Lim;
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
unsafe impl GlobalAlloc for Lim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        over(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        over(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        over(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Lim = Lim;

fn over(n: usize) {
    let lim = LIMIT.load(Relaxed);
    if n as u64 > lim {
        LIMIT.store(u64::MAX, Relaxed);
        println!("REPLAY overalloc {} {}", n, lim);
        finish(103);
    }
}
fn finish(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
extern "C" {
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

static VALS: Mutex<Vec<u128>> = Mutex::new(Vec::new());
static NEXT: AtomicUsize = AtomicUsize::new(0);
static PH: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

fn next() -> u128 {
    let i = NEXT.fetch_add(1, Relaxed);
    VALS.lock().unwrap().get(i).copied().unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
pub extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn sym_u64() -> u64 {
    next() as u64
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("REPLAY assumption not met");
        finish(104);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, id: u32) {
    if !c {
        println!("REPLAY assert {}", id);
        finish(102);
    }
}
#[no_mangle]
pub extern "C" fn sym_reach(id: u32) {
    println!("REPLAY reach {}", id);
}
#[no_mangle]
pub extern "C" fn sym_alloc_limit(n: u64) {
    LIMIT.store(n, Relaxed);
}
#[no_mangle]
pub extern "C" fn sym_observe(v: u64) {
    println!("REPLAY obs {}", v);
}
#[no_mangle]
pub extern "C" fn sym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_phantom(n: u64) -> *const u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), (n as usize).max(1), 1, 0x2 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    PH.lock().unwrap().push((p as usize, n as usize));
    p
}
#[no_mangle]
pub extern "C" fn sym_is_phantom(p: *const u8) -> bool {
    let p = p as usize;
    PH.lock().unwrap().iter().any(|&(b, n)| n > 0 && p >= b && p <= b + n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: replay HARNESS VALUES-FILE");
        std::process::exit(2);
    }
    let t = std::fs::read_to_string(&a[2]).expect("values");
    *VALS.lock().unwrap() = t.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let f = harness::table().into_iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    std::panic::set_hook(Box::new(|i| {
        LIMIT.store(u64::MAX, Relaxed);
        println!("REPLAY panic {}", i.to_string().replace('\n', " "));
        finish(101);
    }));
    LIMIT.store(1 << 20, Relaxed);
    f();
    LIMIT.store(u64::MAX, Relaxed);
    println!("REPLAY done");
    finish(0);
}
