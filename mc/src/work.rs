//! Counts the work of a call in a build whose code is instrumented (`-C passes=sancov-module`, feature `cov`): every
//! executed basic block calls `__sanitizer_cov_trace_pc`, and every 8 bytes copied, filled or compared by the C memory
//! functions count as one block. Deterministic like single-stepping, and a thousand times faster.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::Mutex;

// The counter is a budget that counts down, in assembly: the callback must not be instrumented itself.
std::arch::global_asm!(
    ".section .tbss,\"awT\",@nobits",
    ".p2align 3",
    "mc_budget: .zero 8",
    ".text",
    ".globl __sanitizer_cov_trace_pc",
    ".type __sanitizer_cov_trace_pc,@function",
    "__sanitizer_cov_trace_pc:",
    "dec qword ptr fs:[mc_budget@tpoff]",
    "js 2f",
    "ret",
    "2:",
    "movabs rax, 0x7fffffffffffffff",
    "mov qword ptr fs:[mc_budget@tpoff], rax",
    "jmp {slow}",
    ".globl mc_take",
    ".type mc_take,@function",
    "mc_take:",
    "sub qword ptr fs:[mc_budget@tpoff], rdi",
    "js 2b",
    "ret",
    ".globl mc_swap",
    ".type mc_swap,@function",
    "mc_swap:",
    "mov rax, rdi",
    "xchg qword ptr fs:[mc_budget@tpoff], rax",
    "ret",
    slow = sym exhausted,
);
extern "C" {
    fn mc_take(n: u64);
    fn mc_swap(n: i64) -> i64;
}
thread_local! {
    static LIMIT: Cell<u64> = const { Cell::new(0) };
    static WHAT: RefCell<String> = const { RefCell::new(String::new()) };
}
#[cfg(feature = "cov")]
#[inline(always)]
fn add(n: u64) {
    unsafe { mc_take(n) }
}
extern "C" fn exhausted() {
    // a thread starts with an empty budget: only an armed limit means something
    if LIMIT.with(|l| l.get()) != 0 {
        exceeded()
    }
}
/// The call under observation has used up what it may take: report it now, it may never come back.
#[cold]
#[inline(never)]
fn exceeded() {
    let l = LIMIT.with(|l| l.replace(0));
    let what = WHAT.with(|w| w.borrow().clone());
    crate::fatal(&format!("{what}: more than {l} basic blocks"));
}
/// Copies and fills by the allocator.
pub fn charge(_bytes: usize) {
    #[cfg(feature = "cov")]
    add(_bytes as u64 / 8);
}
#[cfg(feature = "cov")]
mod memory {
    use super::add;
    use std::arch::asm;
    #[inline(always)]
    unsafe fn fwd(d: *mut u8, s: *const u8, n: usize) {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        add(n as u64 / 8);
        fwd(d, s, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        add(n as u64 / 8);
        if (d as usize).wrapping_sub(s as usize) >= n {
            fwd(d, s, n);
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
                inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
        add(n as u64 / 8);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") v as u8, options(nostack, preserves_flags));
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let left: usize;
        // an empty comparison leaves the flags alone: start with "equal"
        asm!("cmp eax, eax", "repe cmpsb", "mov {left}, rcx", left = out(reg) left, inout("rcx") n => _,
            inout("rsi") a => _, inout("rdi") b => _, options(nostack));
        let i = n - left;
        add(i as u64 / 8);
        if i == 0 {
            return 0;
        }
        a.add(i - 1).read() as i32 - b.add(i - 1).read() as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}
/// Makes sure that the build counts.
pub fn init() {
    let probe = |k: usize| {
        let v: Vec<u64> = (0..k as u64).map(std::hint::black_box).collect();
        let (mut a, mut b, mut e) = (0, 0, 0);
        if !v.is_empty() {
            a = measure(|| v.iter().filter(|&&x| std::hint::black_box(x) % 3 == 0).count()).1;
            let w = v.clone();
            b = measure(|| std::hint::black_box(v.clone())).1;
            e = measure(|| std::hint::black_box(&v) == std::hint::black_box(&w)).1;
        }
        (a, b, e)
    };
    let (x, y) = (probe(1000), probe(9000));
    if y.0 < x.0 + 8000 || y.0 > x.0 + 80_000 || y.1 < x.1 + 7000 || y.1 > x.1 + 80_000 || y.2 < x.2 + 7000 || y.2 > x.2 + 80_000 {
        eprintln!("this build does not count basic blocks: {x:?} {y:?}");
        std::process::exit(2);
    }
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64) {
    run(0, f)
}
/// `limit` 0: none
fn run<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    LIMIT.with(|l| l.set(limit));
    let b = if limit == 0 { i64::MAX } else { limit as i64 };
    unsafe { mc_swap(b) };
    let r = std::hint::black_box(f());
    let left = unsafe { mc_swap(i64::MAX) };
    LIMIT.with(|l| l.set(0));
    (r, (b - left) as u64)
}
static STATS: Mutex<BTreeMap<&'static str, f64>> = Mutex::new(BTreeMap::new());
/// Runs `f`, which may take at most `limit` basic blocks.
pub fn within<T>(c: &mut crate::Ctx, limit: u64, what: &'static str, arg: impl std::fmt::Display, f: impl FnOnce() -> T) -> T {
    c.tick(1);
    let stats = std::env::var_os("MC_STATS").is_some();
    WHAT.with(|w| {
        use std::fmt::Write;
        let mut w = w.borrow_mut();
        w.clear();
        let _ = write!(w, "{what} ({arg})");
    });
    let (r, n) = run(if stats { 0 } else { limit }, f);
    if stats {
        let q = limit as f64 / n.max(1) as f64;
        let mut s = STATS.lock().unwrap();
        if s.get(what).is_none_or(|&o| q < o) {
            s.insert(what, q);
            eprintln!("STAT {q:.2} {n} (limit {limit}) {what} ({arg}) {}", c.note_text());
        }
    }
    r
}
