//! Counts the instructions a call executes, by single-stepping the calling thread (trap flag, SIGTRAP handler).
//! Deterministic: no clock, no cache, no other process influences the count.
use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
/// index of the flags register in the saved machine context (uc_flags, uc_link, uc_stack: 5 words; REG_EFL = 17)
const EFL: usize = 5 + 17;
const TF: u64 = 0x100;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(0) };
}
extern "C" fn on_trap(_sig: i32, _info: *mut u8, ctx: *mut u64) {
    let n = COUNT.with(|c| {
        let v = c.get() + 1;
        c.set(v);
        v
    });
    let p = PARTNER.with(|c| c.get());
    if !p.is_null() && (EVERY.with(|c| c.get()) || n >= LIMIT.with(|c| c.get())) {
        switch(unsafe { &*p });
    }
    if n >= LIMIT.with(|c| c.get()) {
        // give up counting: the call runs on at full speed
        unsafe { *ctx.add(EFL) &= !TF };
    }
}
#[inline(never)]
fn raw<T>(give_up: u64, f: impl FnOnce() -> T) -> (T, u64) {
    COUNT.with(|c| c.set(0));
    LIMIT.with(|c| c.set(give_up));
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = std::hint::black_box(f());
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    (r, COUNT.with(|c| c.get()))
}
/// Install the handler and make sure that counting works here at all.
pub fn init() {
    let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
    assert_eq!(unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) }, 0, "sigaction");
    let probe = |k: u64| {
        raw(1 << 20, || {
            let mut s = 0u64;
            for i in 0..k {
                s = std::hint::black_box(s + i);
            }
            s
        })
        .1
    };
    let (a, b) = (probe(10), probe(110));
    if b < a + 200 || b > a + 5000 {
        eprintln!("single-stepping does not work here ({a}, {b} steps)");
        std::process::exit(2);
    }
}
static STATS: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
/// Runs `f`, which may take at most `limit` instructions.
pub fn within<T>(c: &mut crate::Ctx, limit: u64, what: &'static str, arg: impl std::fmt::Display, f: impl FnOnce() -> T) -> Result<T, String> {
    c.tick(1);
    let stats = std::env::var_os("MC_STATS").is_some();
    let (r, n) = raw(if stats { 300_000.max(4 * limit) } else { limit + 1 }, f);
    if stats {
        let mut s = STATS.lock().unwrap();
        let e = s.entry(what.to_string()).or_default();
        if n as f64 / limit as f64 > e.0 as f64 / e.1.max(1) as f64 {
            *e = (n, limit);
            eprintln!("STAT {:.2} {what} {n} (limit {limit}) {arg} {}", limit as f64 / n.max(1) as f64, c.note_text());
        }
        return Ok(r);
    }
    if n > limit {
        return Err(format!("{what}({arg}) took more than {limit} instructions"));
    }
    Ok(r)
}

// ---------------------------------------------------------------- controlled preemption
//
// `preempt(k, f, job, ..)` runs `f` on this thread, stops it after its k-th instruction, lets the partner thread
// execute its whole job, and then continues `f`: the schedule with exactly one preemption, at instruction k.
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::Arc;

type Job<'a> = dyn Fn() -> u64 + 'a;
pub struct Partner {
    /// 0 idle, 1 requested, 2 done, 3 quit
    state: AtomicU8,
    /// fat pointer to the job, in two halves
    job: [AtomicUsize; 2],
    /// the right answer, and a wrong one if there was any
    expect: AtomicU64,
    wrong: AtomicU64,
    jobs: AtomicU64,
    /// how often the partner could not finish while the other thread was stopped (it waited for a lock)
    pub blocked: AtomicU64,
}
thread_local! {
    static EVERY: Cell<bool> = const { Cell::new(false) };
    static PARTNER: Cell<*const Partner> = const { Cell::new(std::ptr::null()) };
    static OWN: std::cell::OnceCell<Arc<Partner>> = const { std::cell::OnceCell::new() };
}
extern "C" {
    fn sched_yield() -> i32;
}
fn partner() -> Arc<Partner> {
    OWN.with(|o| {
        o.get_or_init(|| {
            let p = Arc::new(Partner {
                state: AtomicU8::new(0),
                job: [AtomicUsize::new(0), AtomicUsize::new(0)],
                expect: AtomicU64::new(0),
                wrong: AtomicU64::new(0),
                jobs: AtomicU64::new(0),
                blocked: AtomicU64::new(0),
            });
            let q = p.clone();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || loop {
                    let mut n = 0u32;
                    while q.state.load(Acquire) != 1 {
                        n += 1;
                        if n < 20_000 {
                            std::hint::spin_loop();
                        } else {
                            unsafe { sched_yield() };
                        }
                    }
                    let raw = [q.job[0].load(Relaxed), q.job[1].load(Relaxed)];
                    let job: &Job = unsafe { std::mem::transmute::<[usize; 2], &Job<'static>>(raw) };
                    // a panic is an answer as well (a wrong one)
                    let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)).unwrap_or(PANICKED);
                    q.jobs.fetch_add(1, Relaxed);
                    if a != q.expect.load(Relaxed) {
                        q.wrong.store(a, Relaxed);
                    }
                    q.state.store(2, Release);
                })
                .unwrap();
            p
        })
        .clone()
    })
}
/// The answer that stands for a panic.
pub const PANICKED: u64 = 0xdead_dead_dead_dead;

/// Called in the signal handler: let the partner run. Gives up waiting after a while, as it may need a lock that the
/// stopped thread holds; it then goes on together with this thread.
fn switch(p: &Partner) {
    let waiting = p.state.swap(1, AcqRel) == 1;
    let mut n = 0u32;
    while p.state.load(Acquire) != 2 {
        n += 1;
        if n < 2000 {
            std::hint::spin_loop();
        } else {
            unsafe { sched_yield() };
        }
        if n > if waiting { 2_010 } else { 12_000 } {
            p.blocked.fetch_add(1, Relaxed);
            return;
        }
    }
}
/// Instructions of `f` on this thread.
pub fn count<T>(f: impl FnOnce() -> T) -> u64 {
    raw(1 << 30, f).1
}
#[derive(Debug)]
pub struct Outcome {
    pub answer: u64,
    /// a wrong answer of the partner
    pub wrong: Option<u64>,
    /// how often the partner ran
    pub jobs: u64,
}
/// Runs `f` on this thread and stops it after its k-th instruction (0: after each of its instructions) until the
/// partner thread has executed the whole `job`, whose right answer is `expect`.
pub fn preempt(k: u64, f: &dyn Fn() -> u64, job: &Job, expect: u64) -> Result<Outcome, String> {
    let p = partner();
    let raw_job: [usize; 2] = unsafe { std::mem::transmute::<&Job, [usize; 2]>(job) };
    p.job[0].store(raw_job[0], Relaxed);
    p.job[1].store(raw_job[1], Relaxed);
    p.expect.store(expect, Relaxed);
    p.wrong.store(expect, Relaxed);
    p.jobs.store(0, Relaxed);
    p.state.store(0, Release);
    EVERY.with(|c| c.set(k == 0));
    PARTNER.with(|c| c.set(Arc::as_ptr(&p)));
    let limit = if k == 0 { 1 << 40 } else { k };
    let (answer, _) = raw(limit, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(PANICKED));
    PARTNER.with(|c| c.set(std::ptr::null()));
    let t = std::time::Instant::now();
    while p.state.load(Acquire) == 1 {
        if t.elapsed().as_secs() > 60 {
            return Err("the second thread does not come back although the first one has finished".into());
        }
        std::thread::yield_now();
    }
    let w = p.wrong.load(Relaxed);
    Ok(Outcome { answer, wrong: (w != expect).then_some(w), jobs: p.jobs.load(Relaxed) })
}
