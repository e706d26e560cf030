//! Explicit-state exploration engine shared by all checks.
//!
//! A check registers *families*. A family is a finite index space `0..count`; every index decodes to one
//! case (an input, a history, an iterator program, ...), and the case function drives the real library and a
//! boring reference model side by side. All indices of all families are executed, none is sampled.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod model;
pub mod gen;
pub mod iterprog;
pub mod ef;
pub mod bp;
pub mod wav;
pub mod steps;
pub mod work;
pub mod giga;
pub mod guard;
#[cfg(feature = "serde")]
pub mod ser;

// ---------------------------------------------------------------- allocator (live bytes and a hard cap)
pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(20 << 30);
thread_local! {
    static TL_LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    static TL_PEAK: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    static TL_CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn tl(d: isize) {
    let _ = TL_LIVE.try_with(|c| {
        let n = c.get() + d;
        c.set(n);
        let _ = TL_PEAK.try_with(|p| p.set(p.get().max(n)));
    });
}
fn called() {
    let _ = TL_CALLS.try_with(|c| c.set(c.get() + 1));
}
/// What a piece of code asked of the allocator (calling thread only).
#[derive(Debug, Clone, Copy)]
pub struct HeapUse {
    /// allocations and reallocations
    pub calls: u64,
    /// most bytes held at once beyond what was held before
    pub peak: usize,
    /// bytes held afterwards minus bytes held before
    pub kept: isize,
}
pub fn heap_use<T>(f: impl FnOnce() -> T) -> (T, HeapUse) {
    let (l, n) = (thread_live(), TL_CALLS.with(|c| c.get()));
    TL_PEAK.with(|p| p.set(l));
    let x = f();
    let u = HeapUse {
        calls: TL_CALLS.with(|c| c.get()) - n,
        peak: (TL_PEAK.with(|p| p.get()) - l) as usize,
        kept: thread_live() - l,
    };
    (x, u)
}
/// Live heap bytes allocated minus freed by the calling thread.
pub fn thread_live() -> isize {
    TL_LIVE.with(|c| c.get())
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if guard::mode() != 0 {
            let p = guard::alloc(l);
            if !p.is_null() {
                return p;
            }
        }
        if LIVE.fetch_add(l.size(), Relaxed) + l.size() > CAP.load(Relaxed) {
            LIVE.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        called();
        tl(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if guard::owns(p) {
            return guard::dealloc(p);
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        tl(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if guard::mode() != 0 {
            let p = guard::alloc(l);
            if !p.is_null() {
                p.write_bytes(0, l.size());
                return p;
            }
        }
        if LIVE.fetch_add(l.size(), Relaxed) + l.size() > CAP.load(Relaxed) {
            LIVE.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        called();
        tl(l.size() as isize);
        work::charge(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if guard::mode() != 0 || guard::owns(p) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        if LIVE.load(Relaxed) + n > CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(n, Relaxed);
        LIVE.fetch_sub(l.size(), Relaxed);
        called();
        tl(n as isize - l.size() as isize);
        if n > l.size() {
            // growing may have to copy
            work::charge(l.size());
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

// ---------------------------------------------------------------- hashing
/// Small deterministic hasher (FNV/splitmix mix), used for state keys and transcripts.
#[derive(Clone)]
pub struct H(pub u64);
impl Default for H {
    fn default() -> Self {
        H(0x9e37_79b9_7f4a_7c15)
    }
}
impl H {
    #[inline]
    pub fn put(&mut self, x: u64) {
        let mut z = (self.0 ^ x).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z ^= z >> 29;
        z = z.wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 32;
        self.0 = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    }
}
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.put(u64::from_le_bytes(w));
            self.put(c.len() as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.put(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.put(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.put(i as u64)
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = H::default();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- case context
const SHARDS: usize = 64;
type StateSet = Arc<Vec<Mutex<HashSet<u64>>>>;

pub struct Ctx {
    pub thorough: bool,
    /// library calls compared with the model
    pub transitions: u64,
    states: StateSet,
    fam_hash: u64,
    verbose: bool,
    note: String,
    /// transcript hash (only used by C22)
    pub digest: H,
}
impl Ctx {
    /// Register a visited state (deduplicated by hash of its canonical form).
    pub fn visit(&mut self, key: u64) {
        let mut h = H(self.fam_hash);
        h.put(key);
        let k = h.finish();
        self.states[(k as usize) % SHARDS].lock().unwrap().insert(k);
    }
    /// A state shared between families (canonical form fully described by the key).
    pub fn visit_global(&mut self, k: u64) {
        self.states[(k as usize) % SHARDS].lock().unwrap().insert(k);
    }
    /// Describe the current case; evaluated only when the case is written out.
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            self.note = f();
        }
    }
    pub fn note_text(&self) -> &str {
        &self.note
    }
    pub fn tick(&mut self, n: u64) {
        self.transitions += n;
    }
}

/// Compare an implementation answer with the model's answer.
#[macro_export]
macro_rules! eq {
    ($c:expr, $got:expr, $want:expr, $($d:tt)+) => {{
        $c.transitions += 1;
        match ($got, $want) {
            (got, want) => {
                if got != want {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($d)+), got, want));
                }
            }
        }
    }};
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $cond:expr, $($d:tt)+) => {{
        $c.transitions += 1;
        if !$cond { return Err(format!($($d)+)); }
    }};
}
pub type R = Result<(), String>;

struct Family {
    name: String,
    count: u64,
    f: Box<dyn Fn(u64, &mut Ctx) -> R + Send + Sync>,
}

pub struct Runner {
    property: &'static str,
    pub thorough: bool,
    fams: Vec<Family>,
    args: Vec<String>,
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

struct Slot {
    fam: AtomicU64,
    idx: AtomicU64,
    start: AtomicU64,
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...({} chars)", &s[..e], s.len())
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One line, parsed by the driver.
fn report(property: &str, family: &str, idx: u64, msg: &str, note: &str) {
    println!(
        "FAIL {{\"property\":{},\"family\":{},\"index\":{},\"case\":{},\"message\":{}}}",
        jstr(property),
        jstr(family),
        idx,
        jstr(&trunc(note, 4000)),
        jstr(&trunc(msg, 4000))
    );
    let _ = std::io::stdout().flush();
}
thread_local! {
    static CURRENT: RefCell<(&'static str, String, u64)> = const { RefCell::new(("", String::new(), 0)) };
}
/// Reports a violation of the case that this thread executes and ends the process at once.
pub fn fatal(msg: &str) -> ! {
    let (p, f, i) = CURRENT.with(|c| c.borrow().clone());
    report(p, &f, i, msg, "");
    std::process::exit(1)
}
impl Runner {
    pub fn new(property: &'static str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let thorough = args.iter().any(|a| a == "thorough");
        Runner { property, thorough, fams: vec![], args }
    }
    pub fn opt(&self, k: &str) -> Option<String> {
        self.args.iter().position(|a| a == k).and_then(|i| self.args.get(i + 1).cloned())
    }
    /// Register a family: every index in `0..count` is executed.
    pub fn family<F>(&mut self, name: &str, count: u64, f: F)
    where
        F: Fn(u64, &mut Ctx) -> R + Send + Sync + 'static,
    {
        assert!(self.fams.iter().all(|f| f.name != name), "family {name} registered twice");
        self.fams.push(Family { name: name.to_string(), count, f: Box::new(f) });
    }
    /// pick by tier
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    fn ctx(&self, states: &StateSet, fam: usize, verbose: bool) -> Ctx {
        Ctx {
            thorough: self.thorough,
            transitions: 0,
            states: states.clone(),
            fam_hash: hash_of(&self.fams[fam].name),
            verbose: verbose || std::env::var_os("MC_STATS").is_some(),
            note: String::new(),
            digest: H::default(),
        }
    }
    fn exec(&self, fam: usize, idx: u64, c: &mut Ctx) -> R {
        CURRENT.with(|x| *x.borrow_mut() = (self.property, self.fams[fam].name.clone(), idx));
        match catch_unwind(AssertUnwindSafe(|| (self.fams[fam].f)(idx, c))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
        }
    }
    fn report(&self, fam: usize, idx: u64, msg: &str, note: &str) {
        report(self.property, &self.fams[fam].name, idx, msg, note);
    }
    pub fn finish(self) -> ! {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        }));
        let states: StateSet = Arc::new((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect());
        if self.args.iter().any(|a| a == "--list") {
            for f in &self.fams {
                println!("{} {}", f.name, f.count);
            }
            std::process::exit(0);
        }
        if let Some(case) = self.opt("--case") {
            let (name, idx) = case.rsplit_once(':').expect("family:index");
            let fam = self.fams.iter().position(|f| f.name == name).expect("unknown family");
            let idx: u64 = idx.parse().unwrap();
            let mut c = self.ctx(&states, fam, true);
            println!("case {name}:{idx}");
            match self.exec(fam, idx, &mut c) {
                Ok(()) => {
                    println!("holds: {} (digest {:016x})", trunc(&c.note, 4000), c.digest.finish());
                    std::process::exit(0)
                }
                Err(m) => {
                    self.report(fam, idx, &m, &c.note);
                    std::process::exit(1)
                }
            }
        }
        let t0 = Instant::now();
        let threads: usize = self.opt("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
        let hang: u64 = self.opt("--hang").map(|s| s.parse().unwrap()).unwrap_or(400);
        let only = self.opt("--family");
        let transcript = self.opt("--transcript");
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..threads)
                .map(|_| Slot { fam: AtomicU64::new(u64::MAX), idx: AtomicU64::new(0), start: AtomicU64::new(0) })
                .collect(),
        );
        let slot_file = self.opt("--slots").map(|p| std::fs::File::create(p).expect("slot file"));
        let slot_file = Arc::new(slot_file);
        let me = Arc::new(self);
        let done = Arc::new(AtomicBool::new(false));
        let stop = Arc::new(AtomicBool::new(false));
        {
            // watchdog: a case that does not terminate is a violation of the checked query's contract
            let (me, slots, done) = (me.clone(), slots.clone(), done.clone());
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(Relaxed) {
                    return;
                }
                let now = t0.elapsed().as_secs();
                for s in slots.iter() {
                    let f = s.fam.load(Acquire);
                    if f == u64::MAX {
                        continue;
                    }
                    let st = s.start.load(Acquire);
                    if now > st + hang {
                        let idx = s.idx.load(Acquire);
                        me.report(f as usize, idx, &format!("case did not terminate within {hang} s"), "");
                        std::process::exit(1);
                    }
                }
            });
        }
        let fam_cursor: Arc<Vec<AtomicU64>> = Arc::new(me.fams.iter().map(|_| AtomicU64::new(0)).collect());
        let fam_time: Arc<Vec<AtomicU64>> = Arc::new(me.fams.iter().map(|_| AtomicU64::new(0)).collect());
        let fam_trans: Arc<Vec<AtomicU64>> = Arc::new(me.fams.iter().map(|_| AtomicU64::new(0)).collect());
        let cases = Arc::new(AtomicU64::new(0));
        let trans = Arc::new(AtomicU64::new(0));
        let fails: Arc<Mutex<Vec<(usize, u64, String)>>> = Arc::new(Mutex::new(vec![]));
        let digests: Arc<Mutex<Vec<(usize, u64, u64)>>> = Arc::new(Mutex::new(vec![]));
        let mut hs = vec![];
        for w in 0..threads {
            let (me, slots, stop, fc, ft, ftr, cases, trans, fails, states, only, slot_file, digests) = (
                me.clone(),
                slots.clone(),
                stop.clone(),
                fam_cursor.clone(),
                fam_time.clone(),
                fam_trans.clone(),
                cases.clone(),
                trans.clone(),
                fails.clone(),
                states.clone(),
                only.clone(),
                slot_file.clone(),
                digests.clone(),
            );
            let want_digest = transcript.is_some();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        for fam in 0..me.fams.len() {
                            if only.as_ref().is_some_and(|o| !me.fams[fam].name.starts_with(o.as_str())) {
                                continue;
                            }
                            let count = me.fams[fam].count;
                            let chunk = (count / (threads as u64 * 32)).clamp(1, 256);
                            loop {
                                let b = fc[fam].fetch_add(chunk, Relaxed);
                                if b >= count || stop.load(Relaxed) {
                                    break;
                                }
                                let ts = Instant::now();
                                let mut c = me.ctx(&states, fam, false);
                                for idx in b..(b + chunk).min(count) {
                                    if stop.load(Relaxed) {
                                        break;
                                    }
                                    slots[w].idx.store(idx, Release);
                                    slots[w].start.store(t0.elapsed().as_secs(), Release);
                                    slots[w].fam.store(fam as u64, Release);
                                    if let Some(f) = slot_file.as_ref() {
                                        let mut buf = [0u8; 16];
                                        buf[..8].copy_from_slice(&(fam as u64 + 1).to_le_bytes());
                                        buf[8..].copy_from_slice(&idx.to_le_bytes());
                                        let _ = f.write_at(&buf, 16 * w as u64);
                                    }
                                    c.digest = H::default();
                                    let r = me.exec(fam, idx, &mut c);
                                    slots[w].fam.store(u64::MAX, Release);
                                    cases.fetch_add(1, Relaxed);
                                    if want_digest {
                                        digests.lock().unwrap().push((fam, idx, c.digest.finish()));
                                    }
                                    if let Err(m) = r {
                                        fails.lock().unwrap().push((fam, idx, m));
                                        stop.store(true, Relaxed);
                                        break;
                                    }
                                }
                                trans.fetch_add(c.transitions, Relaxed);
                                ftr[fam].fetch_add(c.transitions, Relaxed);
                                ft[fam].fetch_add(ts.elapsed().as_micros() as u64, Relaxed);
                            }
                        }
                        if let Some(f) = slot_file.as_ref() {
                            let _ = f.write_at(&[0u8; 16], 16 * w as u64);
                        }
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            h.join().expect("worker");
        }
        done.store(true, Relaxed);
        let mut fails = fails.lock().unwrap().clone();
        fails.sort();
        if let Some((fam, idx, m)) = fails.first() {
            // replay before reporting, to write the case out and to show it is deterministic
            let mut c = me.ctx(&states, *fam, true);
            let again = me.exec(*fam, *idx, &mut c);
            let tail = match again {
                Err(m2) if &m2 == m => String::new(),
                Err(m2) => format!(" [replay differs: {m2}]"),
                Ok(()) => " [replay of the same case passed: the library behaves non-deterministically]".into(),
            };
            me.report(*fam, *idx, &format!("{m}{tail}"), &c.note);
            std::process::exit(1);
        }
        // samples: the middle case of each family, written out
        let mut samples = vec![];
        for fam in 0..me.fams.len() {
            if me.fams[fam].count == 0 || only.as_ref().is_some_and(|o| !me.fams[fam].name.starts_with(o.as_str())) {
                continue;
            }
            let idx = me.fams[fam].count * 7 / 11;
            let mut c = me.ctx(&states, fam, true);
            let _ = me.exec(fam, idx, &mut c);
            samples.push(format!("{}:{} {}", me.fams[fam].name, idx, trunc(&c.note, 200)));
        }
        if let Some(p) = transcript {
            let mut d = digests.lock().unwrap().clone();
            d.sort();
            let mut o = String::new();
            for (f, i, h) in d {
                let _ = writeln!(o, "{} {} {:016x}", me.fams[f].name, i, h);
            }
            std::fs::write(p, o).unwrap();
        }
        let nstates: usize = states.iter().map(|s| s.lock().unwrap().len()).sum();
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"states\":{},\"transitions\":{},\"cases\":{},\"wall_s\":{:.3},\"families\":{{",
            nstates,
            trans.load(Relaxed),
            cases.load(Relaxed),
            t0.elapsed().as_secs_f64()
        );
        for (i, f) in me.fams.iter().enumerate() {
            let _ = write!(
                o,
                "{}{}:{{\"cases\":{},\"transitions\":{},\"cpu_s\":{:.3}}}",
                if i > 0 { "," } else { "" },
                jstr(&f.name),
                f.count,
                fam_trans[i].load(Relaxed),
                fam_time[i].load(Relaxed) as f64 / 1e6
            );
        }
        o.push_str("},\"samples\":[");
        for (i, s) in samples.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, jstr(s));
        }
        o.push_str("]}");
        if let Some(p) = me.opt("--out") {
            std::fs::write(p, &o).unwrap();
        } else {
            println!("{o}");
        }
        std::process::exit(0)
    }
}

/// Mixed-radix decoder of a case index.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.take(xs.len() as u64) as usize]
    }
}
/// Run `f` expecting it not to panic; used where one case wants to continue after a panic.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
