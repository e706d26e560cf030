//! C30: a panic in code of the caller, at every point where such code is called, leaves all structures usable.
use mc::gen::{string, strings_upto, tile, TILE_KINDS};
use mc::model::*;
use mc::*;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use vers_vecs::trees::Tree;
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, WaveletMatrix};

struct Fault;
/// Panic in the caller's code, without the panic hook (which allocates).
fn fault() -> ! {
    resume_unwind(Box::new(Fault))
}
/// Counts calls and fails at number `at`.
struct Fuse {
    at: usize,
    n: Cell<usize>,
}
impl Fuse {
    fn new(at: usize) -> Self {
        Fuse { at, n: Cell::new(0) }
    }
    fn burn(&self) {
        let k = self.n.get();
        self.n.set(k + 1);
        if k == self.at {
            fault()
        }
    }
}
/// Run `f`; Ok(Some) if it came back, Ok(None) if the fault passed through, Err if the library panicked on its own.
fn run<T>(what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(Some(x)),
        Err(p) if p.is::<Fault>() => Ok(None),
        Err(_) => Err(format!("{what}: the library panicked on its own")),
    }
}
/// what the vector holds now, read bit by bit
fn read(c: &mut Ctx, v: &BitVec, len: usize, what: &str) -> Result<BM, String> {
    eq!(c, v.len(), len, "{what}: length");
    let mut m = BM::new();
    for i in 0..len {
        match v.get(i) {
            Some(b) if b < 2 => m.push(b == 1),
            x => return Err(format!("{what}: get({i}) = {x:?}")),
        }
    }
    c.tick(len as u64);
    eq!(c, v.get(len), None, "{what}: get({len})");
    Ok(m)
}
/// all observations and edits of a vector agree with its bits
fn sound(c: &mut Ctx, v: &BitVec, m: &BM, what: &str) -> R {
    eq!(c, v.len(), m.len, "{what}: length");
    let fresh = m.bv(Dirt::Clean);
    ck!(c, *v == fresh && fresh == *v, "{what}: differs from a fresh vector with the expected bits {m:?}, is {v:?}");
    eq!(c, hash_of(v), hash_of(&fresh), "{what}: hash");
    eq!(c, v.count_ones(), m.ones() as u64, "{what}: count_ones");
    eq!(c, v.count_zeros(), (m.len - m.ones()) as u64, "{what}: count_zeros");
    eq!(c, v.iter().map(|b| b == 1).collect::<Vec<_>>(), m.bools(), "{what}: iteration");
    for p in (0..m.len).step_by(13) {
        for l in [1, 33, 64] {
            eq!(c, v.get_bits(p, l), (p + l <= m.len).then(|| m.window(p, l)), "{what}: get_bits({p}, {l})");
        }
    }
    let rs = RsVec::from_bit_vec(v.clone());
    eq!(c, rs.iter1().collect::<Vec<_>>(), m.positions(true), "{what}: iter1 of the rank/select vector");
    eq!(c, rs.rank0(m.len), m.len - m.ones(), "{what}: rank0 of the rank/select vector");
    editable(c, v, m, what)
}

type Op = fn(u64, u64) -> u64;
// apply_mask_custom takes a function pointer, so its fuse is global
thread_local! {
    static AT: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static OP: Cell<Op> = const { Cell::new(|a, _| a) };
}
const OPS: [Op; 4] = [|a, b| a & b, |a, b| a ^ !b, |_, b| b, |a, _| !a];
fn both(x: &BM, y: &BM, f: Op) -> BM {
    let mut r = BM::zeros(x.len);
    for i in 0..x.len {
        r.set(i, f(x.get(i) as u64, y.get(i) as u64) & 1 == 1);
    }
    r
}

fn masks(c: &mut Ctx, x: &BM, y: &BM, f: Op, dx: Dirt, dy: Dirt) -> R {
    let want = both(x, y, f);
    let words = x.len.div_ceil(64);
    for at in 0..=words + 1 {
        // in place
        let (mut v, w) = (x.bv(dx), y.bv(dy));
        AT.set((0, at));
        OP.set(f);
        let done = run("apply_mask_custom", || {
            v.apply_mask_custom(&w, |a, b| {
                let (n, at) = AT.get();
                AT.set((n + 1, at));
                if n == at {
                    fault()
                }
                OP.get()(a, b)
            })
        })?;
        let what = format!("apply_mask_custom failing at call {at}");
        let m = read(c, &v, x.len, &what)?;
        if done.is_some() {
            eq!(c, m.bools(), want.bools(), "{what} (not reached): bits");
        }
        for i in (0..x.len).step_by(64) {
            let l = (x.len - i).min(64);
            let got = m.window(i, l);
            ck!(c, got == x.window(i, l) || got == want.window(i, l), "{what}: word {} is neither the old nor the masked one", i / 64);
        }
        sound(c, &v, &m, &what)?;
        sound(c, &w, y, "the mask")?;
        // the edit can be repeated
        v.apply_mask_custom(&w, |_, b| b).map_err(|e| format!("{what}, then another mask: {e}"))?;
        sound(c, &v, y, "masked again")?;
        // lazily: every consumer, then again without the fault
        let (v, w) = (x.bv(dx), y.bv(dy));
        for k in 0..6 {
            let fuse = Fuse::new(at);
            let lazy = v
                .mask_custom(&w, |a, b| {
                    fuse.burn();
                    f(a, b)
                })
                .map_err(|e| format!("mask_custom: {e}"))?;
            let ask = |k: usize| -> u64 {
                match k {
                    0 => lazy.count_ones(),
                    1 => lazy.count_zeros(),
                    2 => hash_of(&lazy.to_bit_vec()),
                    3 => (0..x.len).filter(|&i| lazy.is_bit_set(i) == Some(true)).count() as u64,
                    4 => (0..x.len).step_by(7).map(|i| lazy.get(i).unwrap() + 2 * lazy.is_bit_set(i).is_some() as u64).sum(),
                    _ => (0..x.len.saturating_sub(40)).step_by(9).fold(0, |s, i| s ^ lazy.get_bits(i, 40).unwrap()),
                }
            };
            let wants = |k: usize| -> u64 {
                match k {
                    0 => want.ones() as u64,
                    1 => (want.len - want.ones()) as u64,
                    2 => hash_of(&want.bv(Dirt::Clean)),
                    3 => want.ones() as u64,
                    4 => (0..x.len).step_by(7).map(|i| want.get(i) as u64 + 2).sum(),
                    _ => (0..x.len.saturating_sub(40)).step_by(9).fold(0, |s, i| s ^ want.window(i, 40)),
                }
            };
            if let Some(got) = run("lazy mask", || ask(k))? {
                eq!(c, got, wants(k), "lazy mask, consumer {k}, fault at call {at} not reached");
            }
            // the fuse is burnt or will burn once more; after that every answer is right
            while fuse.n.get() <= at {
                if run("lazy mask", || ask(k))?.is_none() || words == 0 || x.len <= 40 && k == 5 {
                    break;
                }
            }
            if fuse.n.get() > at {
                for j in 0..6 {
                    match run("lazy mask", || ask(j))? {
                        Some(got) => eq!(c, got, wants(j), "lazy mask, consumer {j} after a fault in consumer {k} at call {at}"),
                        None => return Err("the fuse burnt twice".into()),
                    }
                }
            }
        }
        sound(c, &v, x, "vector below a lazy mask that failed")?;
        sound(c, &w, y, "mask of a lazy mask that failed")?;
    }
    Ok(())
}

fn extends(c: &mut Ctx, start: &BM, items: &[BM], d: Dirt) -> R {
    for at in 0..=items.len() {
        for how in 0..4 {
            let mut v = start.bv(d);
            if how >= 2 {
                v = v.clone(); // no spare capacity
            }
            let owned: Vec<BitVec> = items.iter().map(|m| m.bv(d)).collect();
            let fuse = Fuse::new(at);
            let what = format!("extend, way {how}, failing at item {at}");
            let done = run(&what, || {
                if how % 2 == 0 {
                    v.extend(owned.iter().map(|x| {
                        fuse.burn();
                        x
                    }))
                } else {
                    v.extend(owned.iter().cloned().map(|x| {
                        fuse.burn();
                        x
                    }))
                }
            })?;
            // the old bits, followed by whole items
            let mut m = start.clone();
            let mut ok = m.len == v.len() && at == 0;
            let mut fits = vec![m.clone()];
            for x in &items[..at] {
                m.extend(x);
                fits.push(m.clone());
            }
            if done.is_some() {
                fits.drain(..at);
            }
            for m in &fits {
                if m.len == v.len() && v == m.bv(Dirt::Clean) {
                    sound(c, &v, m, &what)?;
                    ok = true;
                }
            }
            ck!(c, ok, "{what}: {} bits, not the old ones followed by whole items: {v:?}", v.len());
            for (x, m) in owned.iter().zip(items) {
                sound(c, x, m, "item")?;
            }
        }
    }
    Ok(())
}

/// constructors fed by an iterator that fails: everything is released
fn builds(c: &mut Ctx, n: usize, at: usize) -> R {
    let fuse = Cell::new(0usize);
    let tick = |i: usize| {
        if fuse.replace(fuse.get() + 1) == at {
            fault()
        }
        i
    };
    struct Late<'a>(&'a Cell<usize>, usize);
    impl From<Late<'_>> for u64 {
        fn from(l: Late) -> u64 {
            if l.0.replace(l.0.get() + 1) == l.1 {
                fault()
            }
            5
        }
    }
    for how in 0..11 {
        let go = || {
            fuse.set(0);
            let bits = |b: BitVec| b.len();
            run("constructor", || match how {
                0 => bits(BitVec::from_bits_iter((0..n).map(|i| tick(i) as u64))),
                1 => bits(BitVec::from_bits_iter((0..n).map(|i| tick(i) as u8))),
                2 => bits(BitVec::from_bool_iter((0..n).map(|i| tick(i) % 3 == 0))),
                3 => bits(BitVec::from_limbs_iter((0..n).map(|i| tick(i) as u64))) / 64,
                4 => bits((0..n).map(|i| tick(i) as u64).collect::<BitVec>()) / 64,
                5 => (0..n).map(|i| tick(i) as u64).collect::<FastRmq>().len(),
                6 => (0..n).map(|i| tick(i) as u64).collect::<BinaryRmq>().len(),
                7 => bits(BitVec::from_bits_iter((0..n).map(|_| Late(&fuse, at)))),
                8 => bits(BitVec::from_limbs_iter((0..n).map(|_| Late(&fuse, at)))) / 64,
                9 => bits(BitVec::from_bool_iter((0..n).filter(|&i| tick(i) < n).map(|i| i % 2 == 0))),
                _ => bits(BitVec::from_limbs_iter((0..n).filter(|&i| tick(i) < n).map(|i| i as u64))) / 64,
            })
        };
        go()?;
        let (r, u) = heap_use(go);
        match r? {
            Some(k) => eq!(c, k, n, "constructor {how}: length"),
            None => ck!(c, at < n, "constructor {how} of {n} items called the iterator {} times", fuse.get()),
        }
        ck!(c, u.kept <= 0, "constructor {how} of {n} items, failing at item {at}, leaks {} bytes", u.kept);
    }
    Ok(())
}

/// consumers of an iterator whose closure fails at item k: exactly the items up to and including k are consumed
fn consume<I, T>(c: &mut Ctx, it: I, model: &[T], what: &str) -> R
where
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
    T: PartialEq + std::fmt::Debug + Clone,
{
    for (front, back) in [(0, 0), (1, 0), (0, 1), (2, 3)] {
        if front + back > model.len() {
            continue;
        }
        let mid = &model[front..model.len() - back];
        for at in 0..=mid.len() {
            for how in 0..6 {
                let mut x = it.clone();
                for _ in 0..front {
                    x.next();
                }
                for _ in 0..back {
                    x.next_back();
                }
                let fuse = Fuse::new(at);
                let r = run(what, || match how {
                    0 => x.by_ref().for_each(|_| fuse.burn()),
                    1 => x.by_ref().rev().for_each(|_| fuse.burn()),
                    2 => {
                        let _ = x.all(|_| {
                            fuse.burn();
                            true
                        });
                    }
                    3 => {
                        let _ = x.by_ref().map(|_| fuse.burn()).count();
                    }
                    4 => {
                        let _ = x.rfind(|_| {
                            fuse.burn();
                            false
                        });
                    }
                    _ => {
                        let _ = x.position(|_| {
                            fuse.burn();
                            false
                        });
                    }
                })?;
                ck!(c, r.is_some() == (at == mid.len()), "{what}: consumer {how} called its closure {} times for {} items", fuse.n.get(), mid.len());
                let used = if r.is_some() { mid.len() } else { at + 1 };
                let rest = if matches!(how, 1 | 4) { &mid[..mid.len() - used] } else { &mid[used..] };
                eq!(c, x.len(), rest.len(), "{what}: length after consumer {how} failed at item {at} of {} ({front} and {back} consumed before)", mid.len());
                let y = x.clone();
                eq!(c, x.collect::<Vec<_>>(), rest.to_vec(), "{what}: rest after consumer {how} failed at item {at}");
                let mut back: Vec<T> = y.rev().collect();
                back.reverse();
                eq!(c, back, rest.to_vec(), "{what}: rest from the back after consumer {how} failed at item {at}");
            }
        }
    }
    Ok(())
}

/// calls that the library itself refuses with a panic leave the vector as it was
fn refused(c: &mut Ctx, m: &BM, d: Dirt) -> R {
    let n = m.len;
    for how in 0..12 {
        let mut v = m.bv(d);
        let other = tile(9, n + 1).bv(d);
        let r = catch_unwind(AssertUnwindSafe(|| match how {
            0 => v.flip_bit(n),
            1 => v.flip_bit(n + 64),
            2 => v.flip_bit(usize::MAX),
            3 => v.append_bits(5, 65),
            4 => v.append_bits(u64::MAX, 1000),
            5 => v.append_bits(0, usize::MAX),
            6 => {
                let _ = v.set(n, 1);
            }
            7 => {
                let _ = v.apply_mask_or(&other);
            }
            8 => {
                let _ = v.apply_mask_custom(&other, |a, _| !a);
            }
            9 => {
                let _ = v.unpack_element(n, 65);
            }
            10 => {
                let _ = v.get_bits_unchecked(n + 1000, 64);
            }
            _ => {
                let _ = v.mask_custom(&other, |a, _| !a).map(|x| x.count_ones());
            }
        }));
        if r.is_err() || (6..=11).contains(&how) {
            sound(c, &v, m, &format!("after refused call {how}"))?;
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C30");
    let t = r.thorough;
    let n = r.t(5u32, 7);
    let per = strings_upto(n);
    r.family("mask-pairs", per * (1 << n) * OPS.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let f = *d.pick(&OPS);
        let x = string(d.take(per));
        let y = BM::from_int(d.take(1 << n) & ((1 << x.len) - 1), x.len);
        c.note(|| format!("{x:?} masked with {y:?}"));
        c.visit(i);
        masks(c, &x, &y, f, DIRTS[(i % 2) as usize], DIRTS[(i / 2 % 2) as usize])
    });
    let mut lens: Vec<usize> = if t { (0..=330).collect() } else { (0..=70).chain(120..=135).collect() };
    lens.extend([191, 192, 193, 255, 256, 257, 447, 448, 511, 512, 513, 640]);
    let nl = lens.len() as u64;
    let ls = lens.clone();
    r.family("mask-lengths", nl * 4 * OPS.len() as u64 * 3, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&ls);
        let (dx, dy) = (*d.pick(&DIRTS), *d.pick(&DIRTS));
        let f = *d.pick(&OPS);
        let k = d.take(3);
        let (x, y) = (tile([9, 3, 6][k as usize], n), tile([6, 9, 1][k as usize], n));
        c.note(|| format!("{dx:?} {x:?} masked with {dy:?} {y:?}"));
        c.visit(i);
        masks(c, &x, &y, f, dx, dy)
    });
    let starts: Vec<usize> = vec![0, 1, 63, 64, 65, 127, 128, 200];
    let sizes: Vec<usize> = vec![0, 1, 63, 64, 65, 130];
    let (ns, nz) = (starts.len() as u64, sizes.len() as u64);
    let cnt = r.t(3u32, 4);
    r.family("extend", ns * nz.pow(cnt) * 2, move |i, c| {
        let mut d = Dec(i);
        let s = tile(9, *d.pick(&starts));
        let dirt = *d.pick(&DIRTS);
        let items: Vec<BM> = (0..cnt).map(|k| tile(6 + u64::from(k) % 4, *d.pick(&sizes))).collect();
        c.note(|| format!("{dirt:?} {s:?} extended by {items:?}"));
        c.visit(i);
        extends(c, &s, &items, dirt)
    });
    let m = r.t(140u64, 300);
    r.family("build", m * (m + 1), move |i, c| {
        let mut d = Dec(i);
        // binary rmq of nothing has no meaning, FastRmq of nothing neither
        let n = 1 + d.take(m) as usize;
        let at = d.take(m + 1) as usize;
        if at > n {
            return Ok(());
        }
        c.note(|| format!("{n} items, failing at {at}"));
        c.visit(i);
        builds(c, n, at)
    });
    let ls = lens.clone();
    r.family("consume", nl * TILE_KINDS, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&ls);
        let m = tile(d.take(TILE_KINDS), n);
        if n > 260 {
            return Ok(());
        }
        c.note(|| format!("{m:?}"));
        c.visit(i);
        let bv = m.bv(Dirt::Ones);
        let bits: Vec<u64> = m.bools().iter().map(|&b| b as u64).collect();
        let rs = RsVec::from_bit_vec(bv.clone());
        let (p1, p0) = (m.positions(true), m.positions(false));
        consume(c, bv.iter(), &bits, "BitVec::iter")?;
        consume(c, bv.clone().into_iter(), &bits, "BitVec::into_iter")?;
        consume(c, rs.iter(), &bits, "RsVec::iter")?;
        consume(c, rs.iter1(), &p1, "RsVec::iter1")?;
        consume(c, rs.iter0(), &p0, "RsVec::iter0")?;
        consume(c, rs.clone().into_iter1(), &p1, "RsVec::into_iter1")?;
        if !p1.is_empty() {
            let e: Vec<u64> = p1.iter().map(|&x| x as u64 * 17).collect();
            let ef = EliasFanoVec::from_slice(&e);
            consume(c, ef.iter(), &e, "EliasFanoVec::iter")?;
            consume(c, ef.clone().into_iter(), &e, "EliasFanoVec::into_iter")?;
        }
        if n > 0 && n <= 130 {
            let s: Vec<u64> = (0..n).map(|k| (k as u64 * 5 + m.get(k) as u64) % 8).collect();
            let mut o = s.clone();
            o.sort_unstable();
            let w = WaveletMatrix::from_slice(&s, 3);
            consume(c, w.iter_u64().unwrap(), &s, "WaveletMatrix::iter_u64")?;
            consume(c, w.iter_sorted_u64().unwrap(), &o, "WaveletMatrix::iter_sorted_u64")?;
        }
        Ok(())
    });
    r.family("refused", nl * TILE_KINDS * 2, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&lens);
        let dirt = *d.pick(&DIRTS);
        let m = tile(d.0, n);
        c.note(|| format!("{dirt:?} {m:?}"));
        c.visit(i);
        refused(c, &m, dirt)
    });
    r.family("trees", 60, move |i, c| {
        // a star of i leaves: the walk over the children is interrupted at every child
        let n = i as usize;
        let mut m = BM::new();
        m.push(true);
        for _ in 0..n {
            m.push(true);
            m.push(false);
        }
        m.push(false);
        c.note(|| format!("star of {n} leaves"));
        c.visit(i);
        let t = BpTree::<8>::from_bit_vector(m.bv(Dirt::Clean));
        let kids: Vec<usize> = (0..n).map(|k| 1 + 2 * k).collect();
        for at in 0..=n {
            let fuse = Fuse::new(at);
            let mut it = t.children(0);
            let r = run("children", || it.by_ref().for_each(|_| fuse.burn()))?;
            let used = if r.is_some() { n } else { at + 1 };
            eq!(c, it.collect::<Vec<_>>(), kids[used..].to_vec(), "children after a failure at child {at}");
            let fuse = Fuse::new(at);
            let mut it = t.dfs_iter();
            let r = run("dfs_iter", || it.by_ref().for_each(|_| fuse.burn()))?;
            let all: Vec<usize> = std::iter::once(0).chain(kids.iter().copied()).collect();
            let used = if r.is_some() { n + 1 } else { at + 1 };
            eq!(c, it.collect::<Vec<_>>(), all[used..].to_vec(), "dfs_iter after a failure at node {at}");
            eq!(c, t.size(), n + 1, "size");
        }
        Ok(())
    });
    r.finish()
}
