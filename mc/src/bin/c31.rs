//! C31: documented panics happen exactly as documented; unchecked calls beyond the end damage nothing.
use mc::gen::{string, strings_upto, tile, TILE_KINDS};
use mc::model::*;
use mc::*;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vers_vecs::{BinaryRmq, BitVec, EliasFanoVec, FastRmq, WaveletMatrix};

fn try_<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
const WILD: [usize; 8] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX - 63,
    usize::MAX / 2,
    usize::MAX / 2 + 1,
    1 << 32,
    (1 << 32) + 1,
    usize::MAX / 64 + 1,
];
/// positions at and beyond the end
fn beyond(n: usize) -> impl Iterator<Item = usize> {
    let end = n.div_ceil(64) * 64;
    (n..end + 3).chain([end + 63, end + 64, end + 65, 2 * end + 7, n + 4096]).chain(WILD)
}
/// the vector is still the model, and stays so under further edits
fn sound(c: &mut Ctx, v: &BitVec, m: &BM, what: &str) -> R {
    let fresh = m.bv(Dirt::Clean);
    ck!(c, v.len() == m.len && *v == fresh && fresh == *v, "{what}: the vector changed to {v:?}, was {m:?}");
    eq!(c, hash_of(v), hash_of(&fresh), "{what}: hash");
    eq!(c, v.count_ones(), m.ones() as u64, "{what}: count_ones");
    editable(c, v, m, what)
}

fn bitvec(c: &mut Ctx, m: &BM, d: Dirt) -> R {
    let n = m.len;
    let base = m.bv(d);
    for l in (0..=200).chain(WILD) {
        let mut v = base.clone();
        let ok = try_(|| v.append_bits(0x5555_5555_3333_ffff, l)).is_some();
        ck!(c, ok == (l <= 64), "append_bits of {l} bits to {n}: {}", if ok { "no panic" } else { "panic" });
        if !ok {
            eq!(c, v.len(), n, "length after the refused append_bits of {l} bits");
        }
    }
    for p in 0..n {
        let mut v = base.clone();
        ck!(c, try_(|| v.flip_bit(p)).is_some(), "flip_bit({p}) of {n} panics");
        ck!(c, try_(|| v.flip_bit_unchecked(p)).is_some(), "flip_bit_unchecked({p}) of {n} panics");
        ck!(c, v == base, "flipping bit {p} of {n} twice");
    }
    for p in beyond(n) {
        let mut v = base.clone();
        ck!(c, try_(|| v.flip_bit(p)).is_none(), "flip_bit({p}) of {n} does not panic");
        if p < n + 70 {
            sound(c, &v, m, &format!("refused flip_bit({p})"))?;
        }
        for how in 0..3 {
            let mut v = base.clone();
            let r = try_(|| match how {
                0 => v.flip_bit_unchecked(p),
                _ => v.set_unchecked(p, how - 1),
            });
            c.tick(1);
            if r.is_some() {
                sound(c, &v, m, &format!("unchecked edit {how} at {p}"))?;
            } else {
                ck!(c, v == base, "unchecked edit {how} at {p} panicked and changed the vector");
            }
        }
    }
    // what is valid of a read across the end is right
    let mask = tile(6, n);
    let w = mask.bv(d);
    let lazy = base.mask_custom(&w, |a, b| a ^ b).map_err(|e| format!("mask_custom: {e}"))?;
    for p in n.saturating_sub(70)..n {
        for l in n - p + 1..=64 {
            let low = !0u64 >> (64 - (n - p));
            if let Some(x) = try_(|| base.get_bits_unchecked(p, l)) {
                eq!(c, x & low, m.window(p, n - p), "get_bits_unchecked({p}, {l}) of {n}: valid bits");
            }
            if let Some(x) = try_(|| lazy.get_bits_unchecked(p, l)) {
                eq!(c, x & low, m.window(p, n - p) ^ mask.window(p, n - p), "get_bits_unchecked({p}, {l}) of {n} masked: valid bits");
            }
        }
    }
    Ok(())
}

fn elias(c: &mut Ctx, e: &[u64]) -> R {
    let ef = EliasFanoVec::from_slice(e);
    let n = e.len();
    for (i, &x) in e.iter().enumerate() {
        eq!(c, try_(|| ef.get_unchecked(i)), Some(x), "get_unchecked({i}) of {n}");
    }
    for i in (n..n + 70).chain([2 * n, 2 * n + 1, 3 * n, n + 4096]).chain(WILD) {
        if i >= n {
            eq!(c, try_(|| ef.get_unchecked(i)), None, "get_unchecked({i}) of {n} elements has to panic");
        }
    }
    Ok(())
}

fn wavelet(c: &mut Ctx, n: usize, k: u16) -> R {
    // words of k bits, and a bit vector of n bits
    let bits = tile(9, n).bv(Dirt::Ones);
    let fits = n % k as usize == 0;
    let got = try_(|| WaveletMatrix::from_bit_vec(&bits, k).len());
    eq!(c, got, fits.then_some(n / k as usize), "from_bit_vec of {n} bits, {k} per element");
    if k <= 14 || k > 64 || !fits {
        let got = try_(|| WaveletMatrix::from_bit_vec_pc(&bits, k).len());
        eq!(c, got, (fits && k <= 64).then_some(n / k as usize), "from_bit_vec_pc of {n} bits, {k} per element");
    }
    let m = n % 40;
    let s: Vec<u64> = (0..m as u64).map(|x| (x * 5 + 1) & !0 >> 64u16.saturating_sub(k).min(63)).collect();
    let got = try_(|| WaveletMatrix::from_slice(&s, k).len());
    eq!(c, got, (k <= 64).then_some(m), "from_slice of {m} elements, {k} bits");
    if k <= 14 || k > 64 {
        let got = try_(|| WaveletMatrix::from_slice_pc(&s, k).len());
        eq!(c, got, (k <= 64).then_some(m), "from_slice_pc of {m} elements, {k} bits");
    }
    Ok(())
}

fn rmq(c: &mut Ctx, data: &[u64]) -> R {
    let n = data.len();
    let both: [(&str, Box<dyn Fn((Bound<usize>, Bound<usize>)) -> usize>); 4] = {
        let (a, b) = (BinaryRmq::from_vec(data.to_vec()), FastRmq::from_vec(data.to_vec()));
        let (x, y): (BinaryRmq, FastRmq) = (data.iter().copied().collect(), data.iter().copied().collect());
        [
            ("BinaryRmq", Box::new(move |r| a.range_min_with_range(r))),
            ("FastRmq", Box::new(move |r| b.range_min_with_range(r))),
            ("collected BinaryRmq", Box::new(move |r| x.range_min_with_range(r))),
            ("collected FastRmq", Box::new(move |r| y.range_min_with_range(r))),
        ]
    };
    let mut ends: Vec<usize> = if n <= 20 { (0..n + 3).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
    ends.extend(WILD);
    let bounds = |x: usize| [Bound::Included(x), Bound::Excluded(x), Bound::Unbounded];
    for (name, f) in &both {
        for &i in &ends {
            for &j in &ends {
                for a in bounds(i) {
                    for b in bounds(j) {
                        let got = try_(|| f((a, b)));
                        // without overflow checks the panic of an empty structure is up to the bounds checks inside
                        if n > 0 || cfg!(debug_assertions) {
                            ck!(c, got.is_some() == (n > 0), "{name} of {n} elements, range {a:?}, {b:?}: {got:?}");
                        }
                        if let (Some(p), true) = (got, n > 0) {
                            ck!(c, p < n, "{name} of {n} elements, range {a:?}, {b:?}: position {p}");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C31");
    let t = r.thorough;
    let n = r.t(7u32, 10);
    r.family("strings", strings_upto(n) * 2, move |i, c| {
        let mut d = Dec(i);
        let dirt = *d.pick(&DIRTS);
        let m = string(d.0);
        c.note(|| format!("{dirt:?} {m:?}"));
        c.visit(i);
        bitvec(c, &m, dirt)
    });
    let mut lens: Vec<usize> = if t { (0..=330).collect() } else { (0..=70).chain(120..=135).collect() };
    lens.extend([191, 192, 193, 255, 256, 257, 447, 448, 511, 512, 513, 640]);
    let nl = lens.len() as u64;
    let ls = lens.clone();
    r.family("lengths", nl * TILE_KINDS * 2, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&ls);
        let dirt = *d.pick(&DIRTS);
        let m = tile(d.0, n);
        c.note(|| format!("{dirt:?} {m:?}"));
        c.visit(i);
        bitvec(c, &m, dirt)
    });
    let k = r.t(9u32, 12);
    r.family("sets", (1 << k) * 6, move |i, c| {
        let mut d = Dec(i);
        let (f, o) = *d.pick(&[(1u64, 0u64), (1, 7), (17, 3), (1 << 20, 5), (1 << 40, 0), (u64::MAX / 20, 1)]);
        let e: Vec<u64> = (0..u64::from(k)).filter(|b| d.0 >> b & 1 == 1).flat_map(|b| vec![b * f + o; 1 + (b % 3 == 1) as usize]).collect();
        c.note(|| format!("{e:?}"));
        c.visit(i);
        elias(c, &e)
    });
    let m = r.t(200u64, 600);
    r.family("sequences", m * 6, move |i, c| {
        let mut d = Dec(i);
        let n = d.take(m) * if d.0 == 5 { 50 } else { 1 };
        let e: Vec<u64> = (0..n)
            .map(|x| match d.0 {
                0 => x,
                1 => x * 3,
                2 => x * x,
                3 => 9,
                4 => x << 50,
                _ => x / 64 * 1000 + x % 64 / 8,
            })
            .take_while(|&x| x < 1 << 62)
            .collect();
        let mut e = e;
        e.sort_unstable();
        c.note(|| format!("{} elements of kind {}", e.len(), d.0));
        c.visit(i);
        elias(c, &e)
    });
    let (nn, kk) = (r.t(140u64, 400), r.t(140u64, 300));
    r.family("wavelet", nn * kk, move |i, c| {
        let mut d = Dec(i);
        let n = d.take(nn) as usize;
        let k = 1 + d.0 as u16;
        c.note(|| format!("{n} bits, {k} per element"));
        c.visit(i);
        wavelet(c, n, k)
    });
    r.family("wavelet-wide", 40 * 9, move |i, c| {
        let mut d = Dec(i);
        let k = *d.pick(&[64u16, 65, 127, 128, 255, 256, 1000, 32768, u16::MAX]);
        let n = d.0 as usize / 4 * k as usize + d.0 as usize % 4;
        c.note(|| format!("{n} bits, {k} per element"));
        c.visit(i);
        wavelet(c, n, k)
    });
    let q = r.t(40u64, 300);
    r.family("rmq", q, move |i, c| {
        let n = if i < 24 { i } else { (i - 23) * 61 };
        let data: Vec<u64> = (0..n).map(|x| (x * 2654435761) % 97).collect();
        c.note(|| format!("{n} elements"));
        c.visit(i);
        rmq(c, &data)
    });
    r.finish()
}
