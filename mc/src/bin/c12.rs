//! C12: range minimum structures.
use mc::model::{Hinted, HINTS};
use mc::*;
use std::ops::Bound;
use vers_vecs::{BinaryRmq, FastRmq};

fn ok(v: &[u64], i: usize, j: usize, min: u64, got: usize) -> bool {
    got >= i && got <= j && v[got] == min
}
/// all inclusive ranges whose ends are both in `ends` (sorted)
fn ranges(c: &mut Ctx, v: &[u64], ends: &[usize], b: &BinaryRmq, f: &FastRmq) -> R {
    let mut n = 0;
    for (a, &i) in ends.iter().enumerate() {
        let mut min = v[i];
        let mut at = i;
        for &j in &ends[a..] {
            while at < j {
                at += 1;
                min = min.min(v[at]);
            }
            let g = b.range_min(i, j);
            if !ok(v, i, j, min, g) {
                return Err(format!("BinaryRmq::range_min({i}, {j}) = {g}, the minimum is {min}"));
            }
            let g = f.range_min(i, j);
            if !ok(v, i, j, min, g) {
                return Err(format!("FastRmq::range_min({i}, {j}) = {g}, the minimum is {min}"));
            }
            n += 2;
        }
    }
    c.tick(n);
    Ok(())
}
fn forms(c: &mut Ctx, v: &[u64], ends: &[usize], b: &BinaryRmq, f: &FastRmq) -> R {
    let n = v.len();
    macro_rules! both {
        ($i:expr, $j:expr, $r:expr) => {{
            let (i, j): (usize, usize) = ($i, $j);
            let min = *v[i..=j].iter().min().unwrap();
            let g = b.range_min_with_range($r);
            ck!(c, ok(v, i, j, min, g), "BinaryRmq::range_min_with_range({:?}) = {g}, the minimum is {min}", $r);
            let g = f.range_min_with_range($r);
            ck!(c, ok(v, i, j, min, g), "FastRmq::range_min_with_range({:?}) = {g}, the minimum is {min}", $r);
        }};
    }
    both!(0, n - 1, ..);
    for &i in ends {
        both!(i, n - 1, i..);
        both!(0, i, ..=i);
        both!(0, i, ..i + 1);
        for &j in ends.iter().filter(|&&j| j >= i) {
            both!(i, j, i..=j);
            both!(i, j, i..j + 1);
            if i > 0 {
                both!(i, j, (Bound::Excluded(i - 1), Bound::Included(j)));
                both!(i, j, (Bound::Excluded(i - 1), Bound::Excluded(j + 1)));
            }
            both!(i, j, (Bound::Included(i), Bound::Excluded(j + 1)));
        }
        if i > 0 {
            both!(i, n - 1, (Bound::Excluded(i - 1), Bound::<usize>::Unbounded));
        }
        // clamped to the length
        for e in [n, n + 1, 2 * n + 128, usize::MAX] {
            both!(i, n - 1, i..e);
            both!(i, n - 1, i..=e);
            both!(0, n - 1, ..e);
            both!(0, n - 1, ..=e);
        }
    }
    Ok(())
}
fn build(c: &mut Ctx, v: &[u64], how: u64) -> Result<(BinaryRmq, FastRmq), String> {
    let (b, f) = match how % 3 {
        0 => (BinaryRmq::from_vec(v.to_vec()), FastRmq::from_vec(v.to_vec())),
        1 => (BinaryRmq::from(v.to_vec()), FastRmq::from(v.to_vec())),
        _ => {
            // all kinds of size hints over the cases of a family
            let h = how / 3 % HINTS;
            (Hinted::new(v.iter().copied(), v.len(), h).collect(), Hinted::new(v.iter().copied(), v.len(), h).collect())
        }
    };
    // the values stay readable
    ck!(c, &b[..] == v && b.len() == v.len() && b.iter().eq(v.iter()), "BinaryRmq changed the values");
    ck!(c, &f[..] == v && f.len() == v.len() && f.iter().eq(v.iter()), "FastRmq changed the values");
    ck!(c, f.is_empty() == v.is_empty() && b.is_empty() == v.is_empty(), "is_empty");
    for (i, &x) in v.iter().enumerate() {
        if b[i] != x || f[i] != x {
            return Err(format!("value {i} reads back differently"));
        }
    }
    Ok((b, f))
}
fn check(c: &mut Ctx, v: &[u64], ends: &[usize], how: u64) -> R {
    c.visit_global(hash_of(v));
    let (b, f) = build(c, v, how)?;
    if v.is_empty() {
        return Ok(());
    }
    ranges(c, v, ends, &b, &f)?;
    if v.len() <= 10 {
        forms(c, v, ends, &b, &f)?;
    } else if how % 16 == 5 {
        let e: Vec<usize> = ends.iter().copied().step_by(ends.len().div_ceil(12)).collect();
        forms(c, v, &e, &b, &f)?;
    }
    Ok(())
}
const ALPHA: [u64; 5] = [0, 7, 1 << 63, u64::MAX - 1, u64::MAX];

const SHAPES: u64 = 13;
/// a sequence of n values, deterministic function of the shape
fn shape(k: u64, n: usize) -> Vec<u64> {
    let n64 = n as u64;
    (0..n64)
        .map(|i| match k {
            0 => 5,
            1 => i,
            2 => n64 - i,
            3 => i.abs_diff(n64 / 2),
            4 => n64 - i.abs_diff(n64 / 2),
            5 => i % 2,
            6 => (i + 1) % 2,
            7 => i % 64,
            8 => 64 - i % 64,
            9 => i % 128,
            10 => 200 - i % 128 + i / 128,
            11 => (i * 37) % 101,
            _ => u64::MAX - (i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 60),
        })
        .collect()
}
/// in-block shapes for sequences of blocks
fn block(k: u64) -> Vec<u64> {
    let mut v = vec![50u64; 128];
    match k {
        0 => {}
        1 => v[0] = 10,
        2 => v[127] = 10,
        3 => v[64] = 10,
        4 => (0..128).for_each(|i| v[i] = 40 + i as u64),
        5 => (0..128).for_each(|i| v[i] = 200 - i as u64),
        6 => {
            v[63] = 20;
            v[1] = 20
        }
        _ => (0..128).for_each(|i| v[i] = 20 + (i as u64 * 53) % 97),
    }
    v
}

fn main() {
    let mut r = Runner::new("C12");
    let all = |n: usize| -> Vec<usize> { (0..n).collect() };
    // every short sequence, every range, every range form
    let n = r.t(6u32, 8u32);
    r.family("short", (0..=n).map(|k| 5u64.pow(k)).sum(), move |i, c| {
        let (mut x, mut k) = (i, 0);
        while x >= 5u64.pow(k) {
            x -= 5u64.pow(k);
            k += 1;
        }
        let mut d = Dec(x);
        let v: Vec<u64> = (0..k).map(|_| *d.pick(&ALPHA)).collect();
        c.note(|| format!("{v:?}"));
        check(c, &v, &all(v.len()), i)
    });
    // every length and shape, every range
    let top = r.t(280u64, 420u64);
    r.family("lengths", top * SHAPES, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(SHAPES);
        let v = shape(k, d.0 as usize);
        c.note(|| format!("shape {k} of length {}", v.len()));
        check(c, &v, &all(v.len()), i)
    });
    // minimum (and second minimum) at every pair of positions around the word, block and end boundaries
    r.family("spots", 34 * 34 * 3 * 2, move |i, c| {
        const P: [usize; 34] = [
            0, 1, 2, 31, 62, 63, 64, 65, 66, 100, 125, 126, 127, 128, 129, 130, 160, 190, 191, 192, 193, 194, 253, 254, 255,
            256, 257, 258, 300, 318, 319, 320, 321, 383,
        ];
        let mut d = Dec(i);
        let (p, q) = (*d.pick(&P), *d.pick(&P));
        let base = d.take(3);
        let len = *d.pick(&[384usize, 385 + 40]);
        let mut v = match base {
            0 => vec![50; len],
            1 => (0..len as u64).map(|x| 50 + x).collect(),
            _ => (0..len as u64).map(|x| 5000 - x).collect::<Vec<u64>>(),
        };
        v[q] = 20;
        v[p] = 10;
        c.note(|| format!("base {base} of length {len}, 20 at {q}, 10 at {p}"));
        let mut e: Vec<usize> = P.iter().copied().chain([p + 1, q + 1, p, q, len - 1]).filter(|&x| x < len).collect();
        e.extend([p.saturating_sub(1), q.saturating_sub(1)]);
        e.sort();
        e.dedup();
        check(c, &v, &e, i)
    });
    // every string over three values around a block boundary
    let w = r.t(4u32, 5u32);
    r.family("edges", 3u64.pow(2 * w) * 4, move |i, c| {
        let mut d = Dec(i);
        let at = *d.pick(&[64usize, 128, 192, 256]);
        let w = w as usize;
        let mut v = vec![1000; 300];
        for k in 0..2 * w {
            v[at - w + k] = [0, 1, 2][d.take(3) as usize];
        }
        c.note(|| format!("{:?} around position {at}", &v[at - w..at + w]));
        let mut e: Vec<usize> = vec![0, 1, 63, 64, 127, 128, 129, 191, 192, 255, 256, 299];
        e.extend(at - w - 1..at + w + 1);
        e.sort();
        e.dedup();
        check(c, &v, &e, i)
    });
    // every string over three values, stretched over a whole block
    let w = r.t(7u32, 9u32);
    r.family("stretch", 3u64.pow(w) * 3, move |i, c| {
        let mut d = Dec(i);
        let step = *d.pick(&[1usize, 16, 37]);
        let (w, mut v) = (w as usize, vec![9; 130]);
        let mut e = vec![0, 129];
        for k in 0..w {
            let p = 2 + k * step;
            let x = d.take(3);
            if p < 130 {
                v[p] = x;
                e.push(p);
                e.push(p - 1);
            }
        }
        e.sort();
        e.dedup();
        c.note(|| format!("{v:?}"));
        check(c, &v, &e, i)
    });
    // sequences of block shapes
    let nb = r.t(4u32, 5u32);
    r.family("blocks", 8u64.pow(nb) * 3, move |i, c| {
        let mut d = Dec(i);
        let mut v = vec![];
        let mut ks = vec![];
        for _ in 0..nb {
            let k = d.take(8);
            ks.push(k);
            v.extend(block(k));
        }
        let cut = *d.pick(&[0usize, 1, 127]);
        v.truncate(v.len() - cut);
        c.note(|| format!("blocks {ks:?}, last {cut} cut off"));
        let mut e = vec![];
        for b in 0..nb as usize {
            e.extend([0, 1, 2, 62, 63, 64, 65, 100, 126, 127].iter().map(|x| x + 128 * b));
        }
        e.retain(|&x| x < v.len());
        check(c, &v, &e, i)
    });
    // large inputs: ends on a grid around every power of two
    r.family("large", SHAPES * 16, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(SHAPES);
        let n = *d.pick(&[
            511usize, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 16384, 33000,
        ]);
        let mut v = shape(k, n);
        v[n * 3 / 7] = if k % 2 == 0 { 0 } else { u64::MAX };
        c.note(|| format!("shape {k} of length {n}"));
        let mut e: Vec<usize> = vec![n * 3 / 7, n - 1, n - 2];
        let mut p = 1;
        while p <= 2 * n {
            for q in [p, p + p / 2, n.saturating_sub(p)] {
                e.extend([q.saturating_sub(1), q, q + 1]);
            }
            p *= 2;
        }
        e.extend((0..n).step_by(n / 40 + 1));
        e.extend((0..n).step_by(128));
        e.retain(|&x| x < n);
        e.sort();
        e.dedup();
        check(c, &v, &e, i)
    });
    // more than 2^16 elements
    r.family("huge", SHAPES * 3, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(SHAPES);
        let n = *d.pick(&[65536usize, 65537, 140_001]);
        let mut v = shape(k, n);
        v[n - 300] = if k % 2 == 0 { 0 } else { u64::MAX };
        c.note(|| format!("shape {k} of length {n}"));
        let mut e: Vec<usize> = vec![n - 300, n - 1, n - 2];
        let mut p = 64;
        while p <= n {
            for q in [p, n - p] {
                e.extend([q.saturating_sub(1), q, q + 1]);
            }
            p *= 2;
        }
        e.extend((0..n).step_by(n / 40 + 1));
        e.retain(|&x| x < n);
        e.sort();
        e.dedup();
        check(c, &v, &e, i)
    });
    // a million elements, and for the compact structure more than 2^16 blocks of 128
    r.family("mega", 6 * 2, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(6);
        let n = *d.pick(&[1_048_583usize, 8_400_001]);
        let mut v: Vec<u64> = (0..n as u64)
            .map(|x| match k {
                0 => gen::scramble(x),
                1 => gen::scramble(x) % 3,
                2 => x,
                3 => u64::MAX - x,
                4 => x ^ 0xffff,
                _ => gen::scramble(x >> 7) >> 20 << 7 | (gen::scramble(x) & 127),
            })
            .collect();
        v[n / 5 * 3 + 77] = 0;
        v[n - 3] = 1;
        c.note(|| format!("shape {k} of length {n}"));
        c.visit(i);
        let mut e: Vec<usize> = vec![n / 5 * 3 + 76, n / 5 * 3 + 77, n / 5 * 3 + 78, n - 1, n - 3];
        let mut p = 128;
        while p <= n {
            for q in [p, n - p] {
                e.extend([q.saturating_sub(1), q, q + 1]);
            }
            p *= 2;
        }
        e.extend((0..n).step_by(n / 50 + 1));
        e.extend([65_535 * 128, 65_536 * 128, 65_536 * 128 - 1, 65_537 * 128 + 5]);
        e.retain(|&x| x < n);
        e.sort();
        e.dedup();
        // the minimum between consecutive ends, so that each range is decided by a few comparisons
        let parts: Vec<u64> = e.windows(2).map(|w| *v[w[0]..=w[1]].iter().min().unwrap()).collect();
        let want = |a: usize, b: usize| parts[a..b].iter().copied().min().unwrap_or(v[e[a]]);
        let f = FastRmq::from_vec(v.clone());
        for a in 0..e.len() {
            for b in a..e.len() {
                let g = f.range_min(e[a], e[b]);
                ck!(c, ok(&v, e[a], e[b], want(a, b), g), "FastRmq::range_min({}, {}) = {g}", e[a], e[b]);
                let g = f.range_min_with_range(e[a]..=e[b]);
                ck!(c, ok(&v, e[a], e[b], want(a, b), g), "FastRmq::range_min_with_range({}..={}) = {g}", e[a], e[b]);
            }
        }
        eq!(c, f.len(), n, "FastRmq::len");
        if n < 2_000_000 {
            let f = BinaryRmq::from_vec(v.clone());
            for a in 0..e.len() {
                for b in a..e.len() {
                    let g = f.range_min(e[a], e[b]);
                    ck!(c, ok(&v, e[a], e[b], want(a, b), g), "BinaryRmq::range_min({}, {}) = {g}", e[a], e[b]);
                }
            }
        }
        Ok(())
    });
    r.finish()
}
