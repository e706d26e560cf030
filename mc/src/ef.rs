//! Families of non-decreasing sequences.
use crate::Dec;

/// Number of non-decreasing sequences of length exactly n over k values: C(n+k-1, n).
pub fn multisets(n: u64, k: u64) -> u64 {
    if k == 0 {
        return (n == 0) as u64;
    }
    let mut r = 1u128;
    for i in 0..n as u128 {
        r = r * (k as u128 + i) / (i + 1);
    }
    r as u64
}
/// The idx-th non-decreasing sequence of length n over 0..k.
pub fn multiset(mut idx: u64, n: u64, k: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut lo = 0;
    for left in (0..n).rev() {
        // choose the smallest next value x >= lo
        let mut x = lo;
        loop {
            let c = multisets(left, k - x);
            if idx < c {
                break;
            }
            idx -= c;
            x += 1;
        }
        v.push(x);
        lo = x;
    }
    v
}
/// sequences of length 0..=n over k values
pub fn multisets_upto(n: u64, k: u64) -> u64 {
    (0..=n).map(|m| multisets(m, k)).sum()
}
pub fn multiset_upto(mut idx: u64, n: u64, k: u64) -> Vec<u64> {
    for m in 0..=n {
        let c = multisets(m, k);
        if idx < c {
            return multiset(idx, m, k);
        }
        idx -= c;
    }
    unreachable!()
}

pub struct SeqFam {
    pub name: &'static str,
    pub count: u64,
    pub f: fn(u64, bool) -> Vec<u64>,
}
const M: u64 = u64::MAX;

fn small(idx: u64, t: bool) -> Vec<u64> {
    let mut d = Dec(idx);
    let base = *d.pick(&[0u64, 1, 1000, 1 << 63, M - 6]);
    let n = if t { 8 } else { 6 };
    multiset_upto(d.0, n, 7).into_iter().map(|x| x + base).collect()
}
const EXTREME: [u64; 16] = [
    0,
    1,
    2,
    3,
    7,
    255,
    (1 << 31) + 5,
    (1 << 32) - 1,
    1 << 32,
    (1 << 53) + 1,
    (1 << 62) - 1,
    (1 << 63) - 1,
    1 << 63,
    (1 << 63) + 1,
    M - 1,
    M,
];
fn extreme(idx: u64, t: bool) -> Vec<u64> {
    let n = if t { 6 } else { 4 };
    multiset_upto(idx, n, 16).into_iter().map(|x| EXTREME[x as usize]).collect()
}
/// a cluster in a window of 6 values, optionally an element before it and one far behind it
fn cluster(idx: u64, t: bool) -> Vec<u64> {
    let mut d = Dec(idx);
    let base = *d.pick(&[0u64, 1, 5, 61, 1000]);
    let hi = *d.pick(&[None, Some(9u64), Some(50), Some(1000), Some(1 << 20), Some(1 << 40)]);
    let low = d.take(2) == 1;
    let n = if t { 11 } else { 8 };
    let c = multiset_upto(d.0, n, 6);
    let mut v: Vec<u64> = vec![];
    if low {
        v.push(0);
    }
    v.extend(c.iter().map(|x| x + base));
    if let Some(h) = hi {
        v.push(base + h);
    }
    v
}
/// A long bucket: arithmetic elements with one duplicated run, an outlier that makes the buckets wide, and a
/// neighbouring bucket.
fn bucket(idx: u64, _t: bool) -> Vec<u64> {
    let mut d = Dec(idx);
    let n = *d.pick(&[5usize, 6, 7, 8, 9, 10, 12, 16, 17, 33]);
    let step = *d.pick(&[0u64, 1, 2, 3]);
    let dup_at = d.take(5) as usize * n / 5;
    let dup_len = *d.pick(&[0usize, 1, 2, 5, 9]);
    let base = *d.pick(&[0u64, 3, 1 << 14]);
    let before = *d.pick(&[0usize, 1, 3]);
    let outlier = *d.pick(&[1u64 << 13, 1 << 16, 1 << 24, 1 << 50]);
    let mut v = vec![];
    for i in 0..before {
        v.push(i as u64);
    }
    let base = base + before as u64;
    for i in 0..n {
        let x = base + i as u64 * step;
        v.push(x);
        if i == dup_at {
            for _ in 0..dup_len {
                v.push(x);
            }
        }
    }
    let l = *v.last().unwrap();
    v.push(l + outlier);
    v.push(l + outlier + 1);
    v
}
/// thousands of elements, so that the underlying index has several blocks
fn large(idx: u64, _t: bool) -> Vec<u64> {
    let mut d = Dec(idx);
    let n = *d.pick(&[100u64, 511, 512, 4095, 4096, 8191, 8192, 8193, 20_000, 70_000]);
    let base = *d.pick(&[0u64, 77, 1 << 62]);
    let k = d.take(8);
    (0..n)
        .map(|i| {
            base + match k {
                0 => i,
                1 => i / 7,
                2 => 3 * i,
                3 => i * i,
                4 => 1000 * i + (i % 3),
                5 => {
                    if i < n / 2 {
                        i / 3
                    } else {
                        (1 << 30) + i
                    }
                }
                6 => {
                    if i < 10 {
                        i << 20
                    } else {
                        (10 << 20) + i * 2
                    }
                }
                _ => {
                    if i + 1 == n {
                        1 << 61
                    } else {
                        5 * i
                    }
                }
            }
        })
        .collect()
}
/// around a million elements: no period in the gaps between them
fn mega(idx: u64, _t: bool) -> Vec<u64> {
    let mut d = Dec(idx);
    let n = *d.pick(&[131_073u64, 1_048_579]);
    let k = d.take(4);
    let mut x = 5u64;
    (0..n)
        .map(|i| {
            let h = crate::gen::scramble(i);
            x += match k {
                0 => h % 3,
                1 => h % 1000,
                // long runs of equal elements
                2 => (h % 5000 == 0) as u64 * (h >> 40),
                _ => (h % 70_000 == 0) as u64 * (1 << 38) + h % 2,
            };
            x
        })
        .collect()
}
/// every length, few shapes
fn lengths(idx: u64, _t: bool) -> Vec<u64> {
    let mut d = Dec(idx);
    let k = d.take(7);
    let n = d.0;
    let mut v: Vec<u64> = (0..n)
        .map(|i| match k {
            0 => 0,
            1 => i,
            2 => i * 2,
            3 => i * 100,
            4 => i / 2,
            5 => 40 + i.saturating_sub(n / 2) * 1000,
            _ => i.saturating_sub(n / 2) + (i / 3),
        })
        .collect();
    v.sort();
    v
}

pub fn seq_fams(t: bool) -> Vec<SeqFam> {
    vec![
        SeqFam { name: "small", count: 5 * multisets_upto(if t { 8 } else { 6 }, 7), f: small },
        SeqFam { name: "extreme", count: multisets_upto(if t { 6 } else { 4 }, 16), f: extreme },
        SeqFam { name: "cluster", count: 5 * 6 * 2 * multisets_upto(if t { 11 } else { 8 }, 6), f: cluster },
        SeqFam { name: "bucket", count: 10 * 4 * 5 * 5 * 3 * 3 * 4, f: bucket },
        SeqFam { name: "lengths", count: 7 * 300, f: lengths },
        SeqFam { name: "large", count: 10 * 3 * 8, f: large },
        SeqFam { name: "mega", count: 2 * 4, f: mega },
    ]
}
/// every element, its neighbours, and the ends of the universe
pub fn queries(v: &[u64]) -> Vec<u64> {
    let mut q: Vec<u64> = vec![0, 1, M, M - 1, 1 << 63];
    for &x in v {
        for d in 0..=2u64 {
            q.push(x.saturating_add(d));
            q.push(x.saturating_sub(d));
        }
    }
    for w in v.windows(2) {
        let mid = w[0] + (w[1] - w[0]) / 2;
        q.push(mid);
        // the first value that differs in its upper half for every split
        if v.len() < 60 {
            for s in [3u32, 7, 13, 20, 40] {
                let x = (w[0] >> s).wrapping_add(1) << s;
                if x >= w[0] && x <= w[1] {
                    q.push(x);
                    q.push(x - 1);
                }
            }
        }
    }
    q.sort();
    q.dedup();
    q
}
