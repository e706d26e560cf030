//! Bit vectors of more than 2^32 bits with a closed-form model: a list of runs of ones, zeros, or alternating bits.
//! Positions, ranks and excesses beyond 32 bits occur nowhere else.
use std::sync::{Condvar, Mutex};
use vers_vecs::BitVec;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Run {
    Zeros,
    Ones,
    /// 1 0 1 0 ..., starting at an even position
    Alt,
}
use Run::*;
pub struct Giga {
    /// start, what, ones before
    runs: Vec<(usize, Run, usize)>,
    pub len: usize,
}
/// A few cases at a time: each takes half a gigabyte per vector.
pub struct Permit;
static FREE: Mutex<usize> = Mutex::new(4);
static BACK: Condvar = Condvar::new();
pub fn permit() -> Permit {
    let mut n = FREE.lock().unwrap();
    while *n == 0 {
        n = BACK.wait(n).unwrap();
    }
    *n -= 1;
    Permit
}
impl Drop for Permit {
    fn drop(&mut self) {
        *FREE.lock().unwrap_or_else(|e| e.into_inner()) += 1;
        BACK.notify_one();
    }
}
pub const G32: usize = 1 << 32;
pub const KINDS: u64 = 5;
impl Giga {
    pub fn new(parts: &[(Run, usize)]) -> Giga {
        let (mut at, mut ones) = (0, 0);
        let mut runs = vec![];
        for &(r, n) in parts {
            if n == 0 {
                continue;
            }
            assert!(r != Alt || at % 2 == 0);
            runs.push((at, r, ones));
            at += n;
            ones += match r {
                Zeros => 0,
                Ones => n,
                Alt => n.div_ceil(2),
            };
        }
        Giga { runs, len: at }
    }
    pub fn kind(k: u64) -> Giga {
        match k {
            // zeros with a few ones; more than 2^32 zeros
            0 => Giga::new(&[(Zeros, 77), (Ones, 3), (Zeros, (1 << 31) - 81), (Ones, 2), (Zeros, (1 << 31) + 70_001), (Ones, 9_000), (Zeros, 40_000), (Ones, 1), (Zeros, 21)]),
            // the other way round
            1 => Giga::new(&[(Ones, 77), (Zeros, 3), (Ones, (1 << 31) - 81), (Zeros, 2), (Ones, (1 << 31) + 70_001), (Zeros, 9_000), (Ones, 40_000), (Zeros, 1), (Ones, 21)]),
            // a long run of ones, then zeros, then ones again; all boundaries odd
            2 => Giga::new(&[(Ones, (1 << 31) + 513), (Zeros, (1 << 31) - 1), (Ones, 1_000_001), (Zeros, 63)]),
            // alternating
            3 => Giga::new(&[(Alt, G32 + 5_000_000), (Zeros, 100), (Ones, 31)]),
            // everything interesting behind 2^32
            _ => Giga::new(&[(Zeros, G32), (Alt, 100_000), (Ones, 30_000), (Zeros, 30_000), (Alt, 4_097)]),
        }
    }
    fn run(&self, i: usize) -> usize {
        self.runs.partition_point(|r| r.0 <= i) - 1
    }
    pub fn get(&self, i: usize) -> bool {
        let r = self.runs[self.run(i)];
        match r.1 {
            Zeros => false,
            Ones => true,
            Alt => (i - r.0) % 2 == 0,
        }
    }
    pub fn window(&self, pos: usize, len: usize) -> u64 {
        (0..len).fold(0, |a, k| a | (self.get(pos + k) as u64) << k)
    }
    pub fn rank1(&self, i: usize) -> usize {
        if i == 0 {
            return 0;
        }
        let r = self.runs[self.run(i - 1)];
        r.2 + match r.1 {
            Zeros => 0,
            Ones => i - r.0,
            Alt => (i - r.0).div_ceil(2),
        }
    }
    pub fn rank(&self, bit: bool, i: usize) -> usize {
        if bit { self.rank1(i) } else { i - self.rank1(i) }
    }
    pub fn count(&self, bit: bool) -> usize {
        self.rank(bit, self.len)
    }
    /// position of the k-th bit of a kind, by bisection of the rank
    pub fn select(&self, bit: bool, k: usize) -> Option<usize> {
        if k >= self.count(bit) {
            return None;
        }
        let (mut a, mut b) = (0, self.len);
        while b - a > 1 {
            let m = a + (b - a) / 2;
            if self.rank(bit, m) <= k { a = m } else { b = m }
        }
        Some(a)
    }
    pub fn words(&self) -> Vec<u64> {
        let mut w = vec![0u64; self.len.div_ceil(64)];
        for (x, r) in self.runs.iter().enumerate() {
            let end = self.runs.get(x + 1).map_or(self.len, |n| n.0);
            let fill = match r.1 {
                Zeros => continue,
                Ones => u64::MAX,
                Alt => 0x5555_5555_5555_5555,
            };
            let (a, b) = (r.0 / 64, end.div_ceil(64));
            for (k, w) in w[a..b].iter_mut().enumerate() {
                let at = (a + k) * 64;
                let mut m = u64::MAX;
                if at < r.0 {
                    m &= u64::MAX << (r.0 - at);
                }
                if at + 64 > end {
                    m &= u64::MAX >> (at + 64 - end);
                }
                *w |= fill & m;
            }
        }
        w
    }
    pub fn bv(&self) -> BitVec {
        let w = self.words();
        let pad = w.len() * 64 - self.len;
        let mut b = BitVec::from_vec(w);
        if pad > 0 {
            b.drop_last(pad);
        }
        b
    }
    /// Positions around everything that could matter, ascending, at most `len`.
    pub fn spots(&self) -> Vec<usize> {
        let mut at: Vec<usize> = vec![0, 1 << 31, 1 << 32, (1 << 32) + 65_536, self.len, self.len / 2, self.len / 3, 1 << 30, 3 << 30, 1 << 16, 1 << 24];
        at.extend(self.runs.iter().map(|r| r.0));
        let mut v = vec![];
        for a in at {
            for d in [0usize, 1, 2, 3, 31, 32, 63, 64, 65, 127, 511, 512, 513, 1000, 8191, 8192, 8193] {
                v.push(a + d);
                v.push(a.saturating_sub(d));
            }
        }
        v.retain(|&p| p <= self.len);
        v.sort();
        v.dedup();
        v
    }
    /// Ranks around everything that could matter.
    pub fn ranks(&self, bit: bool) -> Vec<usize> {
        let n = self.count(bit);
        let mut v: Vec<usize> = self.spots().iter().map(|&p| self.rank(bit, p)).collect();
        for a in [0, n, 1usize << 31, 1 << 32, n / 2, n / 3, 8192, 16_384] {
            for d in [0usize, 1, 2, 8191, 8192, 8193] {
                v.push(a + d);
                v.push(a.saturating_sub(d));
            }
        }
        v.retain(|&k| k < n);
        v.sort();
        v.dedup();
        v
    }

    // ------------------------------------------------------------ as parentheses
    /// excess of the first k parentheses
    pub fn p(&self, k: usize) -> i64 {
        2 * self.rank1(k) as i64 - k as i64
    }
    /// offset of the first (or last) k in lo..=hi with excess v, within one run
    fn in_run(&self, x: usize, lo: usize, hi: usize, v: i64, last: bool) -> Option<usize> {
        let (s, r, _) = self.runs[x];
        let e = self.runs.get(x + 1).map_or(self.len, |n| n.0);
        let (lo, hi) = (lo.max(s), hi.min(e));
        let at = self.p(s);
        let k = match r {
            Ones => s as i64 + (v - at),
            Zeros => s as i64 - (v - at),
            Alt if v != at && v != at + 1 => return None,
            Alt => {
                let odd = (v != at) as usize;
                let k = if last { hi } else { lo };
                if k < s {
                    return None;
                }
                if (k - s) % 2 == odd {
                    k as i64
                } else if last {
                    k as i64 - 1
                } else {
                    k as i64 + 1
                }
            }
        };
        (k >= lo as i64 && k <= hi as i64).then_some(k as usize)
    }
    pub fn next_p(&self, k0: usize, v: i64) -> Option<usize> {
        (0..self.runs.len()).find_map(|x| self.in_run(x, k0 + 1, self.len, v, false))
    }
    pub fn prev_p(&self, k0: usize, v: i64) -> Option<usize> {
        if k0 == 0 {
            return None;
        }
        (0..self.runs.len()).rev().find_map(|x| self.in_run(x, 0, k0 - 1, v, true))
    }
    pub fn fwd(&self, i: usize, r: i64) -> Option<usize> {
        (i < self.len).then(|| self.next_p(i + 1, self.p(i + 1) + r).map(|k| k - 1)).flatten()
    }
    pub fn bwd(&self, i: usize, r: i64) -> Option<usize> {
        (i < self.len).then(|| self.prev_p(i, self.p(i) + r)).flatten()
    }
    /// Trees: a chain holding a row of leaves; a row of leaves under one root; leaves, then a chain, then leaves.
    pub fn tree(k: u64) -> Giga {
        match k {
            0 => Giga::new(&[(Ones, (1 << 31) + 1000), (Alt, 50_000), (Zeros, (1 << 31) + 1000)]),
            1 => Giga::new(&[(Ones, 2), (Alt, G32 + 40_000), (Zeros, 2)]),
            _ => Giga::new(&[(Ones, 4), (Alt, 1 << 31), (Ones, 90_000), (Zeros, 90_000), (Alt, (1 << 31) + 6_000), (Ones, 2), (Alt, 3_000), (Zeros, 6)]),
        }
    }
    /// Opening parentheses around everything that could matter.
    pub fn nodes(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.spots().into_iter().filter(|&p| p < self.len && self.get(p)).collect();
        let more: Vec<usize> = v.iter().filter_map(|&h| self.fwd(h, -1)).flat_map(|c| [c - 1, c + 1]).collect();
        v.extend(more.into_iter().filter(|&p| p < self.len && self.get(p)));
        v.sort();
        v.dedup();
        v
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn small() {
        for parts in [
            vec![(Ones, 5), (Alt, 7), (Zeros, 9), (Ones, 1), (Zeros, 3), (Ones, 4)],
            vec![(Zeros, 4), (Alt, 10), (Ones, 8), (Zeros, 6)],
            vec![(Alt, 9)],
            vec![(Alt, 8), (Ones, 70), (Zeros, 130), (Alt, 66)],
        ] {
            let parts: Vec<(Run, usize)> = if parts[0].1 == 5 { [(Ones, 1), (Ones, 5)].into_iter().chain(parts[1..].iter().copied()).collect() } else { parts };
            let g = Giga::new(&parts);
            let bits: Vec<bool> = (0..g.len).map(|i| g.get(i)).collect();
            let w = g.words();
            let mut p = vec![0i64];
            let mut ones = vec![];
            for (i, &b) in bits.iter().enumerate() {
                assert_eq!(w[i / 64] >> (i % 64) & 1 == 1, b);
                assert_eq!(g.rank1(i), ones.len());
                if b {
                    assert_eq!(g.select(true, ones.len()), Some(i));
                    ones.push(i);
                }
                p.push(p[i] + if b { 1 } else { -1 });
            }
            assert_eq!(g.bv().len(), g.len);
            for k in 0..=g.len {
                assert_eq!(g.p(k), p[k]);
                for v in -80..90 {
                    assert_eq!(g.next_p(k, v), (k + 1..=g.len).find(|&j| p[j] == v), "{k} {v}");
                    assert_eq!(g.prev_p(k, v), (0..k).rev().find(|&j| p[j] == v), "{k} {v}");
                }
            }
        }
    }
}
