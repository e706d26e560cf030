//! Families of symbol sequences for the wavelet matrix. A symbol is a bit string of exactly k bits, ordered as a
//! number (least significant bit first in storage).
use crate::model::*;
use crate::Dec;
use std::cmp::Ordering;
use vers_vecs::{BitVec, WaveletMatrix};

pub type Sym = BM;
pub fn cmp(a: &Sym, b: &Sym) -> Ordering {
    for i in (0..a.w.len()).rev() {
        match a.w[i].cmp(&b.w[i]) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}
pub fn num(a: &Sym) -> u64 {
    a.w.first().copied().unwrap_or(0)
}
#[derive(Clone, Hash)]
pub struct Seq {
    pub k: usize,
    pub v: Vec<Sym>,
}
impl std::fmt::Debug for Seq {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k={} n={} [", self.k, self.v.len())?;
        for s in self.v.iter().take(40) {
            let w: Vec<String> = s.w.iter().rev().map(|x| format!("{x:x}")).collect();
            write!(f, "{} ", w.join("_"))?;
        }
        write!(f, "]")
    }
}
/// symbol from an integer (truncated to k bits, zero-extended)
pub fn sym(k: usize, v: u64) -> Sym {
    let mut b = BM::from_int(v, k.min(64));
    b.run(false, k - b.len);
    b
}
/// symbol with every word equal to w
pub fn splat(k: usize, w: u64) -> Sym {
    let mut b = BM { w: vec![w; k.div_ceil(64)], len: k.div_ceil(64) * 64 };
    b.truncate(k);
    b
}
/// add one / subtract one (wrapping)
pub fn inc(s: &Sym) -> Sym {
    let mut r = s.clone();
    for i in 0..r.len {
        let b = r.get(i);
        r.set(i, !b);
        if !b {
            break;
        }
    }
    r
}
pub fn dec(s: &Sym) -> Sym {
    let mut r = s.clone();
    for i in 0..r.len {
        let b = r.get(i);
        r.set(i, !b);
        if b {
            break;
        }
    }
    r
}
impl Seq {
    pub fn packed(&self) -> BM {
        let mut b = BM::new();
        for s in &self.v {
            b.extend(s);
        }
        b
    }
    pub fn nums(&self) -> Vec<u64> {
        self.v.iter().map(num).collect()
    }
    pub fn fits(&self) -> bool {
        self.k <= 64
    }
    /// every way to construct the matrix that is available for this width
    pub fn builds(&self) -> Vec<(&'static str, WaveletMatrix)> {
        let k = self.k as u16;
        let mut r = vec![
            ("from_bit_vec", WaveletMatrix::from_bit_vec(&self.packed().bv(Dirt::Ones), k)),
            ("from_bit_vec(clean)", WaveletMatrix::from_bit_vec(&self.packed().bv(Dirt::Clean), k)),
        ];
        if self.fits() {
            r.push(("from_slice", WaveletMatrix::from_slice(&self.nums(), k)));
        }
        if self.k <= 17 || (self.k <= 22 && self.v.len() == 7) {
            r.push(("from_bit_vec_pc", WaveletMatrix::from_bit_vec_pc(&self.packed().bv(Dirt::Ones), k)));
            r.push(("from_slice_pc", WaveletMatrix::from_slice_pc(&self.nums(), k)));
        }
        r
    }
    pub fn sorted(&self, i: usize, j: usize) -> Vec<Sym> {
        let mut v = self.v[i..j].to_vec();
        v.sort_by(cmp);
        v
    }
    /// symbols to ask for: everything for small widths, otherwise the stored ones, their neighbours and extremes
    pub fn symbols(&self) -> Vec<Sym> {
        let mut r: Vec<Sym> = vec![];
        if self.k <= 4 {
            return (0..1u64 << self.k).map(|x| sym(self.k, x)).collect();
        }
        let mut seen = self.v.clone();
        seen.sort_by(cmp);
        seen.dedup();
        let step = seen.len().div_ceil(12);
        for s in seen.iter().step_by(step.max(1)) {
            r.push(s.clone());
            r.push(inc(s));
            r.push(dec(s));
            for f in [0, self.k / 2, self.k - 1] {
                let mut x = s.clone();
                let b = x.get(f);
                x.set(f, !b);
                r.push(x);
            }
        }
        r.extend([sym(self.k, 0), splat(self.k, u64::MAX), splat(self.k, 0xaaaa_aaaa_aaaa_aaaa)]);
        r.sort_by(cmp);
        r.dedup();
        r
    }
}
pub fn bv(s: &Sym) -> BitVec {
    s.bv(if s.ones() % 2 == 0 { Dirt::Ones } else { Dirt::Clean })
}

pub struct WFam {
    pub name: &'static str,
    pub count: u64,
    pub f: fn(u64, bool) -> Seq,
}
fn count(base: u64, n: u32) -> u64 {
    (0..=n).map(|k| base.pow(k)).sum()
}
fn decode(mut i: u64, base: u64) -> Vec<u64> {
    let mut k = 0;
    while i >= base.pow(k) {
        i -= base.pow(k);
        k += 1;
    }
    let mut d = Dec(i);
    (0..k).map(|_| d.take(base)).collect()
}
fn bits(i: u64, _t: bool) -> Seq {
    Seq { k: 1, v: decode(i, 2).into_iter().map(|x| sym(1, x)).collect() }
}
fn quads(i: u64, _t: bool) -> Seq {
    Seq { k: 2, v: decode(i, 4).into_iter().map(|x| sym(2, x)).collect() }
}
fn octs(i: u64, _t: bool) -> Seq {
    Seq { k: 3, v: decode(i, 8).into_iter().map(|x| sym(3, x)).collect() }
}
fn hexs(i: u64, _t: bool) -> Seq {
    Seq { k: 4, v: decode(i, 16).into_iter().map(|x| sym(4, x)).collect() }
}
const WIDTHS: [usize; 22] = [4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 128, 129, 200];
fn alphabet(k: usize) -> [Sym; 6] {
    let mut top = sym(k, 0);
    top.set(k - 1, true);
    let mut low = splat(k, u64::MAX);
    low.set(k / 2, false);
    [sym(k, 0), splat(k, u64::MAX), sym(k, 1), top, splat(k, 0xaaaa_aaaa_aaaa_aaaa), low]
}
fn wide(i: u64, _t: bool) -> Seq {
    let mut d = Dec(i);
    let k = *d.pick(&WIDTHS);
    let a = alphabet(k);
    Seq { k, v: decode(d.0, 6).into_iter().map(|x| a[x as usize].clone()).collect() }
}
/// every width from 1 to 130, one fixed mixed sequence and two short ones
fn widths(i: u64, _t: bool) -> Seq {
    let mut d = Dec(i);
    let kind = d.take(4);
    let k = d.0 as usize + 1;
    let n = [1usize, 7, 30, 70][kind as usize];
    let v = (0..n as u64)
        .map(|i| {
            let h = (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            let mut s = splat(k, h ^ (h >> 29));
            if i % 5 == 0 {
                s = sym(k, i % 3);
            }
            s
        })
        .collect();
    Seq { k, v }
}
/// widths beyond one byte
fn very_wide(i: u64, _t: bool) -> Seq {
    let mut d = Dec(i);
    let k = *d.pick(&[255usize, 256, 257, 300, 513, 1030]);
    let kind = d.0;
    let v = (0..[3u64, 40][kind as usize % 2])
        .map(|i| {
            let h = (i / 2 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            let mut s = splat(k, h ^ (h >> 29));
            if kind >= 2 {
                // differ in one bit only
                s = sym(k, 3);
                s.set((i as usize * 37) % k, true);
            }
            s
        })
        .collect();
    Seq { k, v }
}
fn long(i: u64, t: bool) -> Seq {
    let mut d = Dec(i);
    let k = *d.pick(&[1usize, 2, 3, 8, 12, 64, 65]);
    let shape = d.take(5);
    let n = if t {
        *d.pick(&[63usize, 64, 65, 511, 512, 513, 1025, 8191, 8192, 8193, 16500, 30000])
    } else {
        *d.pick(&[64usize, 511, 513, 1025, 8193, 16500])
    };
    let m = if k >= 63 { u64::MAX } else { (1 << k) - 1 };
    let v = (0..n as u64)
        .map(|i| {
            let x = match shape {
                0 => i % 7,
                1 => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 50,
                2 => (i * (m.min(1 << 20) + 1)) / n as u64,
                3 => {
                    if i as usize == n / 2 {
                        m
                    } else {
                        0
                    }
                }
                _ => m.wrapping_sub((n as u64 - 1 - i) % 3),
            };
            sym(k, x & m)
        })
        .collect();
    Seq { k, v }
}
/// more than 2^16 elements
fn big(i: u64, _t: bool) -> Seq {
    let mut d = Dec(i);
    let k = *d.pick(&[2usize, 8, 65]);
    let n = *d.pick(&[65536u64, 66000]);
    let shape = d.0;
    let m = if k >= 63 { u64::MAX } else { (1 << k) - 1 };
    let v = (0..n)
        .map(|i| {
            let x = match shape {
                0 => {
                    if i % 1000 == 999 {
                        m - (i >> 10) % 2
                    } else {
                        0
                    }
                }
                1 => {
                    if i < n - 30 {
                        m - 1
                    } else {
                        i
                    }
                }
                _ => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 50,
            };
            sym(k, x & m)
        })
        .collect();
    Seq { k, v }
}
/// a few hundred thousand elements without a period
fn mega(i: u64, _t: bool) -> Seq {
    let mut d = Dec(i);
    let k = *d.pick(&[1usize, 3, 10]);
    let n = *d.pick(&[131_073u64, 270_001]);
    let skew = d.0 == 1;
    let v = (0..n)
        .map(|i| {
            let h = crate::gen::scramble(i);
            sym(k, if skew && h % 4099 != 0 { 1 } else { h >> 32 })
        })
        .collect();
    Seq { k, v }
}
pub fn fams(t: bool) -> Vec<WFam> {
    let p = |q: u32, th: u32| if t { th } else { q };
    vec![
        WFam { name: "k1", count: count(2, p(9, 12)), f: bits },
        WFam { name: "k2", count: count(4, p(5, 7)), f: quads },
        WFam { name: "k3", count: count(8, p(4, 5)), f: octs },
        WFam { name: "k4", count: count(16, p(2, 3)), f: hexs },
        WFam { name: "wide", count: 22 * count(6, p(3, 4)), f: wide },
        WFam { name: "widths", count: 4 * 130, f: widths },
        WFam { name: "verywide", count: 6 * 4, f: very_wide },
        WFam { name: "long", count: 7 * 5 * if t { 12 } else { 6 }, f: long },
        WFam { name: "big", count: 3 * 2 * 3, f: big },
        WFam { name: "mega", count: 3 * 2 * 2, f: mega },
    ]
}
/// ends of ranges to ask for: all of them for short sequences
pub fn ends(n: usize) -> Vec<usize> {
    if n <= 40 {
        return (0..=n).collect();
    }
    let mut e: Vec<usize> =
        vec![0, 1, 2, 63, 64, 65, 511, 512, 513, 8191, 8192, 8193, 65535, 65536, 131_072, 262_145, n / 3, n / 2, n / 2 + 1, n - 2, n - 1, n];
    e.retain(|&x| x <= n);
    e.sort();
    e.dedup();
    e
}
