//! Finite input spaces.
use crate::model::BM;
use crate::Dec;

/// Number of bit strings of length 0..=n.
pub fn strings_upto(n: u32) -> u64 {
    (1u64 << (n + 1)) - 1
}
/// The idx-th bit string in length-lexicographic order.
pub fn string(idx: u64) -> BM {
    let v = idx + 1;
    let n = 63 - v.leading_zeros() as usize;
    BM::from_int(v & !(1 << n), n)
}

/// `n` bits without any period, the same ones for the same arguments: a large structure whose parts cannot be
/// mistaken for each other. Every word holds a mix of its index.
pub fn mixed(n: usize, salt: u64) -> BM {
    let mut b = BM { w: (0..n.div_ceil(64) as u64).map(|i| scramble(i ^ salt << 40)).collect(), len: n.div_ceil(64) * 64 };
    b.truncate(n);
    b
}
pub fn scramble(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
/// sizes past every limit that a 16-bit count, a page of blocks or a superblock of superblocks could set
pub const MEGA: [usize; 4] = [65_537, 131_072, 262_209, 1_048_581];
/// `n` bits of tile kind `k` (all bits a function of position within the tile).
pub const TILE_KINDS: u64 = 10;
pub fn tile(k: u64, n: usize) -> BM {
    let mut b = BM::new();
    match k {
        0 => {
            b.run(false, n);
        }
        1 => {
            b.run(true, n);
        }
        2 => {
            // one at the start
            b.run(false, n);
            if n > 0 {
                b.set(0, true)
            }
        }
        3 => {
            b.run(false, n);
            if n > 0 {
                b.set(n - 1, true)
            }
        }
        4 => {
            b.run(true, n);
            if n > 0 {
                b.set(0, false)
            }
        }
        5 => {
            b.run(true, n);
            if n > 0 {
                b.set(n - 1, false)
            }
        }
        6 => {
            b = BM { w: vec![0x5555_5555_5555_5555; n.div_ceil(64)], len: n.div_ceil(64) * 64 };
            b.truncate(n);
        }
        7 => {
            b.run(false, n / 2);
            b.run(true, n - n / 2);
        }
        8 => {
            b.run(true, n / 2);
            b.run(false, n - n / 2);
        }
        _ => {
            // words of slowly varying density
            let mut i = 0u64;
            while b.len < n {
                let c = (i % 65) as u32;
                b.w.push(if c == 0 { 0 } else { u64::MAX >> (64 - c) });
                b.len += 64;
                i += 1;
            }
            b.truncate(n);
        }
    }
    b
}

/// A family of bit vectors.
pub struct VecFam {
    pub name: &'static str,
    pub count: u64,
    pub f: fn(u64, bool) -> BM,
}

const BLK: usize = 512;
const SUP: usize = 8192;

fn len_patterns(idx: u64, _t: bool) -> BM {
    let mut d = Dec(idx);
    let k = d.take(TILE_KINDS);
    tile(k, lens()[d.0 as usize])
}
fn lens() -> &'static [usize] {
    static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<usize> = (0..=700).collect();
        for b in [1024usize, 1536, 2048, 4096, 7680, 8192, 8704, 16384, 24576, 65536, 131072] {
            for d in [65i64, 64, 63, 1, 0, -1, -63, -64, -65] {
                v.push((b as i64 + d) as usize);
            }
        }
        v
    })
}
const WORDS: [u64; 8] =
    [0, u64::MAX, 1, 1 << 63, !1, !(1 << 63), 0x5555_5555_5555_5555, 0x0000_ffff_0000_0001];
fn word_tiles(idx: u64, t: bool) -> BM {
    let mut d = Dec(idx);
    let n = if t { 5 } else { 4 };
    let mut b = BM::new();
    for _ in 0..n {
        b.w.push(*d.pick(&WORDS));
        b.len += 64;
    }
    let cut = *d.pick(&[0usize, 1, 63]);
    let l = b.len - cut;
    b.truncate(l);
    b
}
/// every byte at every place of a word, with three kinds of other bytes around it
fn byte_words(idx: u64, _t: bool) -> BM {
    let mut d = Dec(idx);
    let a = d.take(256);
    let p = d.take(8);
    let fill = *d.pick(&[0u64, u64::MAX, 0x1248_8421_a5c3_3c5a, 0x8000_0000_0000_0001]);
    let w = (fill & !(0xff << (8 * p))) | (a << (8 * p));
    let mut b = BM { w: vec![fill, w, !w], len: 192 };
    if idx % 3 == 1 {
        b.truncate(191);
    }
    b
}
fn block_tiles(idx: u64, t: bool) -> BM {
    // sequences of 512-bit tiles
    let mut d = Dec(idx);
    let n = if t { 5 } else { 4 };
    let mut b = BM::new();
    for _ in 0..n {
        let k = d.take(7);
        b.extend(&tile(k, BLK));
    }
    let cut = *d.pick(&[0usize, 1, 63, 64, 65]);
    let l = b.len - cut;
    b.truncate(l);
    b
}
fn block_step(idx: u64, _t: bool) -> BM {
    // one density change at every block boundary of the first three super blocks
    let mut d = Dec(idx);
    let (a, c) = (d.take(7), d.take(7));
    let extra = *d.pick(&[0usize, 1, 511]);
    let j = d.0 as usize;
    let mut b = BM::new();
    for i in 0..40 {
        b.extend(&tile(if i < j { a } else { c }, BLK));
    }
    b.extend(&tile(c, extra));
    b
}
fn super_tiles(idx: u64, t: bool) -> BM {
    let mut d = Dec(idx);
    let n = if t { 3 } else { 2 };
    let mut b = BM::new();
    for _ in 0..n {
        let k = d.take(TILE_KINDS);
        b.extend(&tile(k, SUP));
    }
    let tail = *d.pick(&[0usize, 1, 64, 65, 511, 512, 513, 8191]);
    let k = d.take(TILE_KINDS);
    b.extend(&tile(k, tail));
    b
}
fn runs(idx: u64, t: bool) -> BM {
    // few ones (zeros) spread over many super blocks, so that the select index has to search
    let counts = [1usize, 7, 8, 9, 10, 17];
    let n = if t { 3 } else { 2 };
    let mut d = Dec(idx);
    let mut b = BM::new();
    for _ in 0..n {
        let k = d.take(7);
        let c = *d.pick(&counts);
        for _ in 0..c {
            b.extend(&tile(k, SUP));
        }
    }
    let tail = *d.pick(&[0usize, 65]);
    b.run(idx % 3 == 0, tail);
    b
}
const PERIODS: [usize; 22] =
    [2, 3, 4, 5, 7, 8, 9, 10, 11, 13, 16, 17, 31, 33, 63, 64, 65, 127, 511, 512, 513, 8193];
fn periodic(idx: u64, _t: bool) -> BM {
    let mut d = Dec(idx);
    let p = *d.pick(&PERIODS);
    let off = *d.pick(&[0usize, 1]) * (p - 1);
    let comp = d.take(2) == 1;
    let len = (p * 16500).min(420_000) + 37;
    let mut b = BM::zeros(len);
    let mut i = off;
    while i < len {
        b.set(i, true);
        i += p;
    }
    if comp {
        b.complement()
    } else {
        b
    }
}
fn gaps(idx: u64, _t: bool) -> BM {
    // gap, n1 ones, gap, n2 ones, tail: the select index boundaries fall at chosen places
    let n = [1usize, 8191, 8192, 8193, 16384];
    let g = [0usize, 1, 63, 64, 8191, 8192, 8193, 70_000, 90_001];
    let mut d = Dec(idx);
    let comp = d.take(2) == 1;
    let mut b = BM::new();
    b.run(false, *d.pick(&g)).run(true, *d.pick(&n)).run(false, *d.pick(&g)).run(true, *d.pick(&n));
    if comp {
        b.complement()
    } else {
        b
    }
}
fn runs_s(idx: u64, _t: bool) -> BM {
    let mut d = Dec(idx);
    let mut b = BM::new();
    for _ in 0..2 {
        let k = d.take(7);
        let c = *d.pick(&[1usize, 10]);
        for _ in 0..c {
            b.extend(&tile(k, SUP));
        }
    }
    let tail = *d.pick(&[0usize, 65]);
    b.run(idx % 3 == 0, tail);
    b
}
fn gaps_s(idx: u64, _t: bool) -> BM {
    let n = [1usize, 8192, 8193];
    let g = [0usize, 64, 8193, 80_001];
    let mut d = Dec(idx);
    let comp = d.take(2) == 1;
    let mut b = BM::new();
    b.run(false, *d.pick(&g)).run(true, *d.pick(&n)).run(false, *d.pick(&g)).run(true, *d.pick(&n));
    if comp {
        b.complement()
    } else {
        b
    }
}
fn one_hot(idx: u64, _t: bool) -> BM {
    // exactly one one (zero) at every position around word boundaries, vector ends inside a word
    let mut d = Dec(idx);
    let comp = d.take(2) == 1;
    let delta = *d.pick(&[0usize, 1, 63]);
    let len = *d.pick(&[8192usize + 513, 16384]);
    let pos = (d.0 as usize) * 64 + delta;
    let mut b = BM::zeros(len);
    if pos < len {
        b.set(pos, true);
    }
    if comp {
        b.complement()
    } else {
        b
    }
}

/// aperiodic vectors of up to some million bits, of different densities and layouts
fn mega(idx: u64, _t: bool) -> BM {
    let mut d = Dec(idx);
    let len = *d.pick(&[262_209usize, 1_048_581, 4_194_371]);
    let kind = d.take(MEGA_KINDS);
    let mut b = mixed(len, 7);
    let n = b.w.len();
    let last = *b.w.last().unwrap();
    for (i, w) in b.w.iter_mut().enumerate() {
        let a = scramble(!(i as u64));
        *w = match kind {
            0 => *w,
            // one in eight, seven in eight
            1 => *w & a & a.rotate_left(17),
            2 => *w | a | a.rotate_left(17),
            // a handful per super block, and the opposite
            3 => if a % 97 == 0 { 1 << (*w % 64) } else { 0 },
            4 => if a % 97 == 0 { !(1 << (*w % 64)) } else { u64::MAX },
            // a long gap in the middle
            5 => if i > n / 8 && i < n / 8 * 7 { 0 } else { *w },
            6 => if i > n / 8 && i < n / 8 * 7 { u64::MAX } else { *w },
            // super blocks of alternating extremes
            _ => match scramble((i / 128) as u64) % 3 {
                0 => 0,
                1 => u64::MAX,
                _ => *w,
            },
        };
    }
    if len % 64 != 0 {
        let l = n - 1;
        b.w[l] = last;
    }
    b
}
const MEGA_KINDS: u64 = 8;

pub fn vec_fams(t: bool) -> Vec<VecFam> {
    let p = |b: u64, e: u32| b.pow(e);
    vec![
        VecFam { name: "strings", count: strings_upto(if t { 18 } else { 13 }), f: |i, _| string(i) },
        VecFam { name: "lengths", count: lens().len() as u64 * TILE_KINDS, f: len_patterns },
        VecFam { name: "words", count: p(8, if t { 5 } else { 4 }) * 3, f: word_tiles },
        VecFam { name: "bytes", count: 256 * 8 * 4, f: byte_words },
        VecFam { name: "blocks", count: p(7, if t { 5 } else { 4 }) * 5, f: block_tiles },
        VecFam { name: "blockstep", count: 49 * 3 * 41, f: block_step },
        VecFam { name: "supers", count: p(TILE_KINDS, if t { 3 } else { 2 }) * 8 * TILE_KINDS, f: super_tiles },
        VecFam { name: "onehot", count: 2 * 3 * 2 * 257, f: one_hot },
        VecFam { name: "runs", count: p(42, if t { 3 } else { 2 }) * 2, f: runs },
        VecFam { name: "periodic", count: PERIODS.len() as u64 * 4, f: periodic },
        VecFam { name: "gaps", count: 2 * 9 * 5 * 9 * 5, f: gaps },
        VecFam { name: "mega", count: 3 * MEGA_KINDS, f: mega },
    ]
}

/// The same families with a smaller alphabet for the two most expensive ones.
pub fn vec_fams_small(t: bool) -> Vec<VecFam> {
    let mut v = vec_fams(t);
    for f in &mut v {
        match f.name {
            "runs" if !t => *f = VecFam { name: "runs_s", count: 14 * 14 * 2, f: runs_s },
            "gaps" if !t => *f = VecFam { name: "gaps_s", count: 2 * 4 * 3 * 4 * 3, f: gaps_s },
            _ => {}
        }
    }
    v
}
