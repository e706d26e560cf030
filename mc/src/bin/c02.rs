//! C02: constructors and reads of bit vectors.
use mc::gen::{mixed, scramble, string, strings_upto, tile, TILE_KINDS, MEGA};
use mc::model::*;
use mc::*;
use vers_vecs::BitVec;

/// every read of every bit and every window
fn reads(c: &mut Ctx, b: &BitVec, m: &BM, windows: bool, what: &str) -> R {
    eq!(c, b.len(), m.len, "{what}: len");
    eq!(c, b.is_empty(), m.len == 0, "{what}: is_empty");
    let ones = m.ones() as u64;
    eq!(c, b.count_ones(), ones, "{what}: count_ones");
    eq!(c, b.count_zeros(), m.len as u64 - ones, "{what}: count_zeros");
    for i in 0..m.len {
        let w = m.get(i);
        eq!(c, b.get(i), Some(w as u64), "{what}: get({i})");
        eq!(c, b.get_unchecked(i), w as u64, "{what}: get_unchecked({i})");
        eq!(c, b.is_bit_set(i), Some(w), "{what}: is_bit_set({i})");
        eq!(c, b.is_bit_set_unchecked(i), w, "{what}: is_bit_set_unchecked({i})");
    }
    for p in [m.len, m.len + 1, m.len + 63, m.len + 64, usize::MAX] {
        eq!(c, b.get(p), None, "{what}: get({p})");
        eq!(c, b.is_bit_set(p), None, "{what}: is_bit_set({p})");
    }
    let mut k = 0;
    for (i, l) in b.iter_limbs().enumerate() {
        ck!(c, i < m.w.len(), "{what}: iter_limbs yields more than {} words", m.w.len());
        let n = (m.len - i * 64).min(64);
        eq!(c, l & (u64::MAX >> (64 - n)), m.w[i], "{what}: word {i} of iter_limbs");
        k += 1;
    }
    eq!(c, k, m.w.len(), "{what}: number of words of iter_limbs");
    let got: Vec<u64> = b.iter().collect();
    ck!(c, got.len() == m.len && got.iter().enumerate().all(|(i, &x)| x == m.get(i) as u64), "{what}: iter() {got:?}");
    let got: Vec<u64> = b.clone().into_iter().collect();
    ck!(c, got.len() == m.len && got.iter().enumerate().all(|(i, &x)| x == m.get(i) as u64), "{what}: into_iter() {got:?}");
    let got: Vec<u64> = b.into_iter().collect();
    ck!(c, got.len() == m.len && got.iter().enumerate().all(|(i, &x)| x == m.get(i) as u64), "{what}: (&b).into_iter() {got:?}");
    if windows {
        for pos in 0..=m.len {
            for len in 1..=65usize {
                let want = (len <= 64 && pos + len <= m.len).then(|| m.window(pos, len));
                eq!(c, b.get_bits(pos, len), want, "{what}: get_bits({pos}, {len})");
                if let Some(w) = want {
                    eq!(c, b.get_bits_unchecked(pos, len), w, "{what}: get_bits_unchecked({pos}, {len})");
                }
            }
        }
        for n in 1..=64usize {
            for i in 0..=m.len / n + 1 {
                let want = (i * n + n <= m.len).then(|| m.window(i * n, n));
                eq!(c, b.unpack_element(i, n), want, "{what}: unpack_element({i}, {n})");
                if let Some(w) = want {
                    eq!(c, b.unpack_element_unchecked(i, n), w, "{what}: unpack_element_unchecked({i}, {n})");
                }
            }
        }
    }
    Ok(())
}

fn constructors(c: &mut Ctx, m: &BM) -> R {
    let bools = m.bools();
    reads(c, &BitVec::from_bools(&bools), m, false, "from_bools")?;
    reads(c, &BitVec::from_bool_iter(bools.iter().copied()), m, false, "from_bool_iter")?;
    // the other bits of each value are to be ignored
    for noise in [0u64, u64::MAX - 1] {
        let v: Vec<u64> = bools.iter().map(|&b| noise | b as u64).collect();
        let v8: Vec<u8> = v.iter().map(|&x| x as u8).collect();
        let v16: Vec<u16> = v.iter().map(|&x| x as u16).collect();
        let v32: Vec<u32> = v.iter().map(|&x| x as u32).collect();
        reads(c, &BitVec::from_bits(&v8), m, false, "from_bits")?;
        reads(c, &BitVec::from_bits_u16(&v16), m, false, "from_bits_u16")?;
        reads(c, &BitVec::from_bits_u32(&v32), m, false, "from_bits_u32")?;
        reads(c, &BitVec::from_bits_u64(&v), m, false, "from_bits_u64")?;
        reads(c, &BitVec::from_bits_iter(v8.iter().copied()), m, false, "from_bits_iter(u8)")?;
        reads(c, &BitVec::from_bits_iter(v.iter().copied()), m, false, "from_bits_iter(u64)")?;
    }
    reads(c, &BitVec::from_bits_iter(bools.iter().copied()), m, false, "from_bits_iter(bool)")?;
    let mut b = BitVec::with_capacity(m.len / 2);
    for &x in &bools {
        b.append(x);
    }
    reads(c, &b, m, false, "with_capacity and append")?;
    if m.len % 64 == 0 {
        reads(c, &BitVec::from_limbs(&m.w), m, false, "from_limbs")?;
        reads(c, &BitVec::from_limbs_iter(m.w.iter().copied()), m, false, "from_limbs_iter")?;
        reads(c, &BitVec::from_vec(m.w.clone()), m, false, "from_vec")?;
        reads(c, &BitVec::from(&m.w[..]), m, false, "From<&[u64]>")?;
        reads(c, &BitVec::from(m.w.clone()), m, false, "From<Vec<u64>>")?;
        reads(c, &m.w.iter().copied().collect::<BitVec>(), m, false, "collect")?;
        let lo: Vec<u32> = m.w.iter().map(|&x| x as u32).collect();
        let mut z = BM::new();
        for &x in &lo {
            z.w.push(x as u64);
            z.len += 64;
        }
        reads(c, &BitVec::from_limbs_iter(lo), &z, false, "from_limbs_iter(u32)")?;
    }
    Ok(())
}

const VALUES: [u64; 8] =
    [0, u64::MAX, 1, 0x8000_0000_0000_0000, 0xdead_beef_f00d_cafd, 0x5555_5555_5555_5555, 0x80, 0x0123_4567_89ab_cdef];

fn packed(c: &mut Ctx, vals: &[u64], width: usize) -> R {
    macro_rules! go {
        ($t:ty, $bits:expr, $seq:ident, $it:ident) => {{
            let v: Vec<$t> = vals.iter().map(|&x| x as $t).collect();
            let mut m = BM::new();
            for &x in &v {
                for k in 0..width {
                    m.push(k < $bits && (x as u64 >> (k % 64)) & 1 == 1);
                }
            }
            for (b, what) in
                [(BitVec::$seq(&v, width), stringify!($seq)), (BitVec::$it(v.iter().copied(), width), stringify!($it))]
            {
                reads(c, &b, &m, false, what)?;
                if width > 0 && width <= 64 {
                    for (i, &x) in v.iter().enumerate() {
                        let want = (x as u64) & (u64::MAX >> (64 - width));
                        eq!(c, b.unpack_element(i, width), Some(want), "{what}: unpack_element({i}, {width})");
                        eq!(c, b.unpack_element_unchecked(i, width), want, "{what}: unpack_element_unchecked({i}, {width})");
                        eq!(c, b.get_bits(i * width, width), Some(want), "{what}: get_bits({}, {width})", i * width);
                    }
                    eq!(c, b.unpack_element(v.len(), width), None, "{what}: unpack_element past the end");
                }
            }
        }};
    }
    go!(u64, 64, pack_sequence_u64, pack_from_iter_u64);
    go!(u32, 32, pack_sequence_u32, pack_from_iter_u32);
    go!(u16, 16, pack_sequence_u16, pack_from_iter_u16);
    go!(u8, 8, pack_sequence_u8, pack_from_iter_u8);
    Ok(())
}

fn main() {
    let mut r = Runner::new("C02");
    // every bit string through every constructor and every read
    r.family("strings", strings_upto(r.t(11, 15)), |i, c| {
        let m = string(i);
        c.note(|| format!("{m:?}"));
        c.visit_global(m.key());
        constructors(c, &m)?;
        for d in DIRTS {
            reads(c, &m.bv(d), &m, true, "truncated")?;
        }
        Ok(())
    });
    // every length: constructors, and all windows of all lengths at all positions
    r.family("lengths", 261 * TILE_KINDS, |i, c| {
        let mut d = Dec(i);
        let k = d.take(TILE_KINDS);
        let len = d.0 as usize;
        let m = tile(k, len);
        c.note(|| format!("{m:?}"));
        c.visit_global(m.key());
        constructors(c, &m)?;
        for d in DIRTS {
            reads(c, &m.bv(d), &m, true, "truncated")?;
        }
        if k == 0 {
            reads(c, &BitVec::from_zeros(len), &m, true, "from_zeros")?;
        }
        if k == 1 {
            reads(c, &BitVec::from_ones(len), &m, true, "from_ones")?;
        }
        Ok(())
    });
    // one bit in three words, all windows
    r.family("onehot", 2 * 192 * 3, |i, c| {
        let mut d = Dec(i);
        let comp = d.take(2) == 1;
        let len = 192 - d.take(3) as usize * 31;
        let p = d.0 as usize;
        let mut m = BM::zeros(len);
        if p < len {
            m.set(p, true);
        }
        if comp {
            m = m.complement();
        }
        c.note(|| format!("{m:?}"));
        c.visit_global(m.key());
        reads(c, &m.bv(Dirt::Ones), &m, true, "truncated")
    });
    r.family("long", 14 * TILE_KINDS, |i, c| {
        let mut d = Dec(i);
        let k = d.take(TILE_KINDS);
        let len = *d.pick(&[511usize, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 8191, 8192, 8193, 20001]);
        let m = tile(k, len);
        c.note(|| format!("{m:?}"));
        c.visit_global(m.key());
        constructors(c, &m)?;
        if k == 0 {
            reads(c, &BitVec::from_zeros(len), &m, false, "from_zeros")?;
        }
        if k == 1 {
            reads(c, &BitVec::from_ones(len), &m, false, "from_ones")?;
        }
        Ok(())
    });
    // packing: every sequence over the value alphabet, every width, every element type
    let n = r.t(3u32, 4u32);
    r.family("pack", 8u64.pow(n) * 131, move |i, c| {
        let mut d = Dec(i);
        let width = d.take(131) as usize;
        let vals: Vec<u64> = (0..n).map(|_| *d.pick(&VALUES)).collect();
        c.note(|| format!("{vals:x?} packed with width {width}"));
        c.visit(i);
        packed(c, &vals, width)
    });
    // longer runs of one value and of a counter
    r.family("packlong", 131 * 24 * 4, |i, c| {
        let mut d = Dec(i);
        let width = d.take(131) as usize;
        let n = [0usize, 1, 2, 5, 8, 9, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70, 100, 127, 128, 129, 130, 150, 192, 200]
            [d.take(24) as usize];
        let k = d.take(4);
        let vals: Vec<u64> = (0..n as u64)
            .map(|x| match k {
                0 => u64::MAX,
                1 => x.wrapping_mul(0x0101_0101_0101_0101),
                2 => {
                    if x % 2 == 0 {
                        0
                    } else {
                        u64::MAX
                    }
                }
                _ => x.wrapping_mul(0x9e37_79b9_7f4a_7c15),
            })
            .collect();
        c.note(|| format!("{n} values of kind {k} packed with width {width}"));
        c.visit(i);
        packed(c, &vals, width)
    });
    // widths far beyond the element type
    let mut widths: Vec<usize> = (131..=600).collect();
    widths.extend([1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 8255, 65_535, 65_536, 65_601, 131_072 + 7]);
    let w = widths.len() as u64;
    r.family("packwide", w * 4 * 2, move |i, c| {
        let mut d = Dec(i);
        let width = *d.pick(&widths);
        let n = 1 + d.take(4);
        let k = d.take(2);
        let vals: Vec<u64> = (0..n).map(|x| if k == 0 || x % 2 == 1 { u64::MAX } else { 0x8000_0000_8000_8081 }).collect();
        c.note(|| format!("{n} values of kind {k} packed with width {width}"));
        c.visit(i);
        packed(c, &vals, width)
    });
    // iterators whose size hint is true but not exact
    r.family("hints", HINTS * 16 * TILE_KINDS, |i, c| {
        let mut d = Dec(i);
        let h = d.take(HINTS);
        let n = [0usize, 1, 2, 3, 8, 63, 64, 65, 127, 128, 129, 300, 1000, 3000, 5000, 70_001][d.take(16) as usize];
        let m = tile(d.0, n);
        c.note(|| format!("size hint of kind {h}, {m:?}"));
        c.visit(i);
        let b = m.bools();
        reads(c, &BitVec::from_bool_iter(Hinted::new(b.iter().copied(), n, h)), &m, false, "from_bool_iter")?;
        reads(c, &BitVec::from_bits_iter(Hinted::new(b.iter().copied(), n, h)), &m, false, "from_bits_iter(bool)")?;
        reads(c, &BitVec::from_bits_iter(Hinted::new(b.iter().map(|&x| x as u8), n, h)), &m, false, "from_bits_iter(u8)")?;
        reads(c, &BitVec::from_bits_iter(Hinted::new(b.iter().map(|&x| x as u64), n, h)), &m, false, "from_bits_iter(u64)")?;
        reads(c, &BitVec::pack_from_iter_u64(Hinted::new(b.iter().map(|&x| x as u64), n, h), 1), &m, false, "pack_from_iter_u64")?;
        reads(c, &BitVec::pack_from_iter_u32(Hinted::new(b.iter().map(|&x| x as u32), n, h), 1), &m, false, "pack_from_iter_u32")?;
        reads(c, &BitVec::pack_from_iter_u16(Hinted::new(b.iter().map(|&x| x as u16), n, h), 1), &m, false, "pack_from_iter_u16")?;
        reads(c, &BitVec::pack_from_iter_u8(Hinted::new(b.iter().map(|&x| x as u8), n, h), 1), &m, false, "pack_from_iter_u8")?;
        let mut whole = m.clone();
        whole.truncate(n & !63);
        let l = whole.len / 64;
        let words = &whole.w[..l];
        reads(c, &BitVec::from_limbs_iter(Hinted::new(words.iter().copied(), l, h)), &whole, false, "from_limbs_iter")?;
        reads(c, &Hinted::new(words.iter().copied(), l, h).collect::<BitVec>(), &whole, false, "collect")?;
        // a vector from its pieces
        let p = n.div_ceil(3).max(1);
        let pieces: Vec<BitVec> = (0..n.div_ceil(p)).map(|j| BitVec::from_bools(&b[j * p..((j + 1) * p).min(n)])).collect();
        let mut v = BitVec::new();
        v.extend(Hinted::new(pieces.iter(), pieces.len(), h));
        reads(c, &v, &m, false, "extend")?;
        let mut v = BitVec::new();
        v.extend(Hinted::new(pieces.clone().into_iter(), pieces.len(), h));
        reads(c, &v, &m, false, "extend (owned)")
    });
    // large vectors: the constructors, reads of every bit, and windows around every power of two
    r.family("mega", MEGA.len() as u64 * 14, move |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&MEGA);
        let how = d.0;
        let m = match how {
            0 => tile(0, len),
            1 => tile(1, len),
            _ => mixed(len, 2),
        };
        c.note(|| format!("{len} bits by way {how}"));
        c.visit(i);
        let b = m.bools();
        let bv = match how {
            0 => BitVec::from_zeros(len),
            1 => BitVec::from_ones(len),
            2 => m.bv(Dirt::Ones),
            3 => BitVec::from_bools(&b),
            4 => BitVec::from_bool_iter(b.iter().copied()),
            5 => BitVec::from_bits(&b.iter().map(|&x| x as u8 | 0xf0).collect::<Vec<_>>()),
            6 => BitVec::from_bits_u16(&b.iter().map(|&x| x as u16 | 0xf0).collect::<Vec<_>>()),
            7 => BitVec::from_bits_u32(&b.iter().map(|&x| x as u32 | 0xf0).collect::<Vec<_>>()),
            8 => BitVec::from_bits_u64(&b.iter().map(|&x| x as u64 | 0xf0).collect::<Vec<_>>()),
            9 => BitVec::from_bits_iter(b.iter().map(|&x| x as u64)),
            10 => {
                let mut x = BitVec::new();
                x.extend((0..len.div_ceil(1000)).map(|j| BitVec::from_bools(&b[j * 1000..(j * 1000 + 1000).min(len)])));
                x
            }
            _ => {
                // whole words
                let mut w = m.clone();
                w.truncate(len & !63);
                let x = match how {
                    11 => BitVec::from_limbs(&w.w),
                    12 => BitVec::from_limbs_iter(w.w.iter().copied()),
                    _ => w.w.iter().copied().collect(),
                };
                return reads(c, &x, &w, false, "from words");
            }
        };
        reads(c, &bv, &m, false, "large vector")?;
        for e in 12..=20u32 {
            for p in (1usize << e) - 130..(1 << e) + 70 {
                for n in [1usize, 2, 8, 31, 32, 33, 63, 64] {
                    let want = (p + n <= len).then(|| m.window(p, n));
                    eq!(c, bv.get_bits(p, n), want, "get_bits({p}, {n})");
                    if let Some(w) = want {
                        eq!(c, bv.get_bits_unchecked(p, n), w, "get_bits_unchecked({p}, {n})");
                    }
                }
            }
        }
        for n in 1..=64 {
            for i in (0..len / n).step_by(211).chain((0..4).map(|k| (len / n).saturating_sub(k))).chain([65_535, 65_536, 65_537]) {
                let want = (i * n + n <= len).then(|| m.window(i * n, n));
                eq!(c, bv.unpack_element(i, n), want, "unpack_element({i}, {n})");
                if let Some(w) = want {
                    eq!(c, bv.unpack_element_unchecked(i, n), w, "unpack_element_unchecked({i}, {n})");
                }
            }
        }
        Ok(())
    });
    // many elements packed, more than 2^16 of them
    r.family("packmany", 64 * 2, |i, c| {
        let mut d = Dec(i);
        let width = 1 + d.take(64) as usize;
        let n = [65_537u64, 140_001][d.take(2) as usize];
        c.note(|| format!("{n} mixed values packed with width {width}"));
        c.visit(i);
        packed(c, &(0..n).map(scramble).collect::<Vec<_>>(), width)
    });
    // positions beyond 32 bits
    r.family("giga", mc::giga::KINDS * 2, |i, c| {
        let _p = mc::giga::permit();
        let g = mc::giga::Giga::kind(i / 2);
        c.note(|| format!("giga kind {}, built {}", i / 2, i % 2));
        c.visit(i);
        let b = if i % 2 == 0 { g.bv() } else { BitVec::from_limbs(&g.words()).split_at(g.len).unwrap().0 };
        eq!(c, b.len(), g.len, "len");
        eq!(c, (b.count_ones(), b.count_zeros()), (g.count(true) as u64, g.count(false) as u64), "counts");
        for p in g.spots() {
            let want = (p < g.len).then(|| g.get(p));
            eq!(c, b.get(p), want.map(u64::from), "get({p})");
            eq!(c, b.is_bit_set(p), want, "is_bit_set({p})");
            if let Some(w) = want {
                eq!(c, (b.get_unchecked(p), b.is_bit_set_unchecked(p)), (w as u64, w), "unchecked reads at {p}");
            }
            for l in [1usize, 2, 31, 63, 64] {
                let want = (p + l <= g.len).then(|| g.window(p, l));
                eq!(c, b.get_bits(p, l), want, "get_bits({p}, {l})");
                if let Some(w) = want {
                    eq!(c, b.get_bits_unchecked(p, l), w, "get_bits_unchecked({p}, {l})");
                }
            }
            for n in [1usize, 3, 7, 64] {
                let k = p / n;
                let want = (k * n + n <= g.len).then(|| g.window(k * n, n));
                eq!(c, b.unpack_element(k, n), want, "unpack_element({k}, {n})");
            }
            if p < g.len {
                let mut it = b.iter();
                eq!(c, it.nth(p), Some(g.get(p) as u64), "iter: nth({p})");
                eq!(c, it.len(), g.len - p - 1, "iter: len after nth({p})");
                let mut it = b.iter();
                eq!(c, it.nth_back(g.len - 1 - p), Some(g.get(p) as u64), "iter: nth_back for {p}");
                eq!(c, it.len(), p, "iter: len after nth_back for {p}");
            }
        }
        Ok(())
    });
    r.finish()
}
