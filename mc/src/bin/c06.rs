//! C06: select of the rank/select vector, and rank/select inversion.
use mc::gen::vec_fams;
use mc::model::*;
use mc::*;
use vers_vecs::{BitVec, RsVec};

fn check(c: &mut Ctx, b: &BM, dirt: Dirt) -> R {
    c.visit_global(hash_of(&(b, dirt as u8)));
    let rs = RsVec::from_bit_vec(b.bv(dirt));
    let (mut ones, mut zeros) = (0usize, 0usize);
    for i in 0..b.len {
        if b.get(i) {
            eq!(c, rs.select1(ones), i, "select1({ones})");
            ones += 1;
        } else {
            eq!(c, rs.select0(zeros), i, "select0({zeros})");
            zeros += 1;
        }
    }
    for d in [0usize, 1, 2, 63, 64, 8191, 8192, 8193, 1 << 20, 1 << 40] {
        eq!(c, rs.select1(ones + d), b.len, "select1({}) with {ones} ones", ones + d);
        eq!(c, rs.select0(zeros + d), b.len, "select0({}) with {zeros} zeros", zeros + d);
    }
    for k in [usize::MAX, usize::MAX - 1, 1 << 63] {
        eq!(c, rs.select1(k), b.len, "select1({k})");
        eq!(c, rs.select0(k), b.len, "select0({k})");
    }
    // inversion on the extremes and along the select index
    for k in (0..ones).filter(|k| *k < 3 || k + 3 > ones || k % 4096 < 2) {
        let p = rs.select1(k);
        eq!(c, (rs.rank1(p), rs.get(p)), (k, Some(1)), "rank1(select1({k}))");
    }
    for k in (0..zeros).filter(|k| *k < 3 || k + 3 > zeros || k % 4096 < 2) {
        let p = rs.select0(k);
        eq!(c, (rs.rank0(p), rs.get(p)), (k, Some(0)), "rank0(select0({k}))");
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C06");
    let t = r.thorough;
    for f in vec_fams(t) {
        let g = f.f;
        r.family(f.name, f.count * 2, move |i, c| {
            let b = g(i / 2, t);
            let d = DIRTS[(i % 2) as usize];
            c.note(|| format!("{d:?} {b:?}"));
            check(c, &b, d)
        });
    }
    // every 16-bit pattern in every quarter of a word, on both backgrounds, in the first and in the last word of a block
    r.family("chunks", 65536 * 4 * 2 * 2, |i, c| {
        let mut d = Dec(i);
        let quarter = d.take(4) as usize;
        let bg = d.take(2) == 1;
        let last = d.take(2) == 1;
        let pat = d.0;
        let mut w = if bg { u64::MAX } else { 0 };
        w = (w & !(0xffff << (16 * quarter))) | (pat << (16 * quarter));
        let words: Vec<u64> = if last { vec![0, 1, 0, 0, 0, 0, 0, w] } else { vec![w] };
        let b = BM { len: words.len() * 64, w: words };
        c.note(|| format!("{b:?}"));
        c.visit(i);
        let rs = RsVec::from_bit_vec(b.bv(Dirt::Clean));
        let (mut ones, mut zeros) = (0usize, 0usize);
        for p in 0..b.len {
            if b.get(p) {
                eq!(c, rs.select1(ones), p, "select1({ones})");
                ones += 1;
            } else {
                if p >= b.len - 64 {
                    eq!(c, rs.select0(zeros), p, "select0({zeros})");
                }
                zeros += 1;
            }
        }
        eq!(c, rs.select1(ones), b.len, "select1({ones})");
        eq!(c, rs.select0(zeros), b.len, "select0({zeros})");
        Ok(())
    });
    // counters beyond 32 bits
    r.family("huge", 2, |i, c| {
        const N: usize = (1 << 32) + 12_345;
        let fill = i == 1;
        c.note(|| format!("{N} bits of {fill}, inverted at chosen positions"));
        let marks: Vec<usize> =
            [0usize, 8191, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 512, (1 << 32) + 8192, N - 1].to_vec();
        let mut bv = if fill { BitVec::from_ones(N) } else { BitVec::from_zeros(N) };
        for &m in &marks {
            bv.flip_bit(m);
        }
        let rs = RsVec::from_bit_vec(bv);
        c.visit(i);
        for (k, &m) in marks.iter().enumerate() {
            let got = if fill { rs.select0(k) } else { rs.select1(k) };
            eq!(c, got, m, "select of rare bit {k}");
            for p in [m + 1, m + 63, m + 600, m + 8192] {
                if p < N && !marks.contains(&p) {
                    let rank = p - marks.iter().filter(|&&x| x < p).count();
                    let got = if fill { rs.select1(rank) } else { rs.select0(rank) };
                    eq!(c, got, p, "select of frequent bit {rank}");
                }
            }
        }
        Ok(())
    });
    r.family("giga", mc::giga::KINDS, |i, c| {
        let _p = mc::giga::permit();
        let g = mc::giga::Giga::kind(i);
        c.note(|| format!("giga kind {i}"));
        c.visit(i);
        let rs = RsVec::from_bit_vec(g.bv());
        for bit in [false, true] {
            let sel = |k: usize| if bit { rs.select1(k) } else { rs.select0(k) };
            for k in g.ranks(bit) {
                eq!(c, sel(k), g.select(bit, k).unwrap(), "select{}({k})", bit as u8);
            }
            let n = g.count(bit);
            for k in [n, n + 1, n + (1 << 32), usize::MAX] {
                eq!(c, sel(k), g.len, "select{}({k}) with {n} such bits", bit as u8);
            }
        }
        Ok(())
    });
    r.finish()
}
