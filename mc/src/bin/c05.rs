//! C05: rank, access and conversion of the rank/select vector.
use mc::gen::vec_fams;
use mc::model::*;
use mc::*;
use vers_vecs::{BitVec, RsVec};

fn check(c: &mut Ctx, b: &BM, dirt: Dirt) -> R {
    c.visit_global(hash_of(&(b, dirt as u8)));
    let rs = RsVec::from_bit_vec(b.bv(dirt));
    eq!(c, rs.len(), b.len, "len");
    eq!(c, rs.is_empty(), b.len == 0, "is_empty");
    let mut ones = 0;
    for i in 0..b.len {
        let bit = b.get(i);
        eq!(c, rs.rank1(i), ones, "rank1({i})");
        eq!(c, rs.rank0(i), i - ones, "rank0({i})");
        eq!(c, rs.get(i), Some(bit as u64), "get({i})");
        ones += bit as usize;
    }
    for i in [b.len, b.len + 1, b.len + 63, b.len + 64, b.len + 8192, usize::MAX] {
        eq!(c, rs.rank1(i), ones, "rank1({i}) past the end");
        eq!(c, rs.rank0(i), b.len - ones, "rank0({i}) past the end");
        eq!(c, rs.get(i), None, "get({i}) past the end");
    }
    // window reads: every start in the first and last 200 positions, boundary lengths
    let lens = [1usize, 2, 31, 63, 64];
    for i in (0..b.len).filter(|&i| i < 130 || i + 130 > b.len || i % 509 == 0) {
        for l in lens {
            let want = if i + l <= b.len { Some(b.window(i, l)) } else { None };
            eq!(c, rs.get_bits(i, l), want, "get_bits({i}, {l})");
        }
    }
    // conversion back, directly and through the trait
    let back = rs.clone().into_bit_vec();
    ck!(c, back == b.bv(Dirt::Clean), "into_bit_vec differs from the original");
    eq!(c, back.len(), b.len, "length after into_bit_vec");
    eq!(c, back.count_ones(), ones as u64, "ones after into_bit_vec");
    if b.len <= 300 || b.len % 7 == 1 {
        editable(c, &back, b, "into_bit_vec")?;
    }
    let back: BitVec = rs.into();
    for i in (0..b.len).filter(|&i| i < 200 || i + 200 > b.len) {
        eq!(c, back.get(i), Some(b.get(i) as u64), "get({i}) after conversion back");
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C05");
    let t = r.thorough;
    for f in vec_fams(t) {
        let g = f.f;
        r.family(f.name, f.count * 2, move |i, c| {
            let b = g(i / 2, t);
            let d = DIRTS[(i % 2) as usize];
            c.note(|| format!("{d:?} {b:?}"));
            check(c, &b, d)
        });
    }
    // every window of every alignment
    r.family("windows", 200 * 2, |i, c| {
        let mut d = Dec(i);
        let comp = d.take(2) == 1;
        let len = 1 + d.0 as usize;
        let mut b = gen::tile(9, 4000);
        let b2 = BM::from_bools(&b.bools()[2000..2000 + len]);
        b = if comp { b2.complement() } else { b2 };
        c.note(|| format!("{b:?}"));
        c.visit(i);
        let rs = RsVec::from_bit_vec(b.bv(if i % 3 == 0 { Dirt::Ones } else { Dirt::Clean }));
        for p in 0..=len + 1 {
            for l in 1..=65 {
                let want = if l <= 64 && p + l <= len { Some(b.window(p, l)) } else { None };
                eq!(c, rs.get_bits(p, l), want, "get_bits({p}, {l})");
                if want.is_some() {
                    eq!(c, Some(rs.get_bits_unchecked(p, l)), want, "get_bits_unchecked({p}, {l})");
                }
            }
        }
        Ok(())
    });
    // counters beyond 32 bits
    r.family("huge", 2, |i, c| {
        const N: usize = (1 << 32) + 12_345;
        let fill = i == 1;
        c.note(|| format!("{N} bits of {fill}, inverted at chosen positions"));
        let marks: Vec<usize> =
            [0usize, 8191, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 512, (1 << 32) + 8192, N - 1].to_vec();
        let mut bv = if fill { BitVec::from_ones(N) } else { BitVec::from_zeros(N) };
        for &m in &marks {
            bv.flip_bit(m);
        }
        let rs = RsVec::from_bit_vec(bv);
        c.visit(i);
        for &m in &marks {
            for p in [m.saturating_sub(1), m, m + 1, m + 63, m + 600] {
                let p = p.min(N);
                let k = marks.iter().filter(|&&x| x < p).count();
                let (w1, w0) = if fill { (p - k, k) } else { (k, p - k) };
                eq!(c, rs.rank1(p), w1, "rank1({p})");
                eq!(c, rs.rank0(p), w0, "rank0({p})");
            }
        }
        Ok(())
    });
    // positions, ranks and counts beyond 32 bits, five layouts
    r.family("giga", mc::giga::KINDS, |i, c| {
        let _p = mc::giga::permit();
        let g = mc::giga::Giga::kind(i);
        c.note(|| format!("giga kind {i}"));
        c.visit(i);
        let rs = RsVec::from_bit_vec(g.bv());
        eq!(c, rs.len(), g.len, "len");
        for p in g.spots() {
            eq!(c, (rs.rank1(p), rs.rank0(p)), (g.rank(true, p), g.rank(false, p)), "ranks at {p}");
            eq!(c, rs.get(p), (p < g.len).then(|| g.get(p) as u64), "get({p})");
            for l in [1usize, 2, 31, 63, 64] {
                let want = (p + l <= g.len).then(|| g.window(p, l));
                eq!(c, rs.get_bits(p, l), want, "get_bits({p}, {l})");
            }
        }
        for p in [g.len + 1, g.len + (1 << 32), 2 * g.len, usize::MAX] {
            eq!(c, (rs.rank1(p), rs.rank0(p)), (g.count(true), g.count(false)), "ranks at {p}");
            eq!(c, rs.get(p), None, "get({p})");
        }
        Ok(())
    });
    r.finish()
}
