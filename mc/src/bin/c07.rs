//! C07: iterators over the positions of ones / zeros, in every interleaving of calls.
use mc::gen::{self, vec_fams_small};
use mc::iterprog::{self, End, Op, ENDS, OPS, OPSX};
use mc::model::*;
use mc::*;
use vers_vecs::RsVec;

/// front-to-back, back-to-front, meeting in the middle, owned and borrowed
fn sweep(c: &mut Ctx, b: &BM, dirt: Dirt) -> R {
    c.visit_global(hash_of(&(b, dirt as u8)));
    let rs = RsVec::from_bit_vec(b.bv(dirt));
    let ones: Vec<usize> = b.positions(true);
    let zeros: Vec<usize> = b.positions(false);
    let ends = [End::Collect, End::Rev, End::Zip];
    for e in ends {
        iterprog::run(c, rs.iter1(), &ones, &[], e)?;
        iterprog::run(c, rs.iter0(), &zeros, &[], e)?;
    }
    // turn around at every quarter
    for q in 1..4 {
        for (m, zero) in [(&ones, false), (&zeros, true)] {
            if m.len() < 4 {
                continue;
            }
            let n = m.len() * q / 4;
            let prog = [Op::Nth(n - 1), Op::Back, Op::Next, Op::NthBack((m.len() - n) / 3), Op::Next];
            let e = if q == 2 { End::Rev } else { End::Collect };
            if zero {
                iterprog::run(c, rs.iter0(), m, &prog, e)?;
            } else {
                iterprog::run(c, rs.iter1(), m, &prog, e)?;
            }
        }
    }
    #[cfg(all(feature = "simd", target_feature = "avx512f", target_feature = "avx512bw"))]
    {
        let mut it = rs.bit_set_iter1();
        for (i, &p) in ones.iter().enumerate() {
            eq!(c, it.next(), Some(p), "bit_set_iter1 item {i}");
        }
        eq!(c, it.next(), None, "bit_set_iter1 end");
        eq!(c, it.next(), None, "bit_set_iter1 after the end");
        let mut it = rs.bit_set_iter0();
        for (i, &p) in zeros.iter().enumerate() {
            eq!(c, it.next(), Some(p), "bit_set_iter0 item {i}");
        }
        eq!(c, it.next(), None, "bit_set_iter0 end");
        eq!(c, it.next(), None, "bit_set_iter0 after the end");
    }
    iterprog::run(c, rs.clone().into_iter1(), &ones, &[Op::Back, Op::Next], End::Collect)?;
    iterprog::run(c, rs.into_iter0(), &zeros, &[Op::Next, Op::Back], End::Rev)
}

/// small vectors whose ones are spread over words, blocks and super blocks in different ways
fn spots() -> &'static Vec<(BM, Vec<usize>)> {
    static S: std::sync::OnceLock<Vec<(BM, Vec<usize>)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let sets: Vec<(usize, Vec<usize>)> = vec![
            (0, vec![]),
            (5, vec![]),
            (5, vec![0]),
            (70, vec![0, 1, 2, 63, 64, 65, 69]),
            (600, vec![0, 511, 512, 513, 599]),
            (1100, vec![5, 6, 500, 600, 601, 1023, 1024, 1099]),
            (8192, vec![0, 8191]),
            (8193, vec![0, 1, 8191, 8192]),
            (9000, vec![511, 512, 7679, 7680, 7681, 8191, 8192, 8999]),
            (16500, vec![100, 8192, 8193, 8200, 8704, 16383, 16384, 16499]),
            (24600, vec![3, 4, 8191, 8192, 16383, 16384, 16385, 24575, 24576, 24599]),
            (33000, vec![8192 + 15 * 512, 8192 + 15 * 512 + 511, 3 * 8192 + 7, 3 * 8192 + 600, 4 * 8192 + 9]),
            (100_000, vec![1, 2, 50_000, 99_000, 99_999]),
            (90_000, vec![0, 20_000, 20_001, 40_000, 40_511, 40_513, 60_000, 80_000, 89_999]),
        ];
        sets.into_iter()
            .map(|(n, s)| {
                let mut b = BM::zeros(n);
                for &p in &s {
                    b.set(p, true);
                }
                (b, s)
            })
            .collect()
    })
}

fn main() {
    let mut r = Runner::new("C07");
    let t = r.thorough;
    for f in vec_fams_small(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let b = g(i, t);
            let d = if i % 3 == 1 { Dirt::Ones } else { Dirt::Clean };
            c.note(|| format!("{d:?} {b:?}"));
            sweep(c, &b, d)
        });
    }
    // every call program up to the depth, on every spot set, for ones (iter1) and zeros (iter0 of the complement)
    let depth = r.t(4, 5);
    let per = iterprog::programs(depth, &OPS, &ENDS);
    let vecs: &'static Vec<[RsVec; 2]> = Box::leak(Box::new(
        spots()
            .iter()
            .map(|(b, _)| {
                [RsVec::from_bit_vec(b.bv(Dirt::Ones)), RsVec::from_bit_vec(b.complement().bv(Dirt::Clean))]
            })
            .collect(),
    ));
    let n = spots().len() as u64;
    r.family("programs", per * n * 2, move |i, c| {
        let mut d = Dec(i);
        let zero = d.take(2) as usize;
        let s = d.take(n) as usize;
        let (prog, end) = iterprog::program(d.0, depth as usize, &OPS, &ENDS);
        let rs = &vecs[s][zero];
        let m = &spots()[s].1;
        c.note(|| format!("positions {m:?}, zero={zero}, {prog:?} then {end:?}"));
        c.visit(i);
        if zero == 1 {
            iterprog::run(c, rs.iter0(), m, &prog, end)
        } else {
            iterprog::run(c, rs.iter1(), m, &prog, end)
        }
    });
    // skips far past the other end
    let perx = iterprog::programs(3, &OPSX, &ENDS);
    r.family("far", perx * n * 2, move |i, c| {
        let mut d = Dec(i);
        let zero = d.take(2) as usize;
        let s = d.take(n) as usize;
        let (prog, end) = iterprog::program(d.0, 3, &OPSX, &ENDS);
        let rs = &vecs[s][zero];
        let m = &spots()[s].1;
        c.note(|| format!("positions {m:?}, zero={zero}, {prog:?} then {end:?}"));
        c.visit(i);
        if zero == 1 {
            iterprog::run(c, rs.iter0(), m, &prog, end)
        } else {
            iterprog::run(c, rs.iter1(), m, &prog, end)
        }
    });
    // owned iterators and generic constructors, one level less deep
    let per = iterprog::programs(2, &OPS, &ENDS);
    r.family("owned", per * n * 2, move |i, c| {
        let mut d = Dec(i);
        let zero = d.take(2) as usize;
        let s = d.take(n) as usize;
        let (prog, end) = iterprog::program(d.0, 2, &OPS, &ENDS);
        let rs = vecs[s][zero].clone();
        let m = &spots()[s].1;
        c.note(|| format!("owned, positions {m:?}, zero={zero}, {prog:?} then {end:?}"));
        c.visit(i);
        if zero == 1 {
            iterprog::run(c, rs.select_iter::<true>(), m, &prog, end)?;
            iterprog::run(c, rs.clone().into_select_iter::<true>(), m, &prog, end)?;
            iterprog::run(c, rs.into_iter0(), m, &prog, end)
        } else {
            iterprog::run(c, rs.select_iter::<false>(), m, &prog, end)?;
            iterprog::run(c, rs.clone().into_select_iter::<false>(), m, &prog, end)?;
            iterprog::run(c, rs.into_iter1(), m, &prog, end)
        }
    });
    // jump to every element from either end, then step once in both directions
    r.family("jumps", 4 * 3 * 2, |i, c| {
        let mut d = Dec(i);
        let kind = [6u64, 9, 7, 8][d.take(4) as usize];
        let len = *d.pick(&[1500usize, 9000, 17000]);
        let zero = d.take(2) == 1;
        let b = gen::tile(kind, len);
        c.note(|| format!("{b:?} zero={zero}"));
        c.visit(i);
        let m = b.positions(!zero);
        let rs = RsVec::from_bit_vec(b.bv(Dirt::Ones));
        for k in 0..m.len() {
            for back in [false, true] {
                let first = if back { Op::NthBack(k) } else { Op::Nth(k) };
                let prog = [first, Op::Back, Op::Next, Op::Nth(600), Op::Next, Op::NthBack(600), Op::Back];
                if zero {
                    iterprog::run(c, rs.iter0(), &m, &prog, End::Last)?;
                } else {
                    iterprog::run(c, rs.iter1(), &m, &prog, End::Last)?;
                }
            }
        }
        Ok(())
    });
    // jumps across and beyond 2^32 positions
    r.family("giga", mc::giga::KINDS, |i, c| {
        let _p = mc::giga::permit();
        let g = mc::giga::Giga::kind(i);
        c.note(|| format!("giga kind {i}"));
        c.visit(i);
        let rs = RsVec::from_bit_vec(g.bv());
        for bit in [false, true] {
            let n = g.count(bit);
            let b = bit as u8;
            macro_rules! all {
                ($it:ident) => {
                    eq!(c, rs.$it().len(), n, "iter{b}: len");
                    eq!(c, rs.$it().size_hint(), (n, Some(n)), "iter{b}: size_hint");
                    eq!(c, rs.$it().last(), n.checked_sub(1).and_then(|k| g.select(bit, k)), "iter{b}: last");
                    for k in g.ranks(bit) {
                        let mut it = rs.$it();
                        eq!(c, it.nth(k), g.select(bit, k), "iter{b}: nth({k})");
                        for j in 1..4 {
                            eq!(c, it.next(), g.select(bit, k + j), "iter{b}: next number {j} after nth({k})");
                        }
                        eq!(c, it.len(), n.saturating_sub(k + 4), "iter{b}: len after nth({k})");
                        let mut it = rs.$it();
                        eq!(c, it.nth_back(n - 1 - k), g.select(bit, k), "iter{b}: nth_back({})", n - 1 - k);
                        for j in 1..4usize {
                            let want = k.checked_sub(j).and_then(|k| g.select(bit, k));
                            eq!(c, it.next_back(), want, "iter{b}: next_back number {j} after nth_back({})", n - 1 - k);
                        }
                        eq!(c, it.len(), k.saturating_sub(3), "iter{b}: len after nth_back({})", n - 1 - k);
                        eq!(c, it.next(), (k > 3).then(|| g.select(bit, 0)).flatten(), "iter{b}: first after nth_back({})", n - 1 - k);
                    }
                };
            }
            if bit {
                all!(iter1);
            } else {
                all!(iter0);
            }
        }
        for p in g.spots().into_iter().filter(|&p| p < g.len) {
            let mut it = rs.iter();
            eq!(c, it.nth(p), Some(g.get(p) as u64), "iter: nth({p})");
            eq!(c, it.next(), (p + 1 < g.len).then(|| g.get(p + 1) as u64), "iter: next after nth({p})");
            let q = g.len - 1 - p;
            let mut it = rs.iter();
            eq!(c, it.nth_back(q), Some(g.get(p) as u64), "iter: nth_back({q})");
            eq!(c, it.len(), p, "iter: len after nth_back({q})");
        }
        Ok(())
    });
    r.finish()
}
