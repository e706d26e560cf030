//! C22: the same exploration in different builds; the driver compares the transcripts case by case.
use mc::bp;
use mc::gen;
use mc::iterprog::{self, Op, OPS};
use mc::model::*;
use mc::wav;
use mc::*;
use std::hash::{Hash, Hasher};
use vers_vecs::{BinaryRmq, BitVec, EliasFanoVec, FastRmq, RsVec, SparseRSVec};

/// note down an observation
macro_rules! obs {
    ($c:expr, $($x:expr),+) => {{ $( $x.hash(&mut $c.digest); $c.transitions += 1; )+ }};
}
fn bits(c: &mut Ctx, bv: &BitVec) {
    obs!(c, bv.len());
    for i in 0..bv.len() {
        c.digest.put(bv.get_unchecked(i));
    }
    c.transitions += bv.len() as u64;
}

fn rs(c: &mut Ctx, b: &BM, d: Dirt, step: usize) -> R {
    c.visit_global(hash_of(&(b, d as u8)));
    let bv = b.bv(d);
    obs!(c, bv.count_ones(), bv.count_zeros());
    let rs = RsVec::from_bit_vec(bv);
    let (n1, n0) = (rs.rank1(rs.len()), rs.rank0(rs.len()));
    for i in (0..=b.len + 1).step_by(step) {
        c.digest.put(rs.rank0(i) as u64);
        c.digest.put(rs.rank1(i) as u64);
        c.transitions += 2;
    }
    for i in (0..n1 + 2).step_by(step) {
        c.digest.put(rs.select1(i) as u64);
        c.transitions += 1;
    }
    for i in (0..n0 + 2).step_by(step) {
        c.digest.put(rs.select0(i) as u64);
        c.transitions += 1;
    }
    let mut list = |it: &mut dyn Iterator<Item = usize>| {
        for x in it {
            c.digest.put(x as u64);
            c.transitions += 1;
        }
    };
    list(&mut rs.iter1());
    list(&mut rs.iter0());
    list(&mut rs.iter1().rev());
    list(&mut rs.iter0().rev());
    // the bit set iterators exist in vector builds only; they have to list what the others list
    #[cfg(all(feature = "simd", target_feature = "avx512f", target_feature = "avx512bw"))]
    {
        list(&mut rs.bit_set_iter1());
        list(&mut rs.bit_set_iter0());
    }
    #[cfg(not(all(feature = "simd", target_feature = "avx512f", target_feature = "avx512bw")))]
    {
        list(&mut rs.iter1());
        list(&mut rs.iter0());
    }
    if b.len < 3000 {
        for p in 0..b.len {
            for l in [1usize, 7, 33, 64] {
                obs!(c, rs.get_bits(p, l));
            }
        }
        let s = SparseRSVec::from_bitvec(&b.bv(d));
        for i in 0..=b.len as u64 {
            obs!(c, s.rank1(i), s.is_set(i));
        }
    }
    Ok(())
}
/// results of an iterator program
fn prog<I: DoubleEndedIterator<Item = usize> + ExactSizeIterator>(c: &mut Ctx, mut it: I, p: &[Op]) {
    for o in p {
        let x = match *o {
            Op::Next => it.next(),
            Op::Back => it.next_back(),
            Op::Nth(n) => it.nth(n),
            Op::NthBack(n) => it.nth_back(n),
        };
        obs!(c, x, it.len());
    }
    obs!(c, it.last());
}

fn main() {
    let mut r = Runner::new("C22");
    let t = r.thorough;
    for f in gen::vec_fams_small(t) {
        // the most expensive families are thinned to every seventh case: they are explored in full by C05 - C07
        let thin = if t { 1 } else { 7 };
        let th = match f.name {
            "blockstep" | "supers" | "lengths" | "blocks" => thin,
            "runs_s" | "periodic" | "gaps_s" | "runs" | "gaps" => thin * 2,
            _ => 1,
        };
        let g = f.f;
        r.family(f.name, f.count.div_ceil(th), move |i, c| {
            let b = g(i * th, t);
            let d = DIRTS[(i % 2) as usize];
            c.note(|| format!("{d:?} {b:?}"));
            rs(c, &b, d, if b.len > 40_000 { 3 } else { 1 })
        });
    }
    // every pair of ones in a word, in either polarity: the in-word select of every implementation
    r.family("wordpairs", 64 * 64 * 2, |i, c| {
        let mut d = Dec(i);
        let (p, q, comp) = (d.take(64), d.take(64), d.take(2) == 1);
        let w = (1u64 << p) | (1 << q);
        let w = if comp { !w } else { w };
        let b = BM { w: vec![!w, w, w.rotate_left(7)], len: 192 };
        c.note(|| format!("{b:?}"));
        rs(c, &b, Dirt::Clean, 1)
    });
    r.family("programs", 9u64.pow(3) * 4, |i, c| {
        let mut d = Dec(i);
        let kind = d.take(4);
        let (p, _) = iterprog::program(d.0 * iterprog::ENDS.len() as u64, 3, &OPS, &iterprog::ENDS);
        let b = gen::tile([6u64, 9, 2, 5][kind as usize], 9000);
        c.note(|| format!("{b:?} {p:?}"));
        c.visit(i);
        let rs = RsVec::from_bit_vec(b.bv(Dirt::Ones));
        prog(c, rs.iter1(), &p);
        prog(c, rs.iter0(), &p);
        prog(c, rs.clone().into_iter1(), &p);
        prog(c, rs.into_iter0(), &p);
        Ok(())
    });
    for f in ef::seq_fams(t) {
        let g = f.f;
        let th = if t { 1 } else { 4 };
        r.family(&format!("ef-{}", f.name), f.count.div_ceil(th), move |i, c| {
            let v = g(i * th, t);
            c.note(|| format!("{v:?}"));
            c.visit_global(hash_of(&v[..]));
            let e = EliasFanoVec::from_slice(&v);
            obs!(c, e.len());
            for i in 0..v.len() + 1 {
                obs!(c, e.get(i), e.delta(i));
            }
            for q in ef::queries(&v) {
                obs!(c, e.predecessor(q), e.successor(q), e.rank(q));
            }
            for x in e.iter() {
                c.digest.put(x);
            }
            for x in e.iter().rev() {
                c.digest.put(x);
            }
            Ok(())
        });
    }
    for f in wav::fams(t) {
        let g = f.f;
        let th = if t { 1 } else { 3 };
        r.family(&format!("wav-{}", f.name), f.count.div_ceil(th), move |i, c| {
            let s = g(i * th, t);
            c.note(|| format!("{s:?}"));
            c.visit_global(hash_of(&s));
            let (_, w) = s.builds().pop().unwrap();
            let n = s.v.len();
            let e: Vec<usize> = if n <= 40 { (0..=n).step_by(n / 12 + 1).collect() } else { wav::ends(n).into_iter().step_by(2).collect() };
            for i in (0..n).step_by(n / 200 + 1) {
                bits(c, &w.get_value_unchecked(i));
                if let Some(x) = w.get_sorted(i) {
                    bits(c, &x);
                }
                obs!(c, w.get_u64(i), w.get_sorted_u64(i));
            }
            for x in s.symbols().into_iter().step_by(2) {
                let (bx, nx) = (wav::bv(&x), wav::num(&x));
                for &i in &e {
                    obs!(c, w.rank(i, &bx), w.rank_u64(i, nx), w.select(i, &bx), w.select_u64(i, nx));
                    for &j in e.iter().step_by(3) {
                        obs!(c, w.rank_range(i..j, &bx), w.select_offset(i, j, &bx));
                        if s.fits() {
                            obs!(c, w.predecessor_u64(i..j, nx), w.successor_u64(i..j, nx));
                        }
                    }
                }
            }
            for &i in &e {
                for &j in &e {
                    obs!(c, w.range_min_u64(i..j), w.range_max_u64(i..j), w.range_median_u64(i..j));
                    obs!(c, w.quantile_u64(i..j, (i + j) % 7));
                }
            }
            Ok(())
        });
    }
    // parentheses
    fn tree(c: &mut Ctx, b: &BM, bs: usize, d: Dirt) {
        c.visit_global(hash_of(&(b, bs)));
        let t = bp::tree(bs, b.bv(d));
        let n = b.len;
        let step = n / 400 + 1;
        for i in (0..=n).step_by(step) {
            for r in [-40i64, -9, -8, -7, -3, -2, -1, 0, 1, 2, 3, 7, 8, 9, 40, 300, -300] {
                obs!(c, t.fwd(i, r), t.bwd(i, r));
            }
            obs!(c, t.open(i), t.close(i), t.enclose(i), t.excess(i));
        }
        for h in b.positions(true).into_iter().step_by(step) {
            obs!(c, t.parent(h), t.first_child(h), t.last_child(h), t.next_sibling(h), t.previous_sibling(h));
            obs!(c, t.is_leaf(h), t.depth(h), t.node_index(h), t.subtree_size(h), t.level_next(h), t.level_prev(h));
            for l in [0u64, 1, 2, 8, 17] {
                obs!(c, t.level_ancestor(h, l));
            }
            obs!(c, t.is_ancestor(h, h));
        }
        for l in 0..20u64.min(n as u64) {
            obs!(c, t.level_leftmost(l), t.level_rightmost(l));
        }
        obs!(c, t.size(), t.root());
    }
    let n = r.t(11u32, 15u32);
    r.family("bp-strings", gen::strings_upto(n), move |i, c| {
        let b = bp::string(i);
        c.note(|| format!("{b:?}"));
        for (k, bs) in [4usize, 8, 16, 17, 512].into_iter().enumerate() {
            tree(c, &b, bs, DIRTS[k % 2]);
        }
        Ok(())
    });
    // every 16 bit block after a fixed lead-in: the whole contents of the lookup tables
    r.family("bp-blocks", 1 << 16, |i, c| {
        let mut b = BM::new();
        b.run(true, 16).extend(&BM::from_int(i, 16)).run(i % 2 == 0, 16);
        c.note(|| format!("{b:?}"));
        c.visit(i);
        let t = bp::tree(512, b.bv(Dirt::Clean));
        for r in -17i64..=17 {
            obs!(c, t.fwd(15, r), t.bwd(32, r));
        }
        Ok(())
    });
    let bl = r.t(3u32, 4u32);
    r.family("bp-walls", bp::BRICKS.pow(bl) * 3 * 4, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[8usize, 9, 64, 512]);
        let s = *d.pick(&[9usize, 40, 300]);
        let b = bp::wall(&mut d, bl, s);
        c.note(|| format!("block {bs} {b:?}"));
        tree(c, &b, bs, DIRTS[(i % 2) as usize]);
        Ok(())
    });
    r.family("bp-large", bp::SHAPES * 3 * 3, |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[16usize, 64, 512]);
        let n = *d.pick(&[300usize, 3000, 12000]);
        let b = bp::shape(d.0, n);
        c.note(|| format!("block {bs} {b:?}"));
        tree(c, &b, bs, Dirt::Clean);
        Ok(())
    });
    // range minima: also the choice among equal minima has to be the same
    r.family("rmq", 60 * 4, |i, c| {
        let mut d = Dec(i);
        let kind = d.take(4);
        let n = [1usize, 2, 3, 5, 8, 13, 31, 64, 127, 128, 129, 130, 255, 256, 257, 300][d.0 as usize % 16] + d.0 as usize / 16;
        let v: Vec<u64> = (0..n as u64)
            .map(|i| match kind {
                0 => 7,
                1 => i % 5,
                2 => u64::MAX - i / 3,
                _ => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 61,
            })
            .collect();
        c.note(|| format!("length {n} kind {kind}"));
        c.visit(i);
        let (b, f) = (BinaryRmq::from_vec(v.clone()), FastRmq::from_vec(v));
        for i in 0..n {
            for j in i..n {
                c.digest.put(b.range_min(i, j) as u64);
                c.digest.put(f.range_min(i, j) as u64);
            }
        }
        c.tick((n * n) as u64);
        Ok(())
    });
    // bit vectors: packing, masks, splitting
    r.family("bitvec", gen::strings_upto(8) * 3, |i, c| {
        let mut d = Dec(i);
        let lead = *d.pick(&[0usize, 60, 64]);
        let mut b = BM::new();
        b.run(true, lead).extend(&gen::string(d.0)).run(lead == 60, lead);
        c.note(|| format!("{b:?}"));
        c.visit(i);
        let x = b.bv(Dirt::Ones);
        let y = b.complement().bv(Dirt::Clean);
        let Ok(m) = x.mask_xor(&y) else { return Err("mask refused".into()) };
        obs!(c, m.count_ones());
        bits(c, &m.to_bit_vec());
        let Ok(m) = x.mask_and(&y) else { return Err("mask refused".into()) };
        obs!(c, m.count_zeros());
        for p in 0..b.len {
            for l in [1usize, 5, 63, 64] {
                obs!(c, m.get_bits(p, l), x.get_bits(p, l));
            }
            let Ok((a, z)) = x.clone().split_at(p) else { return Err("split refused".into()) };
            bits(c, &a);
            bits(c, &z);
            let mut a = a;
            a.extend_bitvec(&z);
            obs!(c, a == x);
        }
        Ok(())
    });
    r.finish()
}
