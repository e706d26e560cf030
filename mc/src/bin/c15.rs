//! C15: predecessor and successor in ranges of wavelet matrices.
use mc::wav::*;
use mc::*;
use std::cmp::Ordering;

fn check(c: &mut Ctx, s: &Seq) -> R {
    c.visit_global(hash_of(s));
    let n = s.v.len();
    let fits = s.fits();
    let e = ends(n);
    let builds = s.builds();
    let syms: Vec<_> = s.symbols().into_iter().map(|q| (bv(&q), num(&q), q)).collect();
    for &i in &e {
        for &j in &e {
            if i >= j {
                continue;
            }
            let so = s.sorted(i, j);
            for (qb, qn, q) in &syms {
                // so[..p] <= q, so[r..] >= q
                let p = so.partition_point(|x| cmp(x, q) != Ordering::Greater);
                let r = so.partition_point(|x| cmp(x, q) == Ordering::Less);
                let pre = if p > 0 { Some(&so[p - 1]) } else { None };
                let suc = so.get(r);
                for (how, w) in &builds {
                    eq!(c, w.predecessor(i..j, qb), pre.map(bv), "{how}: predecessor({i}..{j}, {q:?})");
                    eq!(c, w.successor(i..j, qb), suc.map(bv), "{how}: successor({i}..{j}, {q:?})");
                    let (pn, sn) = if fits { (pre.map(num), suc.map(num)) } else { (None, None) };
                    eq!(c, w.predecessor_u64(i..j, *qn), pn, "{how}: predecessor_u64({i}..{j}, {qn})");
                    eq!(c, w.successor_u64(i..j, *qn), sn, "{how}: successor_u64({i}..{j}, {qn})");
                }
            }
        }
    }
    for (how, w) in &builds {
        for (qb, qn, q) in &syms {
            #[allow(clippy::reversed_empty_ranges)]
            for r in [0..0, n..n, n..n + 1, 0..n + 1, 1..0, 0..usize::MAX, n + 1..usize::MAX] {
                eq!(c, w.predecessor(r.clone(), qb), None, "{how}: predecessor({r:?}, {q:?}) of an empty or invalid range");
                eq!(c, w.successor(r.clone(), qb), None, "{how}: successor({r:?}, {q:?}) of an empty or invalid range");
                eq!(c, w.predecessor_u64(r.clone(), *qn), None, "{how}: predecessor_u64({r:?}, {qn})");
                eq!(c, w.successor_u64(r.clone(), *qn), None, "{how}: successor_u64({r:?}, {qn})");
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C15");
    let t = r.thorough;
    for f in fams(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let s = g(i, t);
            c.note(|| format!("{s:?}"));
            check(c, &s)
        });
    }
    // every multiset of four-bit symbols up to the size, ranges that cut it everywhere, every query
    let n = r.t(5u64, 6u64);
    r.family("sets", mc::ef::multisets_upto(n, 16), move |i, c| {
        let v = mc::ef::multiset_upto(i, n, 16);
        let s = Seq { k: 4, v: v.iter().rev().map(|&x| sym(4, x)).collect() };
        c.note(|| format!("{s:?}"));
        c.visit_global(hash_of(&s));
        let w = vers_vecs::WaveletMatrix::from_slice(&s.nums(), 4);
        let len = v.len();
        for q in 0..16u64 {
            // the sequence is decreasing, so the range i..len holds the smallest len - i values
            for i in 0..len {
                let part = &v[..len - i];
                let pre = part.iter().rev().find(|&&x| x <= q).copied();
                let suc = part.iter().find(|&&x| x >= q).copied();
                eq!(c, w.predecessor_u64(i..len, q), pre, "predecessor_u64({i}..{len}, {q})");
                eq!(c, w.successor_u64(i..len, q), suc, "successor_u64({i}..{len}, {q})");
            }
        }
        Ok(())
    });
    // more than 2^32 elements
    r.family("giga", 1, |i, c| {
        use mc::giga::{Giga, Run::*, G32};
        let _p = mc::giga::permit();
        let g = Giga::new(&[(Ones, (1 << 31) + 513), (Zeros, (1 << 31) - 1), (Ones, 1_001), (Zeros, 63), (Ones, 1), (Zeros, 9_000)]);
        c.note(|| "a wavelet matrix of more than 2^32 one-bit elements".to_string());
        c.visit(i);
        let w = vers_vecs::WaveletMatrix::from_bit_vec_pc(&g.bv(), 1);
        eq!(c, w.len(), g.len, "len");
        for p in g.spots().into_iter().filter(|&p| p < g.len) {
            for q in [p + 1, G32 - 7, G32, G32 + 600, g.len] {
                if p < q {
                    let o = g.rank(true, q) - g.rank(true, p);
                    let z = q - p - o;
                    let (zero, one) = ((z > 0).then_some(0), (o > 0).then_some(1));
                    eq!(c, w.predecessor_u64(p..q, 0), zero, "predecessor_u64({p}..{q}, 0)");
                    eq!(c, w.predecessor_u64(p..q, 1), one.or(zero), "predecessor_u64({p}..{q}, 1)");
                    eq!(c, w.successor_u64(p..q, 0), zero.or(one), "successor_u64({p}..{q}, 0)");
                    eq!(c, w.successor_u64(p..q, 1), one, "successor_u64({p}..{q}, 1)");
                }
            }
        }
        Ok(())
    });
    r.finish()
}
