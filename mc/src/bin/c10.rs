//! C10: Elias-Fano predecessor, successor, rank.
use mc::ef::{queries, seq_fams};
use mc::*;
use vers_vecs::EliasFanoVec;

fn check(c: &mut Ctx, v: &[u64]) -> R {
    c.visit_global(hash_of(v));
    let e = EliasFanoVec::from_slice(v);
    for q in queries(v) {
        let less = v.partition_point(|&x| x < q);
        let leq = v.partition_point(|&x| x <= q);
        let pred = if leq > 0 { Some(v[leq - 1]) } else { None };
        let succ = v.get(less).copied();
        eq!(c, e.predecessor(q), pred, "predecessor({q})");
        eq!(c, e.successor(q), succ, "successor({q})");
        eq!(c, e.rank(q), less as u64, "rank({q})");
        if let Some(p) = pred {
            eq!(c, e.predecessor_unchecked(q), p, "predecessor_unchecked({q})");
        }
        if let Some(s) = succ {
            eq!(c, e.successor_unchecked(q), s, "successor_unchecked({q})");
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C10");
    let t = r.thorough;
    for f in seq_fams(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let v = g(i, t);
            c.note(|| format!("{v:?}"));
            check(c, &v)
        });
    }
    // every query of a small universe against every sequence with one wide bucket
    r.family("dense_queries", 6 * 12 * 300, |i, c| {
        let mut d = Dec(i);
        let scale = *d.pick(&[1u64, 2, 3, 5, 8, 13]);
        let dup = d.take(12);
        let n = d.0 % 300;
        let mut v: Vec<u64> = (0..n).map(|x| 17 + x * scale / 2 - (x * scale / 2) % (dup + 1)).collect();
        v.sort();
        c.note(|| format!("{v:?}"));
        c.visit_global(hash_of(&v));
        let e = EliasFanoVec::from_slice(&v);
        let hi = v.last().copied().unwrap_or(0) + 3;
        let (mut less, mut leq) = (0, 0);
        for q in 0..=hi {
            while less < v.len() && v[less] < q {
                less += 1;
            }
            while leq < v.len() && v[leq] <= q {
                leq += 1;
            }
            eq!(c, e.predecessor(q), if leq > 0 { Some(v[leq - 1]) } else { None }, "predecessor({q})");
            eq!(c, e.successor(q), v.get(less).copied(), "successor({q})");
            eq!(c, e.rank(q), less as u64, "rank({q})");
        }
        Ok(())
    });
    r.finish()
}
