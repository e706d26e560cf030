//! C14: order statistics of wavelet matrices.
use mc::wav::*;
use mc::*;

fn check(c: &mut Ctx, s: &Seq) -> R {
    c.visit_global(hash_of(s));
    let n = s.v.len();
    let fits = s.fits();
    let e = ends(n);
    let whole = s.sorted(0, n);
    let whole_bv: Vec<_> = whole.iter().map(bv).collect();
    let whole_n: Vec<u64> = whole.iter().map(num).collect();
    let builds = s.builds();
    for (how, w) in &builds {
        for i in 0..n {
            if n > 2000 && i % 17 != 3 && i > 600 && i + 100 < n {
                continue;
            }
            eq!(c, w.get_sorted(i).as_ref(), Some(&whole_bv[i]), "{how}: get_sorted({i})");
            eq!(c, w.get_sorted_u64(i), fits.then(|| whole_n[i]), "{how}: get_sorted_u64({i})");
            eq!(c, &w.get_sorted_unchecked(i), &whole_bv[i], "{how}: get_sorted_unchecked({i})");
            if fits {
                eq!(c, w.get_sorted_u64_unchecked(i), whole_n[i], "{how}: get_sorted_u64_unchecked({i})");
            }
        }
        for i in [n, n + 1, usize::MAX] {
            eq!(c, w.get_sorted(i), None, "{how}: get_sorted({i}) past the end");
            eq!(c, w.get_sorted_u64(i), None, "{how}: get_sorted_u64({i}) past the end");
        }
        if n <= 2000 {
            ck!(c, w.iter_sorted().eq(whole_bv.iter().cloned()), "{how}: iter_sorted differs");
            ck!(c, w.iter_sorted().rev().eq(whole_bv.iter().rev().cloned()), "{how}: iter_sorted().rev() differs");
            ck!(c, w.clone().into_iter_sorted().eq(whole_bv.iter().cloned()), "{how}: into_iter_sorted differs");
            match (w.iter_sorted_u64(), w.clone().into_iter_sorted_u64()) {
                (Some(a), Some(b)) => {
                    ck!(c, fits && a.eq(whole_n.iter().copied()), "{how}: iter_sorted_u64 differs");
                    ck!(c, b.rev().eq(whole_n.iter().rev().copied()), "{how}: into_iter_sorted_u64().rev() differs");
                }
                (None, None) => ck!(c, !fits, "{how}: iter_sorted_u64 refused"),
                _ => return Err(format!("{how}: iter_sorted_u64 and into_iter_sorted_u64 disagree")),
            }
        }
    }
    for &i in &e {
        for &j in &e {
            if i >= j || j > n {
                continue;
            }
            let so = s.sorted(i, j);
            let m = so.len();
            let last = m - 1;
            for (how, w) in &builds {
                let ks = (0..m).step_by(m / 40 + 1).chain([last / 2, last]);
                for k in ks {
                    let want = bv(&so[k]);
                    eq!(c, w.quantile(i..j, k).as_ref(), Some(&want), "{how}: quantile({i}..{j}, {k})");
                    eq!(c, w.quantile_unchecked(i..j, k), want, "{how}: quantile_unchecked({i}..{j}, {k})");
                    let want = num(&so[k]);
                    eq!(c, w.quantile_u64(i..j, k), fits.then_some(want), "{how}: quantile_u64({i}..{j}, {k})");
                    if fits {
                        eq!(c, w.quantile_u64_unchecked(i..j, k), want, "{how}: quantile_u64_unchecked({i}..{j}, {k})");
                    }
                }
                for k in [m, m + 1, usize::MAX] {
                    eq!(c, w.quantile(i..j, k), None, "{how}: quantile({i}..{j}, {k}) past the range");
                    eq!(c, w.quantile_u64(i..j, k), None, "{how}: quantile_u64({i}..{j}, {k}) past the range");
                }
                let (lo, hi, md) = (bv(&so[0]), bv(&so[last]), bv(&so[last / 2]));
                eq!(c, w.range_min(i..j).as_ref(), Some(&lo), "{how}: range_min({i}..{j})");
                eq!(c, w.range_max(i..j).as_ref(), Some(&hi), "{how}: range_max({i}..{j})");
                eq!(c, w.range_median(i..j).as_ref(), Some(&md), "{how}: range_median({i}..{j})");
                eq!(c, w.range_min_unchecked(i..j), lo, "{how}: range_min_unchecked({i}..{j})");
                eq!(c, w.range_max_unchecked(i..j), hi, "{how}: range_max_unchecked({i}..{j})");
                eq!(c, w.range_median_unchecked(i..j), md, "{how}: range_median_unchecked({i}..{j})");
                let (lo, hi, md) = (num(&so[0]), num(&so[last]), num(&so[last / 2]));
                eq!(c, w.range_min_u64(i..j), fits.then_some(lo), "{how}: range_min_u64({i}..{j})");
                eq!(c, w.range_max_u64(i..j), fits.then_some(hi), "{how}: range_max_u64({i}..{j})");
                eq!(c, w.range_median_u64(i..j), fits.then_some(md), "{how}: range_median_u64({i}..{j})");
                if fits {
                    eq!(c, w.range_min_u64_unchecked(i..j), lo, "{how}: range_min_u64_unchecked({i}..{j})");
                    eq!(c, w.range_max_u64_unchecked(i..j), hi, "{how}: range_max_u64_unchecked({i}..{j})");
                    eq!(c, w.range_median_u64_unchecked(i..j), md, "{how}: range_median_u64_unchecked({i}..{j})");
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C14");
    let t = r.thorough;
    for f in fams(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let s = g(i, t);
            c.note(|| format!("{s:?}"));
            check(c, &s)
        });
    }
    // more than 2^32 elements
    r.family("giga", 1, |i, c| {
        use mc::giga::{Giga, Run::*, G32};
        let _p = mc::giga::permit();
        let g = Giga::new(&[(Ones, (1 << 31) + 513), (Zeros, (1 << 31) - 1), (Ones, 1_001), (Zeros, 63), (Ones, 1), (Zeros, 9_000)]);
        c.note(|| "a wavelet matrix of more than 2^32 one-bit elements".to_string());
        c.visit(i);
        let w = vers_vecs::WaveletMatrix::from_bit_vec_pc(&g.bv(), 1);
        eq!(c, w.len(), g.len, "len");
        let zeros = g.count(false);
        for p in g.spots().into_iter().filter(|&p| p < g.len) {
            eq!(c, w.get_sorted_u64(p), Some((p >= zeros) as u64), "get_sorted_u64({p})");
            for q in [p + 1, G32 - 7, G32, G32 + 600, g.len] {
                if p < q {
                    let z = g.rank(false, q) - g.rank(false, p);
                    let n = q - p;
                    for k in [0, 1, z.saturating_sub(1), z, n - 1, n, 1 << 31] {
                        let want = (k < n).then_some((k >= z) as u64);
                        eq!(c, w.quantile_u64(p..q, k), want, "quantile_u64({p}..{q}, {k})");
                    }
                    eq!(c, w.range_min_u64(p..q), Some((z == 0) as u64), "range_min_u64({p}..{q})");
                    eq!(c, w.range_max_u64(p..q), Some((z < n) as u64), "range_max_u64({p}..{q})");
                    eq!(c, w.range_median_u64(p..q), Some(((n - 1) / 2 >= z) as u64), "range_median_u64({p}..{q})");
                }
            }
        }
        Ok(())
    });
    r.finish()
}
