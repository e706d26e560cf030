//! C13: wavelet matrix access, rank and select.
use mc::wav::*;
use mc::*;

fn check(c: &mut Ctx, s: &Seq) -> R {
    c.visit_global(hash_of(s));
    let n = s.v.len();
    let vals: Vec<_> = s.v.iter().map(bv).collect();
    let nums = s.nums();
    let fits = s.fits();
    let syms = s.symbols();
    let occ: Vec<Vec<usize>> = syms.iter().map(|q| (0..n).filter(|&i| s.v[i] == *q).collect()).collect();
    let e = ends(n);
    for (how, w) in s.builds() {
        eq!(c, w.len(), n, "{how}: len");
        eq!(c, w.is_empty(), n == 0, "{how}: is_empty");
        eq!(c, w.bits_per_element(), s.k, "{how}: bits_per_element");
        for i in 0..n {
            eq!(c, w.get_value(i).as_ref(), Some(&vals[i]), "{how}: get_value({i})");
            if n <= 3 {
                mc::model::editable(c, &w.get_value(i).unwrap(), &s.v[i], how)?;
            }
            eq!(c, w.get_u64(i), fits.then(|| nums[i]), "{how}: get_u64({i})");
            if i < 64 || i % 61 == 0 {
                eq!(c, &w.get_value_unchecked(i), &vals[i], "{how}: get_value_unchecked({i})");
                if fits {
                    eq!(c, w.get_u64_unchecked(i), nums[i], "{how}: get_u64_unchecked({i})");
                }
            }
        }
        for i in [n, n + 1, n + 64, usize::MAX] {
            eq!(c, w.get_value(i), None, "{how}: get_value({i}) past the end");
            eq!(c, w.get_u64(i), None, "{how}: get_u64({i}) past the end");
        }
        let got: Vec<_> = w.iter().collect();
        ck!(c, got == vals, "{how}: iter() {got:?}");
        match w.iter_u64() {
            Some(it) => ck!(c, fits && it.eq(nums.iter().copied()), "{how}: iter_u64 differs"),
            None => ck!(c, !fits, "{how}: iter_u64 refused"),
        }
        for (q, o) in syms.iter().zip(&occ) {
            let qb = bv(q);
            let qn = num(q);
            let cnt = |i: usize, j: usize| o.partition_point(|&p| p < j) - o.partition_point(|&p| p < i);
            for &j in &e {
                let want = cnt(0, j);
                eq!(c, w.rank(j, &qb), Some(want), "{how}: rank({j}, {q:?})");
                eq!(c, w.rank_unchecked(j, &qb), want, "{how}: rank_unchecked({j}, {q:?})");
                eq!(c, w.rank_u64(j, qn), fits.then_some(want), "{how}: rank_u64({j}, {qn})");
                if fits {
                    eq!(c, w.rank_u64_unchecked(j, qn), want, "{how}: rank_u64_unchecked({j}, {qn})");
                }
                for &i in e.iter().take_while(|&&i| i <= j) {
                    if i == n {
                        continue; // empty range at the very end: not specified whether it counts as in bounds
                    }
                    let want = cnt(i, j);
                    eq!(c, w.rank_range(i..j, &qb), Some(want), "{how}: rank_range({i}..{j}, {q:?})");
                    eq!(c, w.rank_range_unchecked(i..j, &qb), want, "{how}: rank_range_unchecked({i}..{j}, {q:?})");
                    eq!(c, w.rank_offset(i, j, &qb), Some(want), "{how}: rank_offset({i}, {j}, {q:?})");
                    eq!(c, w.rank_offset_unchecked(i, j, &qb), want, "{how}: rank_offset_unchecked({i}, {j}, {q:?})");
                    let w64 = fits.then_some(want);
                    eq!(c, w.rank_range_u64(i..j, qn), w64, "{how}: rank_range_u64({i}..{j}, {qn})");
                    eq!(c, w.rank_offset_u64(i, j, qn), w64, "{how}: rank_offset_u64({i}, {j}, {qn})");
                    if fits {
                        eq!(c, w.rank_range_u64_unchecked(i..j, qn), want, "{how}: rank_range_u64_unchecked({i}..{j}, {qn})");
                        eq!(c, w.rank_offset_u64_unchecked(i, j, qn), want, "{how}: rank_offset_u64_unchecked({i}, {j}, {qn})");
                    }
                }
            }
            for j in [n + 1, usize::MAX] {
                eq!(c, w.rank(j, &qb), None, "{how}: rank({j}, {q:?}) past the end");
                eq!(c, w.rank_u64(j, qn), None, "{how}: rank_u64({j}, {qn}) past the end");
            }
            // select: every occurrence, and past the last one
            let step = o.len() / 300 + 1;
            let ranks = (0..o.len()).step_by(step).chain(o.len().saturating_sub(2)..o.len() + 2).chain([n, n + 1]);
            for r in ranks {
                let want = o.get(r).copied();
                eq!(c, w.select(r, &qb), want, "{how}: select({r}, {q:?})");
                eq!(c, w.select_u64(r, qn), if fits { want } else { None }, "{how}: select_u64({r}, {qn})");
                if let Some(p) = want {
                    eq!(c, w.select_unchecked(r, &qb), p, "{how}: select_unchecked({r}, {q:?})");
                    if fits {
                        eq!(c, w.select_u64_unchecked(r, qn), p, "{how}: select_u64_unchecked({r}, {qn})");
                    }
                }
            }
            for &off in e.iter().filter(|&&x| x < n) {
                let before = cnt(0, off);
                let left = o.len() - before;
                let step = left / 8 + 1;
                for r in (0..left).step_by(step).chain([left.saturating_sub(1), left, left + 1, n]) {
                    let want = o.get(before + r).copied();
                    eq!(c, w.select_offset(off, r, &qb), want, "{how}: select_offset({off}, {r}, {q:?})");
                    eq!(c, w.select_offset_u64(off, r, qn), if fits { want } else { None }, "{how}: select_offset_u64({off}, {r}, {qn})");
                    if let Some(p) = want {
                        eq!(c, w.select_offset_unchecked(off, r, &qb), p, "{how}: select_offset_unchecked({off}, {r}, {q:?})");
                        if fits {
                            eq!(c, w.select_offset_u64_unchecked(off, r, qn), p, "{how}: select_offset_u64_unchecked({off}, {r}, {qn})");
                        }
                    }
                }
            }
            eq!(c, w.select_offset(n, 0, &qb), None, "{how}: select_offset({n}, 0, {q:?}) past the end");
            eq!(c, w.select_offset_u64(n, 0, qn), None, "{how}: select_offset_u64({n}, 0, {qn}) past the end");
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C13");
    let t = r.thorough;
    for f in fams(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let s = g(i, t);
            c.note(|| format!("{s:?}"));
            check(c, &s)
        });
    }
    // more than 2^32 elements
    r.family("giga", 1, |i, c| {
        use mc::giga::{Giga, Run::*, G32};
        let _p = mc::giga::permit();
        let g = Giga::new(&[(Ones, (1 << 31) + 513), (Zeros, (1 << 31) - 1), (Ones, 1_001), (Zeros, 63), (Ones, 1), (Zeros, 9_000)]);
        c.note(|| "a wavelet matrix of more than 2^32 one-bit elements".to_string());
        c.visit(i);
        let w = vers_vecs::WaveletMatrix::from_bit_vec_pc(&g.bv(), 1);
        eq!(c, w.len(), g.len, "len");
        let sym = [vers_vecs::BitVec::from_zeros(1), vers_vecs::BitVec::from_ones(1)];
        let spots = g.spots();
        for &p in &spots {
            eq!(c, w.get_u64(p), (p < g.len).then(|| g.get(p) as u64), "get_u64({p})");
            for bit in [false, true] {
                let s = bit as u64;
                let n = g.rank(bit, p);
                eq!(c, w.rank_u64(p, s), Some(n), "rank_u64({p}, {s})");
                eq!(c, w.rank(p, &sym[bit as usize]), Some(n), "rank({p}, {s})");
                for q in [p, G32 - 7, G32, G32 + 600, g.len] {
                    if p <= q && p < g.len {
                        eq!(c, w.rank_range_u64(p..q, s), Some(g.rank(bit, q) - n), "rank_range_u64({p}..{q}, {s})");
                        eq!(c, w.rank_offset_u64(p, q, s), Some(g.rank(bit, q) - n), "rank_offset_u64({p}, {q}, {s})");
                    }
                }
                for k in [0usize, 1, 1000, 1 << 31, G32 - 5] {
                    if p < g.len {
                        let want = g.select(bit, n + k);
                        eq!(c, w.select_offset_u64(p, k, s), want, "select_offset_u64({p}, {k}, {s})");
                        eq!(c, w.select_offset(p, k, &sym[bit as usize]), want, "select_offset({p}, {k}, {s})");
                    }
                }
                eq!(c, w.select_u64(n, s), g.select(bit, n), "select_u64({n}, {s})");
            }
        }
        Ok(())
    });
    r.finish()
}
