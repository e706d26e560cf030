//! C21: checked queries with every kind of argument, including absurd ones; checked vs unchecked variants.
use mc::bp;
use mc::model::*;
use mc::wav::{self, Seq};
use mc::*;
use std::ops::Bound;
use vers_vecs::{BinaryRmq, BitVec, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

/// interesting integers around a length
fn ints(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 7, 8, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129];
    for d in [65usize, 64, 63, 33, 32, 2, 1] {
        v.push(n.saturating_sub(d));
        v.push(n + d);
    }
    v.push(n);
    v.push(n / 2);
    for p in [16u32, 31, 32, 33, 57, 58, 61, 62, 63] {
        v.extend([(1usize << p) - 1, 1usize << p, (1usize << p) + 1]);
    }
    for d in 0..67 {
        if d < 4 || d > 60 {
            v.push(usize::MAX - d);
        }
    }
    v.push(usize::MAX / 2);
    v.push(usize::MAX / 64);
    v.push(usize::MAX / 63 + 1);
    v.sort_unstable();
    v.dedup();
    v
}
fn pattern(n: usize, k: u64) -> BM {
    let mut b = BM::new();
    for i in 0..n as u64 {
        b.push(match k {
            0 => false,
            1 => true,
            2 => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 63 == 1,
            _ => i + 1 == n as u64,
        });
    }
    b
}
/// get_bits of zero bits is "nothing" in one structure and "the empty word" in another; both are fine
fn window(b: &BM, pos: usize, len: usize, got: Option<u64>) -> bool {
    if len == 0 {
        return got.is_none() || (got == Some(0) && pos <= b.len);
    }
    let ok = len <= 64 && pos.checked_add(len).is_some_and(|e| e <= b.len);
    got == ok.then(|| b.window(pos, len))
}
fn bitvec(c: &mut Ctx, b: &BM, d: Dirt) -> R {
    let mut bv = b.bv(d);
    let xs = ints(b.len);
    let key = |v: &BitVec| (v.len(), (0..v.len()).map(|i| v.get_unchecked(i)).collect::<Vec<_>>());
    let want_key = key(&bv);
    for &p in &xs {
        let w = (p < b.len).then(|| b.get(p));
        eq!(c, bv.get(p), w.map(|x| x as u64), "get({p})");
        eq!(c, bv.is_bit_set(p), w, "is_bit_set({p})");
        if w.is_some() {
            eq!(c, bv.get_unchecked(p), bv.get(p).unwrap(), "get_unchecked({p})");
            eq!(c, bv.is_bit_set_unchecked(p), bv.is_bit_set(p).unwrap(), "is_bit_set_unchecked({p})");
        }
        for &l in &xs {
            let g = bv.get_bits(p, l);
            ck!(c, window(b, p, l, g), "get_bits({p}, {l}) = {g:?}");
            if let (Some(g), true) = (g, l > 0) {
                eq!(c, bv.get_bits_unchecked(p, l), g, "get_bits_unchecked({p}, {l})");
            }
            let g = bv.unpack_element(p, l);
            if let Some(at) = p.checked_mul(l) {
                ck!(c, window(b, at, l, g), "unpack_element({p}, {l}) = {g:?}");
            } else {
                eq!(c, g, None, "unpack_element({p}, {l}) far past the end");
            }
            if let (Some(g), true) = (g, l > 0) {
                eq!(c, bv.unpack_element_unchecked(p, l), g, "unpack_element_unchecked({p}, {l})");
            }
        }
        for v in [0u64, 1, u64::MAX] {
            let mut x = bv.clone();
            let r = x.set(p, v).is_ok();
            eq!(c, r, p < b.len, "set({p}, {v})");
            if !r {
                ck!(c, key(&x) == want_key, "a refused set({p}, {v}) changed the vector");
            }
        }
        // split
        match bv.clone().split_at(p) {
            Err(x) => {
                ck!(c, p > b.len, "split_at({p}) refused");
                ck!(c, key(&x) == want_key, "a refused split_at({p}) changed the vector");
            }
            Ok((a, z)) => {
                ck!(c, p <= b.len, "split_at({p}) accepted");
                let (ua, uz) = bv.clone().split_at_unchecked(p);
                ck!(c, key(&a) == key(&ua) && key(&z) == key(&uz), "split_at({p}) and its unchecked variant differ");
                eq!(c, (a.len(), z.len()), (p, b.len - p), "lengths after split_at({p})");
            }
        }
        let mut x = bv.clone();
        x.drop_last(p);
        eq!(c, x.len(), b.len.saturating_sub(p), "drop_last({p})");
        // masks of a different length are refused
        if p < 1000 {
            let m = BM::zeros(p).bv(Dirt::Clean);
            let same = p == b.len;
            eq!(c, bv.mask_or(&m).is_ok(), same, "mask_or with {p} bits");
            eq!(c, bv.mask_and(&m).is_ok(), same, "mask_and with {p} bits");
            eq!(c, bv.mask_xor(&m).is_ok(), same, "mask_xor with {p} bits");
            eq!(c, bv.mask_custom(&m, |a, _| a).is_ok(), same, "mask_custom with {p} bits");
            let mut x = bv.clone();
            eq!(c, x.apply_mask_or(&m).is_ok(), same, "apply_mask_or with {p} bits");
            eq!(c, x.apply_mask_xor(&m).is_ok(), same, "apply_mask_xor with {p} bits");
            eq!(c, x.apply_mask_custom(&m, |a, _| a).is_ok(), same, "apply_mask_custom with {p} bits");
            ck!(c, key(&x) == want_key, "masks with {p} zero bits changed the vector");
            eq!(c, x.apply_mask_and(&m).is_ok(), same, "apply_mask_and with {p} bits");
            if !same {
                ck!(c, key(&x) == want_key, "a refused apply_mask_and changed the vector");
            }
        }
    }
    // the lazy view
    let z = BM::zeros(b.len).bv(d);
    let Ok(m) = bv.mask_or(&z) else { return Err("mask of equal length refused".into()) };
    for &p in &xs {
        let w = (p < b.len).then(|| b.get(p));
        eq!(c, m.get(p), w.map(|x| x as u64), "masked get({p})");
        eq!(c, m.is_bit_set(p), w, "masked is_bit_set({p})");
        if w.is_some() {
            eq!(c, m.get_unchecked(p), m.get(p).unwrap(), "masked get_unchecked({p})");
        }
        for &l in &xs {
            let g = m.get_bits(p, l);
            ck!(c, window(b, p, l, g), "masked get_bits({p}, {l}) = {g:?}");
            if let (Some(g), true) = (g, l > 0) {
                eq!(c, m.get_bits_unchecked(p, l), g, "masked get_bits_unchecked({p}, {l})");
            }
        }
    }
    // set and read again
    if b.len > 0 {
        bv.set_unchecked(b.len - 1, 1);
        eq!(c, bv.get(b.len - 1), Some(1), "set_unchecked at the end");
    }
    Ok(())
}
fn rsvec(c: &mut Ctx, b: &BM, d: Dirt) -> R {
    let rs = RsVec::from_bit_vec(b.bv(d));
    let xs = ints(b.len);
    let ones = b.ones();
    let (p1, p0) = (b.positions(true), b.positions(false));
    for &p in &xs {
        eq!(c, rs.get(p), (p < b.len).then(|| b.get(p) as u64), "get({p})");
        if p < b.len {
            eq!(c, rs.get_unchecked(p), b.get(p) as u64, "get_unchecked({p})");
        } else {
            eq!(c, rs.rank1(p), ones, "rank1({p}) past the end");
            eq!(c, rs.rank0(p), b.len - ones, "rank0({p}) past the end");
        }
        eq!(c, rs.select1(p), p1.get(p).copied().unwrap_or(b.len), "select1({p})");
        eq!(c, rs.select0(p), p0.get(p).copied().unwrap_or(b.len), "select0({p})");
        for &l in &xs {
            let g = rs.get_bits(p, l);
            ck!(c, window(b, p, l, g), "get_bits({p}, {l}) = {g:?}");
            if let (Some(g), true) = (g, l > 0) {
                eq!(c, rs.get_bits_unchecked(p, l), g, "get_bits_unchecked({p}, {l})");
            }
        }
    }
    // sparse vector over the same bits
    let s = SparseRSVec::from_bitvec(&b.bv(d));
    for &p in &xs {
        let q = p as u64;
        let w = (p < b.len).then(|| b.get(p));
        eq!(c, s.is_set(q), w, "sparse is_set({p})");
        eq!(c, s.get(q), w.map(|x| x as u64), "sparse get({p})");
        if let Some(w) = w {
            eq!(c, s.is_set_unchecked(q), w, "sparse is_set_unchecked({p})");
            eq!(c, s.get_unchecked(q), w as u64, "sparse get_unchecked({p})");
        } else {
            eq!(c, s.rank1(q), ones as u64, "sparse rank1({p}) past the end");
            eq!(c, s.rank0(q), (b.len - ones) as u64, "sparse rank0({p}) past the end");
        }
        eq!(c, s.select1(p), p1.get(p).copied().unwrap_or(b.len) as u64, "sparse select1({p})");
    }
    Ok(())
}
fn elias(c: &mut Ctx, v: &[u64]) -> R {
    let e = EliasFanoVec::from_slice(v);
    for p in ints(v.len()) {
        let w = v.get(p).copied();
        eq!(c, e.get(p), w, "get({p})");
        eq!(c, e.select(p), w, "select({p})");
        eq!(c, e.delta(p), w.map(|x| if p == 0 { x } else { x - v[p - 1] }), "delta({p})");
        if let Some(w) = w {
            eq!(c, e.get_unchecked(p), w, "get_unchecked({p})");
        }
    }
    let mut qs: Vec<u64> = ints(v.len()).iter().map(|&x| x as u64).collect();
    for &x in v.iter().take(64) {
        qs.extend([x.saturating_sub(1), x, x.saturating_add(1)]);
    }
    for q in qs {
        let k = v.partition_point(|&x| x <= q);
        let pred = (k > 0).then(|| v[k - 1]);
        let s = v.partition_point(|&x| x < q);
        let succ = v.get(s).copied();
        eq!(c, e.predecessor(q), pred, "predecessor({q})");
        eq!(c, e.successor(q), succ, "successor({q})");
        if let Some(p) = pred {
            eq!(c, e.predecessor_unchecked(q), p, "predecessor_unchecked({q})");
        }
        if let Some(p) = succ {
            eq!(c, e.successor_unchecked(q), p, "successor_unchecked({q})");
        }
        eq!(c, e.rank(q), s as u64, "rank({q})");
    }
    Ok(())
}
fn wave(c: &mut Ctx, s: &Seq, w: &WaveletMatrix) -> R {
    let n = s.v.len();
    let k = s.k;
    let fits = k <= 64;
    let mut es: Vec<usize> = vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, n + 64, 1 << 32, 1 << 63, usize::MAX - 1, usize::MAX];
    es.sort_unstable();
    es.dedup();
    // symbols of the right width, and foreign ones
    let mut syms: Vec<wav::Sym> = vec![wav::sym(k, 0), wav::splat(k, u64::MAX)];
    syms.extend(s.v.iter().take(2).cloned());
    let foreign: Vec<BitVec> = [0usize, 1, k - 1, k + 1, k + 63, 64, 65, 2 * k, 200]
        .iter()
        .filter(|&&l| l != k)
        .flat_map(|&l| [BM::zeros(l).bv(Dirt::Clean), BM::zeros(l).complement().bv(Dirt::Ones)])
        .collect();
    for f in &foreign {
        let l = f.len();
        eq!(c, w.rank(0, f), None, "rank with a {l} bit symbol");
        eq!(c, w.rank(n, f), None, "rank with a {l} bit symbol");
        eq!(c, w.rank_range(0..n, f), None, "rank_range with a {l} bit symbol");
        eq!(c, w.rank_offset(0, n, f), None, "rank_offset with a {l} bit symbol");
        eq!(c, w.select(0, f), None, "select with a {l} bit symbol");
        eq!(c, w.select_offset(0, 0, f), None, "select_offset with a {l} bit symbol");
        eq!(c, w.predecessor(0..n, f), None, "predecessor with a {l} bit symbol");
        eq!(c, w.successor(0..n, f), None, "successor with a {l} bit symbol");
    }
    for &i in &es {
        let val = s.v.get(i);
        eq!(c, w.get_value(i), val.map(|x| wav::bv(x)), "get_value({i})");
        eq!(c, w.get_u64(i), if fits { val.map(wav::num) } else { None }, "get_u64({i})");
        if let Some(x) = val {
            eq!(c, w.get_value_unchecked(i), wav::bv(x), "get_value_unchecked({i})");
            if fits {
                eq!(c, w.get_u64_unchecked(i), wav::num(x), "get_u64_unchecked({i})");
            }
        }
        let so = s.sorted(0, n);
        eq!(c, w.get_sorted(i), so.get(i).map(wav::bv), "get_sorted({i})");
        eq!(c, w.get_sorted_u64(i), if fits { so.get(i).map(wav::num) } else { None }, "get_sorted_u64({i})");
        for x in &syms {
            let b = wav::bv(x);
            let pos: Vec<usize> = (0..n).filter(|&j| s.v[j] == *x).collect();
            let cnt = |a: usize, e: usize| pos.iter().filter(|&&p| p >= a && p < e).count();
            eq!(c, w.rank(i, &b), (i <= n).then(|| cnt(0, i)), "rank({i})");
            eq!(c, w.rank_u64(i, wav::num(x)), (fits && i <= n).then(|| cnt(0, i)), "rank_u64({i})");
            eq!(c, w.select(i, &b), pos.get(i).copied(), "select({i})");
            eq!(c, w.select_u64(i, wav::num(x)), if fits { pos.get(i).copied() } else { None }, "select_u64({i})");
            if i <= n {
                eq!(c, w.rank_unchecked(i, &b), cnt(0, i), "rank_unchecked({i})");
            }
            if let Some(&p) = pos.get(i) {
                eq!(c, w.select_unchecked(i, &b), p, "select_unchecked({i})");
            }
            for &j in &es {
                let rest: Vec<usize> = pos.iter().copied().filter(|&p| p >= i).collect();
                let want = if i < n { rest.get(j).copied() } else { None };
                eq!(c, w.select_offset(i, j, &b), want, "select_offset({i}, {j})");
                eq!(c, w.select_offset_u64(i, j, wav::num(x)), if fits { want } else { None }, "select_offset_u64({i}, {j})");
                if let Some(want) = want {
                    eq!(c, w.select_offset_unchecked(i, j, &b), want, "select_offset_unchecked({i}, {j})");
                    if fits {
                        eq!(c, w.select_offset_u64_unchecked(i, j, wav::num(x)), want, "select_offset_u64_unchecked({i}, {j})");
                    }
                }
                // ranges: exact inside, nothing outside, zero or nothing when empty
                let got = [
                    (w.rank_range(i..j, &b), true, "rank_range"),
                    (w.rank_range_u64(i..j, wav::num(x)), fits, "rank_range_u64"),
                    (w.rank_offset(i, j, &b), true, "rank_offset"),
                    (w.rank_offset_u64(i, j, wav::num(x)), fits, "rank_offset_u64"),
                ];
                for (g, ok, what) in got {
                    if i >= j {
                        ck!(c, g.is_none() || (g == Some(0) && ok), "{what}({i}..{j}) = {g:?} on an empty range");
                    } else {
                        eq!(c, g, (ok && j <= n).then(|| cnt(i, j)), "{what}({i}..{j})");
                    }
                }
                if i < j && j <= n {
                    eq!(c, w.rank_range_unchecked(i..j, &b), cnt(i, j), "rank_range_unchecked({i}..{j})");
                    eq!(c, w.rank_offset_unchecked(i, j, &b), cnt(i, j), "rank_offset_unchecked({i}, {j})");
                }
                let valid = i < j && j <= n;
                let so = if valid { s.sorted(i, j) } else { vec![] };
                let pred = so.iter().rev().find(|y| wav::cmp(y, x).is_le());
                let succ = so.iter().find(|y| wav::cmp(y, x).is_ge());
                eq!(c, w.predecessor(i..j, &b), pred.map(wav::bv), "predecessor({i}..{j})");
                eq!(c, w.successor(i..j, &b), succ.map(wav::bv), "successor({i}..{j})");
                if fits {
                    eq!(c, w.predecessor_u64(i..j, wav::num(x)), pred.map(wav::num), "predecessor_u64({i}..{j})");
                    eq!(c, w.successor_u64(i..j, wav::num(x)), succ.map(wav::num), "successor_u64({i}..{j})");
                } else {
                    eq!(c, w.predecessor_u64(i..j, 0), None, "predecessor_u64({i}..{j})");
                    eq!(c, w.successor_u64(i..j, 0), None, "successor_u64({i}..{j})");
                }
            }
        }
        for &j in &es {
            let valid = i < j && j <= n;
            let so = if valid { s.sorted(i, j) } else { vec![] };
            let m = so.len();
            for q in [0usize, 1, m / 2, m.saturating_sub(1), m, m + 1, usize::MAX - 1, usize::MAX] {
                eq!(c, w.quantile(i..j, q), so.get(q).map(wav::bv), "quantile({i}..{j}, {q})");
                let u = if fits { so.get(q).map(wav::num) } else { None };
                eq!(c, w.quantile_u64(i..j, q), u, "quantile_u64({i}..{j}, {q})");
                if q < m {
                    eq!(c, w.quantile_unchecked(i..j, q), wav::bv(&so[q]), "quantile_unchecked({i}..{j}, {q})");
                }
            }
            let at = |f: fn(usize) -> usize| if valid { Some(&so[f(m)]) } else { None };
            let (lo, hi, md) = (at(|_| 0), at(|m| m - 1), at(|m| (m - 1) / 2));
            let u = |x: Option<&wav::Sym>| if fits { x.map(wav::num) } else { None };
            eq!(c, w.range_min(i..j), lo.map(wav::bv), "range_min({i}..{j})");
            eq!(c, w.range_max(i..j), hi.map(wav::bv), "range_max({i}..{j})");
            eq!(c, w.range_median(i..j), md.map(wav::bv), "range_median({i}..{j})");
            eq!(c, w.range_min_u64(i..j), u(lo), "range_min_u64({i}..{j})");
            eq!(c, w.range_max_u64(i..j), u(hi), "range_max_u64({i}..{j})");
            eq!(c, w.range_median_u64(i..j), u(md), "range_median_u64({i}..{j})");
            if valid {
                eq!(c, w.range_min_unchecked(i..j), wav::bv(&so[0]), "range_min_unchecked({i}..{j})");
                eq!(c, w.range_max_unchecked(i..j), wav::bv(&so[m - 1]), "range_max_unchecked({i}..{j})");
                eq!(c, w.range_median_unchecked(i..j), wav::bv(&so[(m - 1) / 2]), "range_median_unchecked({i}..{j})");
                if fits {
                    eq!(c, w.range_min_u64_unchecked(i..j), wav::num(&so[0]), "range_min_u64_unchecked({i}..{j})");
                    eq!(c, w.range_max_u64_unchecked(i..j), wav::num(&so[m - 1]), "range_max_u64_unchecked({i}..{j})");
                    eq!(c, w.range_median_u64_unchecked(i..j), wav::num(&so[(m - 1) / 2]), "range_median_u64_unchecked({i}..{j})");
                }
            }
        }
    }
    if !fits {
        ck!(c, w.iter_u64().is_none() && w.iter_sorted_u64().is_none(), "64-bit iterators for wide symbols");
        ck!(c, w.clone().into_iter_u64().is_none() && w.clone().into_iter_sorted_u64().is_none(), "owned 64-bit iterators for wide symbols");
    }
    // numbers wider than the symbols: any answer, but an answer
    for x in [u64::MAX, 1 << 63, 1u64.checked_shl(k as u32).unwrap_or(5)] {
        let _ = (w.rank_u64(n, x), w.rank_range_u64(0..n, x), w.select_u64(0, x), w.rank_offset_u64(0, n, x));
        let _ = (w.select_offset_u64(0, 0, x), w.predecessor_u64(0..n, x), w.successor_u64(0..n, x));
        c.tick(7);
    }
    Ok(())
}
/// all forms of ranges over the given bounds: an index inside, the minimum where the clamped range is not empty
fn rmq(c: &mut Ctx, v: &[u64]) -> R {
    let n = v.len();
    let (b, f) = (BinaryRmq::from_vec(v.to_vec()), FastRmq::from_vec(v.to_vec()));
    let mut es: Vec<usize> = vec![0, 1, 2, 3, 127, 128, 129, n / 2, n.saturating_sub(2), n - 1, n, n + 1, n + 128, 1 << 32, 1 << 63, usize::MAX - 1, usize::MAX];
    es.sort_unstable();
    es.dedup();
    let mut bounds: Vec<Bound<usize>> = vec![Bound::Unbounded];
    for &e in &es {
        bounds.push(Bound::Included(e));
        bounds.push(Bound::Excluded(e));
    }
    for &s in &bounds {
        for &e in &bounds {
            let lo = match s {
                Bound::Included(x) => x as u128,
                Bound::Excluded(x) => x as u128 + 1,
                Bound::Unbounded => 0,
            };
            // exclusive end
            let hi = match e {
                Bound::Included(x) => x as u128 + 1,
                Bound::Excluded(x) => x as u128,
                Bound::Unbounded => n as u128,
            }
            .min(n as u128);
            for (got, what) in [(b.range_min_with_range((s, e)), "BinaryRmq"), (f.range_min_with_range((s, e)), "FastRmq")] {
                ck!(c, got < n, "{what}: range_min_with_range({s:?}, {e:?}) = {got} outside of the data");
                if lo < hi {
                    let (lo, hi) = (lo as usize, hi as usize);
                    let min = *v[lo..hi].iter().min().unwrap();
                    ck!(c, got >= lo && got < hi && v[got] == min, "{what}: range_min_with_range({s:?}, {e:?}) = {got}, minimum {min}");
                }
            }
        }
    }
    Ok(())
}
fn paren(c: &mut Ctx, b: &BM, bs: usize, d: Dirt) -> R {
    let t = bp::tree(bs, b.bv(d));
    let m = bp::Par::new(b.clone());
    for p in ints(b.len) {
        for r in [0, 1, -1, 2, -2, 63, -63, 1 << 31, -(1 << 31), (1 << 61), -(1 << 61)] {
            eq!(c, t.fwd(p, r), m.fwd(p, r), "fwd_search({p}, {r})");
            eq!(c, t.bwd(p, r), m.bwd(p, r), "bwd_search({p}, {r})");
        }
        if p >= b.len {
            eq!(c, (t.open(p), t.close(p), t.enclose(p)), (None, None, None), "open/close/enclose({p})");
        }
        eq!(c, t.excess(p), m.p[(p.saturating_add(1)).min(b.len)], "excess({p})");
        for l in [0, 1, 1 << 31, 1 << 62] {
            let _ = (t.level_leftmost(l), t.level_rightmost(l));
            c.tick(2);
            if p < b.len && b.get(p) {
                let _ = t.level_ancestor(p, l);
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C21");
    let t = r.thorough;
    let lens: Vec<usize> = if t { (0..700).chain([8191, 8192, 8193, 16384, 40000, 70001]).collect() } else { (0..200).chain([511, 512, 513, 8191, 8192, 8193, 20000]).collect() };
    let nl = lens.len() as u64;
    let l1: &'static Vec<usize> = Box::leak(Box::new(lens));
    r.family("bitvec", nl * 4 * 2, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(l1);
        let (k, dirt) = (d.take(4), DIRTS[d.0 as usize]);
        let b = pattern(n, k);
        c.note(|| format!("{dirt:?} {b:?}"));
        c.visit(i);
        bitvec(c, &b, dirt)?;
        rsvec(c, &b, dirt)
    });
    let vals: [u64; 8] = [0, 1, 5, 64, 1000, 1 << 40, u64::MAX - 1, u64::MAX];
    let cap = r.t(6u64, 9u64);
    r.family("eliasfano", ef::multisets_upto(8, cap), move |i, c| {
        let v: Vec<u64> = ef::multiset_upto(i, 8, cap).iter().map(|&k| vals[k as usize]).collect();
        c.note(|| format!("{v:?}"));
        c.visit(i);
        elias(c, &v)
    });
    let ks = [1usize, 2, 3, 31, 32, 63, 64, 65, 66, 128];
    let ns: &[usize] = if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 65, 511, 512, 513, 1000] } else { &[0, 1, 2, 3, 4, 7, 64, 65, 513] };
    r.family("wavelet", 10 * ns.len() as u64 * 3, move |i, c| {
        let mut d = Dec(i);
        let k = *d.pick(&ks);
        let n = *d.pick(ns);
        let kind = d.0;
        let v = (0..n as u64)
            .map(|i| match kind {
                0 => wav::sym(k, i),
                1 => wav::splat(k, (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15)),
                _ => wav::splat(k, if i % 2 == 0 { u64::MAX } else { 0 }),
            })
            .collect();
        let s = Seq { k, v };
        c.note(|| format!("{s:?}"));
        c.visit(i);
        for (_, w) in s.builds() {
            wave(c, &s, &w)?;
        }
        Ok(())
    });
    let rl = [1usize, 2, 3, 4, 127, 128, 129, 255, 256, 257, 600];
    r.family("rmq", 11 * 4, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&rl);
        let kind = d.0;
        let v: Vec<u64> = (0..n as u64)
            .map(|i| match kind {
                0 => 7,
                1 => i,
                2 => u64::MAX - i,
                _ => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 58,
            })
            .collect();
        c.note(|| format!("length {n} kind {kind}"));
        c.visit(i);
        rmq(c, &v)
    });
    let cnt = r.t(12u32, 15u32);
    r.family("paren", gen::strings_upto(cnt) * 4, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[1usize, 4, 9, 512]);
        let b = bp::string(d.0);
        c.note(|| format!("block {bs} {b:?}"));
        c.visit(i);
        paren(c, &b, bs, DIRTS[(i / 4 % 2) as usize])
    });
    r.finish()
}
