//! C11: sparse rank/select vector.
use mc::ef::multisets;
use mc::gen;
use mc::model::*;
use mc::*;
use vers_vecs::SparseRSVec;

/// all queries for positions 0..=len+2 against the plain bits
fn dense(c: &mut Ctx, s: &SparseRSVec, b: &BM, what: &str) -> R {
    eq!(c, s.len(), b.len as u64, "{what} len");
    eq!(c, s.is_empty(), b.len == 0, "{what} is_empty");
    let mut ones = 0u64;
    for i in 0..b.len {
        let bit = b.get(i);
        let p = i as u64;
        eq!(c, s.is_set(p), Some(bit), "{what} is_set({i})");
        eq!(c, s.get(p), Some(bit as u64), "{what} get({i})");
        eq!(c, s.is_set_unchecked(p), bit, "{what} is_set_unchecked({i})");
        eq!(c, s.get_unchecked(p), bit as u64, "{what} get_unchecked({i})");
        eq!(c, s.rank1(p), ones, "{what} rank1({i})");
        eq!(c, s.rank0(p), p - ones, "{what} rank0({i})");
        if bit {
            eq!(c, s.select1(ones as usize), p, "{what} select1({ones})");
        }
        ones += bit as u64;
    }
    let n = b.len as u64;
    for p in [n, n + 1, n + 63, u64::MAX] {
        eq!(c, s.is_set(p), None, "{what} is_set({p}) past the end");
        eq!(c, s.get(p), None, "{what} get({p}) past the end");
        eq!(c, s.rank1(p), ones, "{what} rank1({p}) past the end");
        eq!(c, s.rank0(p), n - ones, "{what} rank0({p}) past the end");
    }
    for k in [ones as usize, ones as usize + 1, usize::MAX] {
        eq!(c, s.select1(k), n, "{what} select1({k}) past the last");
    }
    let it: Vec<u64> = s.iter1().collect();
    let want: Vec<u64> = b.positions(true).iter().map(|&x| x as u64).collect();
    ck!(c, it == want, "{what} iter1: got {it:?}, expected {want:?}");
    Ok(())
}

fn main() {
    let mut r = Runner::new("C11");
    let t = r.thorough;
    for f in gen::vec_fams(t) {
        if !["strings", "lengths", "words", "blocks", "mega"].contains(&f.name) && !t {
            continue;
        }
        if ["runs", "gaps", "supers"].contains(&f.name) {
            continue;
        }
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let b = g(i, t);
            if b.len > 20_000 && !(b.len < 2_000_000 && f.name == "mega") {
                return Ok(());
            }
            let d = DIRTS[(i % 2) as usize];
            c.note(|| format!("{d:?} {b:?}"));
            c.visit_global(hash_of(&(&b, d as u8)));
            let bv = b.bv(d);
            dense(c, &SparseRSVec::from_bitvec(&bv), &b, "from_bitvec")?;
            dense(c, &SparseRSVec::from_bitvec_inverted(&bv), &b.complement(), "from_bitvec_inverted")?;
            // the two conversions: undocumented which of the two they are, but they are one of them and agree
            let (owned, lent) = (SparseRSVec::from(bv.clone()), SparseRSVec::from(&bv));
            let x = if b.len > 0 && owned.get(0) == Some(b.get(0) as u64) { b.clone() } else { b.complement() };
            dense(c, &owned, &x, "From<BitVec>")?;
            dense(c, &lent, &x, "From<&BitVec>")?;
            let pos: Vec<u64> = b.positions(true).iter().map(|&x| x as u64).collect();
            dense(c, &SparseRSVec::new(&pos, b.len as u64), &b, "new")
        });
    }
    // sets of extreme positions in huge vectors
    const P: [u64; 14] = [
        0,
        1,
        2,
        63,
        64,
        1000,
        (1 << 32) - 1,
        1 << 32,
        (1 << 62) + 3,
        (1 << 63) - 1,
        1 << 63,
        u64::MAX - 3,
        u64::MAX - 2,
        u64::MAX - 1,
    ];
    let lens = [1u64 << 33, 1 << 63, u64::MAX];
    r.family("extreme", (1 << P.len()) * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&lens);
        let set: Vec<u64> = P.iter().enumerate().filter(|(k, &p)| d.0 >> k & 1 == 1 && p < len).map(|(_, &p)| p).collect();
        c.note(|| format!("{set:?} of {len}"));
        c.visit_global(hash_of(&(&set, len)));
        let s = SparseRSVec::new(&set, len);
        let mut q: Vec<u64> = vec![];
        for p in P {
            q.extend([p.saturating_sub(1), p, p.saturating_add(1)]);
        }
        q.push(u64::MAX);
        for p in q {
            let less = set.iter().filter(|&&x| x < p).count() as u64;
            let has = set.contains(&p);
            eq!(c, s.is_set(p), (p < len).then_some(has), "is_set({p})");
            eq!(c, s.get(p), (p < len).then_some(has as u64), "get({p})");
            eq!(c, s.rank1(p), less, "rank1({p})");
            eq!(c, s.rank0(p), if p < len { p - less } else { len - set.len() as u64 }, "rank0({p})");
            if p < len {
                eq!(c, s.is_set_unchecked(p), has, "is_set_unchecked({p})");
            }
        }
        for k in 0..set.len() + 3 {
            eq!(c, s.select1(k), set.get(k).copied().unwrap_or(len), "select1({k})");
        }
        ck!(c, s.iter1().eq(set.iter().copied()), "iter1 differs");
        eq!(c, s.len(), len, "len");
        Ok(())
    });
    // clusters of positions and one far away
    let n = r.t(7u64, 9u64);
    r.family("clusters", multisets(n, 8) * 6, move |i, c| {
        let mut d = Dec(i);
        let far = *d.pick(&[30u64, 100, 1000, 5000, 1 << 17, 1 << 30]);
        let gaps = ef::multiset(d.0, n, 8);
        let mut set: Vec<u64> = gaps.iter().enumerate().map(|(k, g)| g * 3 + k as u64).collect();
        let last = *set.last().unwrap();
        set.push(last + far);
        let len = last + far + 4;
        c.note(|| format!("{set:?} of {len}"));
        c.visit_global(hash_of(&(&set, len)));
        let s = SparseRSVec::new(&set, len);
        for p in (0..last + 40).chain([last + far - 1, last + far, last + far + 1, len, len + 1]) {
            let less = set.partition_point(|&x| x < p) as u64;
            eq!(c, s.is_set(p), (p < len).then(|| set.binary_search(&p).is_ok()), "is_set({p})");
            eq!(c, s.rank1(p), less, "rank1({p})");
        }
        for k in 0..set.len() + 2 {
            eq!(c, s.select1(k), set.get(k).copied().unwrap_or(len), "select1({k})");
        }
        Ok(())
    });
    r.finish()
}
