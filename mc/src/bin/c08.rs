//! C08: equality of rank/select vectors.
use mc::gen::{self, vec_fams_small};
use mc::model::*;
use mc::*;
use vers_vecs::RsVec;

fn rs(b: &BM, d: Dirt) -> RsVec {
    RsVec::from_bit_vec(b.bv(d))
}
fn cmp(c: &mut Ctx, x: &RsVec, y: &RsVec, want: bool, what: &str) -> R {
    eq!(c, x.full_equals(y), want, "full_equals {what}");
    eq!(c, y.full_equals(x), want, "full_equals, swapped, {what}");
    eq!(c, x.sparse_equals::<false>(y), want, "sparse_equals over ones {what}");
    eq!(c, y.sparse_equals::<false>(x), want, "sparse_equals over ones, swapped, {what}");
    eq!(c, x.sparse_equals::<true>(y), want, "sparse_equals over zeros {what}");
    eq!(c, y.sparse_equals::<true>(x), want, "sparse_equals over zeros, swapped, {what}");
    eq!(c, x == y, want, "== {what}");
    eq!(c, y == x, want, "==, swapped, {what}");
    Ok(())
}
/// positions at which a single flipped bit (or a swapped pair) must be noticed
fn probes(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for p in [0usize, 1, 63, 64, 65, 511, 512, 8191, 8192, n / 2] {
        v.push(p);
    }
    for k in 1..=66 {
        if n >= k {
            v.push(n - k);
        }
    }
    v.retain(|&p| p < n);
    v.sort();
    v.dedup();
    v
}
fn neighbours(c: &mut Ctx, b: &BM, ps: &[usize]) -> R {
    c.visit_global(b.key());
    let x = rs(b, Dirt::Clean);
    cmp(c, &x, &x, true, "with itself")?;
    cmp(c, &x, &rs(b, Dirt::Ones), true, "with different stale bits")?;
    for &p in ps {
        let mut m = b.clone();
        m.set(p, !b.get(p));
        cmp(c, &x, &rs(&m, Dirt::Ones), false, &format!("with bit {p} flipped"))?;
        // keep the number of ones: swap with the next differing bit
        if let Some(q) = (p + 1..b.len).find(|&q| b.get(q) != b.get(p)) {
            let mut m = b.clone();
            m.set(p, b.get(q));
            m.set(q, b.get(p));
            cmp(c, &x, &rs(&m, Dirt::Clean), false, &format!("with bits {p} and {q} swapped"))?;
        }
    }
    // different length
    let mut m = b.clone();
    m.push(false);
    cmp(c, &x, &rs(&m, Dirt::Clean), false, "with a zero appended")?;
    let mut m = b.clone();
    m.push(true);
    cmp(c, &x, &rs(&m, Dirt::Clean), false, "with a one appended")
}

fn main() {
    let mut r = Runner::new("C08");
    let t = r.thorough;
    // all pairs of short strings
    let n = gen::strings_upto(r.t(8, 10));
    r.family("pairs", n * n, move |i, c| {
        let (x, y) = (gen::string(i / n), gen::string(i % n));
        c.note(|| format!("{x:?} vs {y:?}"));
        c.visit(i);
        let d = DIRTS[(i % 2) as usize];
        cmp(c, &rs(&x, d), &rs(&y, Dirt::Clean), x == y, "")
    });
    for f in vec_fams_small(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let b = g(i, t);
            c.note(|| format!("{b:?}"));
            let ps = probes(b.len);
            if b.len > 2000 {
                let few: Vec<usize> = ps.iter().copied().filter(|&p| p == 0 || p + 1 == b.len || p == b.len / 2).collect();
                neighbours(c, &b, &few)
            } else {
                neighbours(c, &b, &ps)
            }
        });
    }
    // around and above the size at which the operator changes its algorithm
    let sizes = [3_999_999usize, 4_000_000, 4_000_001, 4_000_063, 4_194_304];
    r.family("large", sizes.len() as u64 * 8, move |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&sizes);
        let b = match d.0 {
            0 => BM::zeros(len),
            1 => BM::zeros(len).complement(),
            2 => gen::tile(6, len),
            3 => gen::tile(9, len),
            k => {
                // sparse ones / zeros, majority decided by a single bit
                let mut b = gen::tile(if k < 6 { 7 } else { 8 }, len);
                if k % 2 == 1 {
                    b.set(len / 4, !b.get(len / 4));
                }
                b
            }
        };
        c.note(|| format!("{len} bits, kind {}", d.0));
        let ps = [0usize, 63, 64, len / 2, len - 65, len - 2, len - 1];
        neighbours(c, &b, &ps)
    });
    // equality and conversion beyond 32 bits: one difference, at every interesting position
    r.family("giga", 3, |i, c| {
        let _p = mc::giga::permit();
        let kind = [0, 1, 4][i as usize];
        let g = mc::giga::Giga::kind(kind);
        c.note(|| format!("giga kind {kind}"));
        c.visit(i);
        let mut other = g.bv();
        let rs = RsVec::from_bit_vec(g.bv());
        let twin = RsVec::from_bit_vec(other.clone());
        // along the rare bits
        let sparse = |a: &RsVec, b: &RsVec| if kind == 1 { a.sparse_equals::<true>(b) } else { a.sparse_equals::<false>(b) };
        ck!(c, rs.full_equals(&twin) && rs == twin && sparse(&rs, &twin), "two vectors of the same {} bits differ", g.len);
        drop(twin);
        for p in [mc::giga::G32 + 70_000, mc::giga::G32 + 8192, (1 << 31) + 5] {
            other.flip_bit(p);
            // the same number of ones again
            let q = if other.get(p) == Some(1) { g.select(true, g.count(true) - 1).unwrap() } else { g.select(false, g.count(false) - 1).unwrap() };
            other.flip_bit(q);
            let x = RsVec::from_bit_vec(other.clone());
            ck!(c, !rs.full_equals(&x), "full_equals ignores a difference at {p}");
            ck!(c, rs != x, "== ignores a difference at {p}");
            ck!(c, !sparse(&rs, &x), "sparse_equals ignores a difference at {p}");
            other.flip_bit(q);
            other.flip_bit(p);
        }
        drop(other);
        let want = g.bv();
        let back = rs.into_bit_vec();
        ck!(c, back == want, "the vector returned by into_bit_vec differs");
        Ok(())
    });
    r.finish()
}
