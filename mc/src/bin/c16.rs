//! C16: excess searches on every parenthesis sequence.
use mc::bp::{self, AnyBp, Par, BLOCKS};
use mc::gen;
use mc::model::*;
use mc::*;

const FAR: [i64; 8] =
    [1000, -1000, 1 << 40, -(1 << 40), i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1];

fn point(c: &mut Ctx, t: &dyn AnyBp, m: &Par, bs: usize, i: usize, r: i64) -> R {
    c.transitions += 2;
    let (f, g) = (t.fwd(i, r), m.fwd(i, r));
    if f != g {
        return Err(format!("block size {bs}: fwd_search({i}, {r}) = {f:?}, expected {g:?}"));
    }
    let (f, g) = (t.bwd(i, r), m.bwd(i, r));
    if f != g {
        return Err(format!("block size {bs}: bwd_search({i}, {r}) = {f:?}, expected {g:?}"));
    }
    Ok(())
}
/// the parenthesis-level queries at position i
fn parens(c: &mut Ctx, t: &dyn AnyBp, m: &Par, bs: usize, i: usize) -> R {
    if m.bits[i] {
        eq!(c, t.close(i), m.fwd(i, -1), "block size {bs}: close({i})");
        eq!(c, t.enclose(i), m.bwd(i, -1), "block size {bs}: enclose({i}) of an opening parenthesis");
        // whatever it answers, it has to answer
        let _ = t.open(i);
    } else {
        eq!(c, t.open(i), m.bwd(i, -1), "block size {bs}: open({i})");
        eq!(c, t.enclose(i), m.bwd(i, -2), "block size {bs}: enclose({i}) of a closing parenthesis");
        let _ = t.close(i);
    }
    eq!(c, t.excess(i), m.p[i + 1], "block size {bs}: excess({i})");
    Ok(())
}
fn outside(c: &mut Ctx, t: &dyn AnyBp, m: &Par, bs: usize) -> R {
    let n = m.len();
    for i in [n, n + 1, n + 63, 1 << 40, usize::MAX - 1, usize::MAX] {
        for r in [-2, -1, 0, 1, 2, 1 << 40] {
            eq!(c, t.fwd(i, r), None, "block size {bs}: fwd_search({i}, {r}) past the end");
            eq!(c, t.bwd(i, r), None, "block size {bs}: bwd_search({i}, {r}) past the end");
        }
        eq!(c, t.close(i), None, "block size {bs}: close({i}) past the end");
        eq!(c, t.open(i), None, "block size {bs}: open({i}) past the end");
        eq!(c, t.enclose(i), None, "block size {bs}: enclose({i}) past the end");
        eq!(c, t.excess(i), m.p[n], "block size {bs}: excess({i}) past the end");
    }
    Ok(())
}
/// every position, every relative excess that can or just cannot be reached
fn full(c: &mut Ctx, m: &Par, bs: usize, dirt: Dirt) -> R {
    let t = bp::tree(bs, m.b.bv(dirt));
    let t = &*t;
    for i in 0..m.len() {
        let (lo, hi) = (m.min() - m.p[i + 1].max(m.p[i]) - 1, m.max() - m.p[i + 1].min(m.p[i]) + 1);
        for r in lo..=hi {
            point(c, t, m, bs, i, r)?;
        }
        for r in FAR {
            point(c, t, m, bs, i, r)?;
        }
        parens(c, t, m, bs, i)?;
    }
    outside(c, t, m, bs)
}
/// every `step`-th position, near, extreme and spread relative excesses
fn wide(c: &mut Ctx, m: &Par, bs: usize, step: usize, dirt: Dirt) -> R {
    let t = bp::tree(bs, m.b.bv(dirt));
    let t = &*t;
    let n = m.len();
    let span = m.max() - m.min();
    let mut rs: Vec<i64> = (-4..=4).collect();
    rs.extend(&FAR[4..]);
    let mut k = 7;
    while k < span {
        rs.extend([k, -k, k + 1, -k - 1]);
        k = k * 2 + 1;
    }
    let mut i = 0;
    while i < n {
        for &r in &rs {
            point(c, t, m, bs, i, r)?;
        }
        for r in [m.min() - m.p[i + 1], m.max() - m.p[i + 1], m.min() - m.p[i], m.max() - m.p[i]] {
            for d in [-1, 0, 1] {
                point(c, t, m, bs, i, r + d)?;
            }
        }
        parens(c, t, m, bs, i)?;
        // the neighbourhood of block boundaries is never skipped
        i += if step == 1 || i % bs + 2 >= bs || i % bs < 2 { 1 } else { step.min(bs - 2 - i % bs).max(1) };
    }
    outside(c, t, m, bs)
}

fn main() {
    let mut r = Runner::new("C16");
    let t = r.thorough;
    let n = r.t(13u32, 15u32);
    r.family("strings", gen::strings_upto(n), move |i, c| {
        let m = Par::new(bp::string(i));
        c.note(|| format!("{:?}", m.b));
        for (k, &bs) in BLOCKS.iter().enumerate().take(if t { 21 } else { 16 }) {
            c.visit_global(hash_of(&(&m.b, bs)));
            full(c, &m, bs, DIRTS[k % 2])?;
        }
        Ok(())
    });
    // three and four runs of every length around the lookup and block sizes
    let lens: &[usize] = if t {
        &[0, 1, 2, 3, 5, 7, 8, 9, 13, 15, 16, 17, 23, 31, 33, 47]
    } else {
        &[0, 1, 2, 7, 8, 9, 15, 17, 31, 33]
    };
    let bss = [3usize, 8, 12, 16, 17, 32];
    let l = lens.len() as u64;
    r.family("runs", 2 * l.pow(3) * 6, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&bss);
        let start = d.take(2) == 1;
        let v: Vec<usize> = (0..3).map(|_| *d.pick(lens)).collect();
        let m = Par::new(bp::runs(start, &v));
        c.note(|| format!("block {bs} {:?}", m.b));
        c.visit_global(hash_of(&(&m.b, bs)));
        full(c, &m, bs, DIRTS[(i % 2) as usize])
    });
    // walls of bricks
    let bl = r.t(4u32, 5u32);
    let scales = [3usize, 8, 16, 21, 64];
    let bss2 = [1usize, 2, 4, 7, 8, 9, 16, 33, 64];
    r.family("walls", bp::BRICKS.pow(bl) * 5 * 3, move |i, c| {
        let mut d = Dec(i);
        let s = d.take(5) as usize;
        let w = d.take(3) as usize;
        let bs = bss2[(s * 2 + w * 3) % 9];
        let m = Par::new(bp::wall(&mut d, bl, scales[s]));
        c.note(|| format!("block {bs} {:?}", m.b));
        c.visit_global(hash_of(&(&m.b, bs)));
        if m.len() <= 70 {
            full(c, &m, bs, DIRTS[(i % 2) as usize])
        } else {
            wide(c, &m, bs, 1, DIRTS[(i % 2) as usize])
        }
    });
    // many blocks: every number of blocks, so every shape of the last level of the min-max tree
    let blocks = r.t(70u64, 140u64);
    r.family("blockcount", (blocks + 1) * 4 * bp::BRICKS * 2, move |i, c| {
        let mut d = Dec(i);
        let up = d.take(2) == 1;
        let bs = *d.pick(&[1usize, 4, 9, 16]);
        let kind = d.take(bp::BRICKS);
        let nb = d.0 as usize;
        // a run that the tail has to climb back
        let mut b = BM::new();
        let half = nb * bs / 2;
        b.run(up, half);
        b.extend(&bp::brick(kind, nb * bs - half));
        let m = Par::new(b);
        c.note(|| format!("block {bs} {:?}", m.b));
        c.visit_global(hash_of(&(&m.b, bs)));
        wide(c, &m, bs, 1, DIRTS[(i % 2) as usize])
    });
    // large trees and their unbalanced prefixes and suffixes
    let sizes: &[usize] = if t { &[100, 256, 257, 1000, 4097, 20000] } else { &[100, 257, 3000] };
    let bss3 = [4usize, 16, 65, 512, 1024];
    r.family("large", bp::SHAPES * sizes.len() as u64 * 5 * 4, move |i, c| {
        let mut d = Dec(i);
        let cut = d.take(4);
        let bs = *d.pick(&bss3);
        let n = *d.pick(sizes);
        let mut b = bp::shape(d.0, n);
        match cut {
            1 => {
                let l = b.len - b.len / 3;
                b.truncate(l);
            }
            2 => b = BM::from_bools(&b.bools()[b.len / 3..]),
            3 => {
                // far more closing than opening parentheses in front
                let mut x = BM::new();
                x.run(false, n);
                x.extend(&b);
                b = x;
            }
            _ => {}
        }
        let m = Par::new(b);
        c.note(|| format!("block {bs} cut {cut} {:?}", m.b));
        c.visit_global(hash_of(&(&m.b, bs)));
        wide(c, &m, bs, if n > 300 { 7 } else { 1 }, DIRTS[(i % 2) as usize])
    });
    // excess beyond 2^16
    r.family("huge", bp::SHAPES * 2 * 2, move |i, c| {
        let mut d = Dec(i);
        let mirror = d.take(2) == 1;
        let bs = *d.pick(&[64usize, 512]);
        let b = bp::shape(d.0, 140_000);
        // mirrored: the excess is negative throughout
        let b = if mirror { b.complement() } else { b };
        let m = Par::new(b);
        c.note(|| format!("block {bs} mirrored {mirror} {:?}", m.b));
        c.visit_global(hash_of(&(&m.b, bs)));
        wide(c, &m, bs, 1009, DIRTS[(i % 2) as usize])
    });
    r.family("mega", 6 * 3, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[8usize, 64, 512]);
        let b = bp::shape(*d.pick(&[1u64, 2, 4, 5, 7, 9]), 600_000);
        let m = Par::new(b);
        c.note(|| format!("block {bs} {:?}", m.b));
        c.visit_global(hash_of(&(&m.b, bs)));
        wide(c, &m, bs, 4001, DIRTS[(i % 2) as usize])
    });
    // more than 2^32 parentheses, excess beyond 2^31 in both directions
    r.family("giga", 4, |i, c| {
        use mc::giga::{Giga, Run::*};
        use vers_vecs::BpTree;
        let _p = mc::giga::permit();
        let g = if i < 3 { Giga::tree(i) } else { Giga::new(&[(Zeros, (1 << 31) + 776), (Ones, 1 << 31), (Alt, 5000), (Zeros, 900)]) };
        c.note(|| format!("giga parentheses {i}"));
        c.visit(i);
        let t = BpTree::<512>::from_bit_vector(g.bv());
        for p in g.spots().into_iter().filter(|&p| p < g.len) {
            eq!(c, t.excess(p), g.p(p + 1), "excess({p})");
            for r in [-(1i64 << 31) - 900, -(1 << 31), -70_000, -3, -2, -1, 0, 1, 2, 3, 70_000, 1 << 31, (1 << 31) + 900] {
                eq!(c, t.fwd_search(p, r), g.fwd(p, r), "fwd_search({p}, {r})");
                eq!(c, t.bwd_search(p, r), g.bwd(p, r), "bwd_search({p}, {r})");
            }
            if g.get(p) {
                eq!(c, t.close(p), g.fwd(p, -1), "close({p})");
                eq!(c, t.enclose(p), g.bwd(p, -1), "enclose({p})");
            } else {
                eq!(c, t.open(p), g.bwd(p, -1), "open({p})");
                eq!(c, t.enclose(p), g.bwd(p, -2), "enclose({p}) of a closing parenthesis");
            }
        }
        for p in [g.len, g.len + 1, g.len + (1 << 32)] {
            eq!(c, (t.fwd_search(p, -1), t.bwd_search(p, -1), t.close(p)), (None, None, None), "past the end at {p}");
        }
        Ok(())
    });
    r.finish()
}
