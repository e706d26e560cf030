//! C19: construction from walks and bit vectors, traversals, conversion back.
use mc::bp::{self, AnyBp, Dyck, Model, BLOCKS};
use mc::gen;
use mc::model::*;
use mc::*;

fn same(c: &mut Ctx, it: Box<dyn Iterator<Item = usize> + '_>, want: impl Iterator<Item = usize>, what: &dyn Fn() -> String) -> R {
    let mut it = it;
    for (k, w) in want.enumerate() {
        eq!(c, it.next(), Some(w), "{}: item {k}", what());
    }
    for _ in 0..2 {
        eq!(c, it.next(), None, "{}: after the end", what());
    }
    Ok(())
}
fn back(c: &mut Ctx, t: &dyn AnyBp, b: &BM, what: &str) -> R {
    let bv = t.to_bv();
    eq!(c, bv.len(), b.len, "{what}: length of BitVec::from(tree)");
    for i in 0..b.len {
        eq!(c, bv.get(i), Some(b.get(i) as u64), "{what}: bit {i} of BitVec::from(tree)");
    }
    if b.len <= 12 || b.len > 300 {
        editable(c, &bv, b, what)?;
    }
    let rs = t.to_rs();
    eq!(c, rs.len(), b.len, "{what}: length of into_parentheses_vec()");
    let rt = t.to_rs_from();
    eq!(c, rt.len(), b.len, "{what}: length of RsVec::from(tree)");
    for i in 0..b.len {
        eq!(c, rs.get(i), Some(b.get(i) as u64), "{what}: bit {i} of into_parentheses_vec()");
        eq!(c, rt.get(i), Some(b.get(i) as u64), "{what}: bit {i} of RsVec::from(tree)");
    }
    Ok(())
}
fn pre(c: &mut Ctx, t: &dyn AnyBp, b: &BM, what: &str) -> R {
    let opens = b.positions(true);
    same(c, t.iter(), opens.iter().copied(), &|| format!("{what}: iter"))?;
    same(c, t.dfs_iter(), opens.iter().copied(), &|| format!("{what}: dfs_iter"))?;
    let v = t.owned_iter();
    ck!(c, v == opens, "{what}: into_iter: got {v:?}");
    let mut v = t.owned_rev();
    v.reverse();
    ck!(c, v == opens, "{what}: into_iter().rev(): got {v:?} (reversed)");
    eq!(c, t.size(), opens.len(), "{what}: size");
    Ok(())
}
fn traverse(c: &mut Ctx, t: &dyn AnyBp, b: &BM, m: &Model, step: usize, what: &str) -> R {
    pre(c, t, b, what)?;
    same(c, t.dfs_post_iter(), m.post.iter().map(|&n| m.open[n as usize]), &|| format!("{what}: dfs_post_iter"))?;
    // position of each node in post-order
    let mut pp = vec![0usize; m.n()];
    for (k, &n) in m.post.iter().enumerate() {
        pp[n as usize] = k;
    }
    for n in (0..m.n()).step_by(step) {
        let (h, s) = (m.open[n], m.size[n] as usize);
        same(c, t.subtree_iter(h), m.open[n..n + s].iter().copied(), &|| format!("{what}: subtree_iter({h})"))?;
        let e = pp[n] + 1;
        let want = m.post[e - s..e].iter().map(|&x| m.open[x as usize]);
        same(c, t.subtree_post_iter(h), want, &|| format!("{what}: subtree_post_iter({h})"))?;
    }
    back(c, t, b, what)
}

fn main() {
    let mut r = Runner::new("C19");
    let t = r.thorough;
    // every builder history
    let n = r.t(12u32, 16u32);
    r.family("walks", gen::strings_upto(n), move |i, c| {
        let b = bp::string(i);
        let walk = b.bools();
        let m = bp::Par::new(b.clone());
        let e = *m.p.last().unwrap();
        c.note(|| format!("{b:?}"));
        for (k, bs) in [1usize, 4, 8, 9, 512].into_iter().enumerate() {
            c.visit_global(hash_of(&(&b, bs)));
            let how = (i + k as u64) % 3;
            match bp::builder(bs, &walk, how) {
                Err(x) => {
                    // a walk that ends at excess 0 but closes nodes it never entered may be refused or not
                    ck!(c, !m.balanced(), "block size {bs}: a complete walk was rejected with {x}");
                    eq!(c, x, e, "block size {bs}: excess reported for an incomplete walk");
                }
                Ok(tree) => {
                    ck!(c, e == 0, "block size {bs}: a walk with excess {e} was accepted");
                    if m.balanced() {
                        back(c, &*tree, &b, "built tree")?;
                        pre(c, &*tree, &b, "built tree")?;
                    }
                }
            }
            // directly from bits: pre-order and conversion work for every sequence
            let d = DIRTS[k % 2];
            let t1 = if how == 0 { bp::tree(bs, b.bv(d)) } else { bp::tree_from(bs, b.bv(d)) };
            pre(c, &*t1, &b, "from_bit_vector")?;
            back(c, &*t1, &b, "from_bit_vector")?;
        }
        Ok(())
    });
    let dy: &'static Dyck = Box::leak(Box::new(Dyck::new(r.t(10, 11))));
    r.family("forests", dy.count, move |i, c| {
        let b = dy.get(i);
        let m = Model::new(&b.bools());
        c.note(|| format!("{b:?}"));
        let walk = b.bools();
        for (k, &bs) in BLOCKS.iter().enumerate().take(if t { 17 } else { 12 }) {
            c.visit_global(hash_of(&(&b, bs)));
            let tree = match bp::builder(bs, &walk, k as u64 % 3) {
                Ok(x) => x,
                Err(e) => return Err(format!("block size {bs}: a complete walk was rejected with {e}")),
            };
            traverse(c, &*tree, &b, &m, 1, "built tree")?;
        }
        Ok(())
    });
    let steps = r.t(4u32, 5u32);
    let ks = [2usize, 9, 33, 150];
    let bss = [[3usize, 8, 512], [4, 9, 17], [8, 31, 64], [16, 65, 512]];
    r.family("grammar", bp::grammar_count(steps) * 4, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(4) as usize;
        let b = bp::grammar(d.0, steps, ks[k]);
        let m = Model::new(&b.bools());
        c.note(|| format!("{b:?}"));
        let bs = bss[k][i as usize % 3];
        c.visit_global(hash_of(&(&b, bs)));
        let tree = match bp::builder(bs, &b.bools(), i % 3) {
            Ok(x) => x,
            Err(e) => return Err(format!("block size {bs}: a complete walk was rejected with {e}")),
        };
        let step = if m.n() > 60 { 1 + m.n() / 25 } else { 1 };
        traverse(c, &*tree, &b, &m, step, "built tree")
    });
    let sizes: &[usize] = if t { &[1, 2, 3, 31, 33, 256, 257, 512, 2000, 5000, 30000] } else { &[1, 2, 3, 32, 256, 257, 600, 5000, 20000] };
    let bs4 = [1usize, 4, 12, 16, 64, 100, 512, 1024];
    r.family("large", bp::SHAPES * sizes.len() as u64 * 8, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&bs4);
        let n = *d.pick(sizes);
        let b = bp::shape(d.0, n);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        c.visit_global(hash_of(&(&b, bs)));
        let walk = b.bools();
        for how in 0..3 {
            let tree = match bp::builder(bs, &walk, how) {
                Ok(x) => x,
                Err(e) => return Err(format!("block size {bs}: a complete walk was rejected with {e}")),
            };
            if how == i % 3 {
                traverse(c, &*tree, &b, &m, 1 + n / 60, "built tree")?;
            } else {
                back(c, &*tree, &b, "built tree")?;
            }
        }
        // incomplete walks
        for cut in [1usize, 2, n / 2, n] {
            let w = &walk[..walk.len() - cut];
            let e = w.iter().map(|&x| if x { 1 } else { -1i64 }).sum::<i64>();
            let got = bp::builder(bs, w, cut as u64 % 3).err();
            eq!(c, got, (e != 0).then_some(e), "block size {bs}: walk without its last {cut} steps");
        }
        Ok(())
    });
    // more than 2^16 nodes
    r.family("huge", bp::SHAPES * 2, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[64usize, 512]);
        let n = 140_000;
        let b = bp::shape(d.0, n);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        c.visit_global(hash_of(&(&b, bs)));
        let walk = b.bools();
        let tree = match bp::builder(bs, &walk, i % 3) {
            Ok(x) => x,
            Err(e) => return Err(format!("block size {bs}: a complete walk was rejected with {e}")),
        };
        traverse(c, &*tree, &b, &m, 9001, "built tree")?;
        for cut in [n / 2, n] {
            let w = &walk[..walk.len() - cut];
            let e = w.iter().map(|&x| if x { 1 } else { -1i64 }).sum::<i64>();
            let got = bp::builder(bs, w, cut as u64 % 3).err();
            eq!(c, got, (e != 0).then_some(e), "block size {bs}: walk without its last {cut} steps");
        }
        Ok(())
    });
    r.family("mega", 6 * 3, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[8usize, 64, 512]);
        let b = bp::shape(*d.pick(&[1u64, 2, 4, 5, 7, 9]), 600_000);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        c.visit_global(hash_of(&(&b, bs)));
        let tree = match bp::builder(bs, &b.bools(), i % 3) {
            Ok(x) => x,
            Err(e) => return Err(format!("block size {bs}: a complete walk was rejected with {e}")),
        };
        traverse(c, &*tree, &b, &m, 70_001, "built tree")
    });
    r.finish()
}
