//! C17: navigation in every ordered tree.
use mc::bp::{self, Dyck, Model, BLOCKS};
use mc::model::*;
use mc::*;

fn nav(c: &mut Ctx, b: &BM, m: &Model, bs: usize, dirt: Dirt, kids: bool) -> R {
    c.visit_global(hash_of(&(b, bs)));
    let t = bp::tree(bs, b.bv(dirt));
    eq!(c, t.size(), m.n(), "block size {bs}: size");
    eq!(c, t.is_empty(), m.n() == 0, "block size {bs}: is_empty");
    eq!(c, t.root(), (m.n() > 0).then_some(0), "block size {bs}: root");
    for n in 0..m.n() {
        let h = m.open[n];
        eq!(c, t.node_index(h), n, "block size {bs}: node_index({h})");
        eq!(c, t.node_handle(n), h, "block size {bs}: node_handle({n})");
        eq!(c, t.parent(h), m.parent(n), "block size {bs}: parent({h})");
        eq!(c, t.first_child(h), m.first(n), "block size {bs}: first_child({h})");
        eq!(c, t.last_child(h), m.last(n), "block size {bs}: last_child({h})");
        eq!(c, t.next_sibling(h), m.next(n), "block size {bs}: next_sibling({h})");
        eq!(c, t.previous_sibling(h), m.prev(n), "block size {bs}: previous_sibling({h})");
        eq!(c, t.is_leaf(h), m.kids[n].is_empty(), "block size {bs}: is_leaf({h})");
        eq!(c, t.depth(h), m.depth[n] as u64, "block size {bs}: depth({h})");
        if kids {
            let want: Vec<usize> = m.kids[n].iter().map(|&k| m.open[k as usize]).collect();
            let mut it = t.children(h);
            for w in &want {
                eq!(c, it.next(), Some(*w), "block size {bs}: children({h})");
            }
            eq!(c, it.next(), None, "block size {bs}: end of children({h})");
            eq!(c, it.next(), None, "block size {bs}: after the end of children({h})");
            let mut it = t.rev_children(h);
            for w in want.iter().rev() {
                eq!(c, it.next(), Some(*w), "block size {bs}: rev_children({h})");
            }
            eq!(c, it.next(), None, "block size {bs}: end of rev_children({h})");
            eq!(c, it.next(), None, "block size {bs}: after the end of rev_children({h})");
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C17");
    let t = r.thorough;
    let dy: &'static Dyck = Box::leak(Box::new(Dyck::new(r.t(10, 12))));
    r.family("forests", dy.count, move |i, c| {
        let b = dy.get(i);
        let m = Model::new(&b.bools());
        c.note(|| format!("{b:?}"));
        for (k, &bs) in BLOCKS.iter().enumerate().take(if t { 17 } else { 15 }) {
            nav(c, &b, &m, bs, DIRTS[k % 2], true)?;
        }
        Ok(())
    });
    let steps = r.t(4u32, 5u32);
    let ks = [2usize, 9, 33, 150];
    let bss = [[3usize, 8, 512], [4, 9, 17], [8, 31, 64], [16, 65, 512]];
    r.family("grammar", bp::grammar_count(steps) * 4, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(4) as usize;
        let b = bp::grammar(d.0, steps, ks[k]);
        let m = Model::new(&b.bools());
        c.note(|| format!("{b:?}"));
        let s = if b.len > 1500 { 1 } else { 3 };
        for x in 0..s {
            nav(c, &b, &m, bss[k][(x + i as usize) % 3], DIRTS[(i % 2) as usize], x == 0)?;
        }
        Ok(())
    });
    let sizes: &[usize] = if t { &[1, 2, 3, 31, 32, 33, 128, 255, 256, 257, 512, 2000, 30000] } else { &[1, 2, 3, 32, 128, 256, 257, 600, 4000, 20000] };
    let bs4 = [1usize, 4, 12, 16, 64, 100, 512, 1024];
    r.family("large", bp::SHAPES * sizes.len() as u64 * 8, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&bs4);
        let n = *d.pick(sizes);
        let b = bp::shape(d.0, n);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        nav(c, &b, &m, bs, DIRTS[(i % 2) as usize], true)
    });
    // more than 2^16 nodes
    r.family("huge", bp::SHAPES * 3, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[16usize, 64, 512]);
        let b = bp::shape(d.0, 140_000);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        nav(c, &b, &m, bs, DIRTS[(i % 2) as usize], true)
    });
    r.family("mega", 6 * 3, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[8usize, 64, 512]);
        let b = bp::shape(*d.pick(&[1u64, 2, 4, 5, 7, 9]), 600_000);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        nav(c, &b, &m, bs, DIRTS[(i % 2) as usize], true)
    });
    // more than 2^32 parentheses
    r.family("giga", 3, |i, c| {
        use mc::giga::Giga;
        use vers_vecs::trees::Tree;
        use vers_vecs::BpTree;
        let _p = mc::giga::permit();
        let g = Giga::tree(i);
        c.note(|| format!("giga tree {i}"));
        c.visit(i);
        let t = BpTree::<512>::from_bit_vector(g.bv());
        eq!(c, t.size(), g.len / 2, "size");
        eq!(c, t.root(), Some(0), "root");
        for h in g.nodes() {
            let close = g.fwd(h, -1).unwrap();
            let n = g.rank1(h);
            eq!(c, t.node_index(h), n, "node_index({h})");
            eq!(c, t.node_handle(n), h, "node_handle({n})");
            eq!(c, t.depth(h), g.p(h) as u64, "depth({h})");
            eq!(c, t.is_leaf(h), close == h + 1, "is_leaf({h})");
            eq!(c, t.parent(h), g.bwd(h, -1), "parent({h})");
            eq!(c, t.first_child(h), (close > h + 1).then_some(h + 1), "first_child({h})");
            let last = (close > h + 1).then(|| g.bwd(close - 1, -1).unwrap());
            eq!(c, t.last_child(h), last, "last_child({h})");
            eq!(c, t.next_sibling(h), (close + 1 < g.len && g.get(close + 1)).then_some(close + 1), "next_sibling({h})");
            let prev = (h > 0 && !g.get(h - 1)).then(|| g.bwd(h - 1, -1).unwrap());
            eq!(c, t.previous_sibling(h), prev, "previous_sibling({h})");
            let mut it = t.children(h);
            eq!(c, it.next(), (close > h + 1).then_some(h + 1), "first of children({h})");
            let mut it = t.rev_children(h);
            eq!(c, it.next(), last, "first of rev_children({h})");
        }
        Ok(())
    });
    r.finish()
}
