//! C18: ancestor, level and subtree queries; robustness on unbalanced sequences.
use mc::bp::{self, Dyck, Model, Par, BLOCKS};
use mc::gen;
use mc::model::*;
use mc::*;

fn levels(c: &mut Ctx, b: &BM, m: &Model, bs: usize, dirt: Dirt, stride: usize) -> R {
    c.visit_global(hash_of(&(b, bs)));
    let t = bp::tree(bs, b.bv(dirt));
    let n = m.n();
    let height = m.levels.len();
    let all = n <= 40;
    for x in (0..n).step_by(stride) {
        let h = m.open[x];
        let d = m.depth[x] as usize;
        eq!(c, t.subtree_size(h), Some(m.size[x] as usize), "block size {bs}: subtree_size({h})");
        eq!(c, t.level_next(h), m.level_next(x), "block size {bs}: level_next({h})");
        eq!(c, t.level_prev(h), m.level_prev(x), "block size {bs}: level_prev({h})");
        // ancestors by level
        if all {
            for l in 0..=d + 3 {
                eq!(c, t.level_ancestor(h, l as u64), m.ancestor(x, l), "block size {bs}: level_ancestor({h}, {l})");
            }
        } else {
            for l in [0usize, 1, 2, 3, 7, 8, 9, 16, 17, 64, d / 2, d.saturating_sub(1), d, d + 1, d + 2] {
                eq!(c, t.level_ancestor(h, l as u64), m.ancestor(x, l), "block size {bs}: level_ancestor({h}, {l})");
            }
        }
        for l in [1 << 40, i64::MAX as u64] {
            eq!(c, t.level_ancestor(h, l), None, "block size {bs}: level_ancestor({h}, {l})");
        }
        // ancestor tests
        if all {
            for y in 0..n {
                let g = m.open[y];
                eq!(c, t.is_ancestor(h, g), Some(m.is_ancestor(x, y)), "block size {bs}: is_ancestor({h}, {g})");
            }
        } else {
            let s = m.size[x] as usize;
            let mut ys = vec![0, x, x.saturating_sub(1), x + 1, x + s - 1, x + s, x + s / 2, n - 1, n / 2];
            if let Some(p) = m.parent_id(x) {
                ys.push(p);
            }
            for y in ys {
                if y < n {
                    let g = m.open[y];
                    eq!(c, t.is_ancestor(h, g), Some(m.is_ancestor(x, y)), "block size {bs}: is_ancestor({h}, {g})");
                }
            }
        }
    }
    let mut ls: Vec<usize> = if height <= 400 { (0..height + 3).collect() } else { (0..height).step_by(37).collect() };
    ls.extend([height.saturating_sub(1), height, height + 1, height + 64]);
    for l in ls {
        // level 0 of a forest has no single root
        if l > 0 || n == 0 || m.is_tree() {
            eq!(c, t.level_leftmost(l as u64), m.leftmost(l), "block size {bs}: level_leftmost({l})");
            eq!(c, t.level_rightmost(l as u64), m.rightmost(l), "block size {bs}: level_rightmost({l})");
        }
    }
    for l in [1 << 40, i64::MAX as u64] {
        eq!(c, t.level_leftmost(l), None, "block size {bs}: level_leftmost({l})");
        eq!(c, t.level_rightmost(l), None, "block size {bs}: level_rightmost({l})");
    }
    Ok(())
}

/// every navigation query on every opening parenthesis of an arbitrary sequence: must return
fn anything(c: &mut Ctx, m: &Par, bs: usize, dirt: Dirt) -> R {
    c.visit_global(hash_of(&(&m.b, bs, 1u8)));
    let t = bp::tree(bs, m.b.bv(dirt));
    let opens: Vec<usize> = m.b.positions(true);
    let few = opens.len() > 20;
    let _ = (t.root(), t.is_empty());
    eq!(c, t.size(), opens.len(), "block size {bs}: size");
    for (k, &h) in opens.iter().enumerate() {
        eq!(c, t.node_index(h), k, "block size {bs}: node_index({h})");
        eq!(c, t.node_handle(k), h, "block size {bs}: node_handle({k})");
        let closed = m.fwd(h, -1);
        eq!(c, t.subtree_size(h).is_some(), closed.is_some(), "block size {bs}: subtree_size({h}) present");
        let _ = (t.parent(h), t.first_child(h), t.last_child(h), t.next_sibling(h), t.previous_sibling(h), t.is_leaf(h));
        // depth: documented to be zero after too many closing parentheses
        if m.p[h + 1] <= 1 {
            eq!(c, t.depth(h), 0, "block size {bs}: depth({h})");
        } else {
            let _ = t.depth(h);
        }
        let _ = (t.level_next(h), t.level_prev(h));
        for l in [0, 1, 2, 5, m.len() as u64, 1 << 40, i64::MAX as u64] {
            let _ = t.level_ancestor(h, l);
            c.tick(1);
        }
        for (j, &g) in opens.iter().enumerate() {
            if few && j != 0 && j != k && j + 1 != opens.len() {
                continue;
            }
            eq!(c, t.is_ancestor(h, g).is_some(), closed.is_some(), "block size {bs}: is_ancestor({h}, {g}) present");
        }
        c.tick(9);
    }
    for l in (0..m.len().min(40) as u64 + 3).chain([1 << 40, i64::MAX as u64]) {
        let _ = (t.level_leftmost(l), t.level_rightmost(l));
        c.tick(2);
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C18");
    let t = r.thorough;
    let dy: &'static Dyck = Box::leak(Box::new(Dyck::new(r.t(10, 11))));
    r.family("forests", dy.count, move |i, c| {
        let b = dy.get(i);
        let m = Model::new(&b.bools());
        c.note(|| format!("{b:?}"));
        for (k, &bs) in BLOCKS.iter().enumerate().take(if t { 17 } else { 15 }) {
            levels(c, &b, &m, bs, DIRTS[k % 2], 1)?;
        }
        Ok(())
    });
    let steps = r.t(4u32, 5u32);
    let ks = [2usize, 9, 33, 150];
    let bss = [[3usize, 8, 512], [4, 9, 17], [8, 31, 64], [16, 65, 512]];
    r.family("grammar", bp::grammar_count(steps) * 4, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(4) as usize;
        let b = bp::grammar(d.0, steps, ks[k]);
        let m = Model::new(&b.bools());
        c.note(|| format!("{b:?}"));
        let s = if b.len > 600 { 1 } else { 3 };
        for x in 0..s {
            levels(c, &b, &m, bss[k][(x + i as usize) % 3], DIRTS[(i % 2) as usize], 1)?;
        }
        Ok(())
    });
    let sizes: &[usize] = if t { &[1, 2, 3, 31, 33, 256, 257, 512, 2000, 6000] } else { &[1, 2, 3, 32, 256, 257, 1500] };
    let bs4 = [1usize, 4, 12, 16, 64, 100, 512, 1024];
    r.family("large", bp::SHAPES * sizes.len() as u64 * 8, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&bs4);
        let n = *d.pick(sizes);
        let b = bp::shape(d.0, n);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        levels(c, &b, &m, bs, DIRTS[(i % 2) as usize], 1)
    });
    // more than 2^16 nodes
    r.family("huge", bp::SHAPES * 3, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[16usize, 64, 512]);
        let b = bp::shape(d.0, 140_000);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        levels(c, &b, &m, bs, DIRTS[(i % 2) as usize], 11)
    });
    let n = r.t(11u32, 14u32);
    r.family("unbalanced", gen::strings_upto(n), move |i, c| {
        let m = Par::new(bp::string(i));
        c.note(|| format!("{:?}", m.b));
        for (k, &bs) in BLOCKS.iter().enumerate().take(if t { 17 } else { 15 }) {
            anything(c, &m, bs, DIRTS[k % 2])?;
        }
        Ok(())
    });
    let bl = r.t(3u32, 4u32);
    r.family("unbalanced-walls", bp::BRICKS.pow(bl) * 4 * 5, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[4usize, 9, 16, 64, 512]);
        let s = *d.pick(&[9usize, 33, 64, 300]);
        let m = Par::new(bp::wall(&mut d, bl, s));
        c.note(|| format!("block {bs} {:?}", m.b));
        anything(c, &m, bs, DIRTS[(i % 2) as usize])
    });
    r.family("mega", 6 * 3, move |i, c| {
        let mut d = Dec(i);
        let bs = *d.pick(&[8usize, 64, 512]);
        let b = bp::shape(*d.pick(&[1u64, 2, 4, 5, 7, 9]), 600_000);
        let m = Model::new(&b.bools());
        c.note(|| format!("block {bs} {b:?}"));
        levels(c, &b, &m, bs, DIRTS[(i % 2) as usize], 23)
    });
    // more than 2^32 parentheses, depths beyond 2^31
    r.family("giga", 3, |i, c| {
        use mc::giga::Giga;
        use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize};
        use vers_vecs::BpTree;
        let _p = mc::giga::permit();
        let g = Giga::tree(i);
        c.note(|| format!("giga tree {i}"));
        c.visit(i);
        let t = BpTree::<512>::from_bit_vector(g.bv());
        let nodes = g.nodes();
        // the last node in front of k with a given depth
        let before = |k: usize, depth: i64| g.prev_p(k, depth + 1).and_then(|j| g.bwd(j, -1));
        let mut top = 0;
        for (k, &h) in nodes.iter().enumerate() {
            let close = g.fwd(h, -1).unwrap();
            let depth = g.p(h);
            top = top.max(depth);
            eq!(c, t.subtree_size(h), Some((close - h + 1) / 2), "subtree_size({h})");
            eq!(c, t.level_next(h), g.next_p(close + 1, depth + 1).map(|k| k - 1), "level_next({h})");
            eq!(c, t.level_prev(h), before(h, depth), "level_prev({h})");
            for l in [0i64, 1, 2, 1000, 70_000, 1 << 31, depth / 2, depth - 1, depth, depth + 1, depth + (1 << 32)] {
                if l >= 0 {
                    let want = if l == 0 { Some(h) } else if l > depth { None } else { g.prev_p(h, depth - l) };
                    eq!(c, t.level_ancestor(h, l as u64), want, "level_ancestor({h}, {l})");
                }
            }
            for j in [0, k.saturating_sub(1), k, (k + 1).min(nodes.len() - 1), (k * 7 + 3) % nodes.len(), nodes.len() - 1] {
                let o = nodes[j];
                eq!(c, t.is_ancestor(h, o), Some(h <= o && o < close), "is_ancestor({h}, {o})");
            }
        }
        for l in [0i64, 1, 2, 3, 4, 5, 6, 1000, 89_000, 1 << 31, top - 1, top, top + 1, top + 2, 1 << 32] {
            eq!(c, t.level_leftmost(l as u64), g.next_p(0, l + 1).map(|k| k - 1), "level_leftmost({l})");
            eq!(c, t.level_rightmost(l as u64), before(g.len + 1, l), "level_rightmost({l})");
        }
        Ok(())
    });
    r.finish()
}
