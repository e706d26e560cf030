//! C25: query time. Instructions of every query, counted by single-stepping, on structures of growing size and
//! adversarial distribution; the limit grows with the logarithm of the size (or not at all), never with the size.
use mc::bp;
use mc::model::{Dirt, BM};
#[cfg(not(feature = "cov"))]
use mc::steps::{init, within};
#[cfg(feature = "cov")]
use mc::work::init;
use mc::{ck, eq, Ctx, Dec, Runner, R};
use vers_vecs::trees::{LevelTree, SubtreeSize, IsAncestor, Tree};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

/// Limits in instructions: at least six times what the unchanged library needs at most, in either build. A scan
/// over anything that grows with the input exceeds them by far at the larger sizes.
const RANK: u64 = 2000;
const GET: u64 = 600;
const RMQ: u64 = 10_000;
/// per doubling of the size
const SELECT: u64 = 300;
const PRED: u64 = 1600;
const TREE: u64 = 1600;
/// per bit of a tree block (a block is scanned in small chunks, at both ends of a search)
const BLOCK: u64 = 80;
/// per bit of the symbol
const WRANK: u64 = 4000;
const WSELECT: u64 = 8000;

/// In an instrumented build the limits count basic blocks, each of several instructions.
#[cfg(feature = "cov")]
fn within<T>(c: &mut Ctx, limit: u64, what: &'static str, arg: impl std::fmt::Display, f: impl FnOnce() -> T) -> Result<T, String> {
    Ok(mc::work::within(c, limit / 3, what, arg, f))
}
fn lg(n: usize) -> u64 {
    64 - (n as u64).leading_zeros() as u64 + 4
}
fn spread(n: usize, m: usize, from: usize) -> BM {
    // m ones evenly over n bits, from a start position
    let mut b = BM::zeros(n);
    let m = m.min(n - from);
    for i in 0..m {
        b.set(from + ((n - from) as u128 * i as u128 / m as u128) as usize, true);
    }
    b
}
const DISTS: u64 = 12;
fn dist(kind: u64, n: usize) -> BM {
    match kind {
        0 => spread(n, 1, n - 1),
        1 => spread(n, n / 2, 0),
        2 => spread(n, 100, 0),
        3 => spread(n, 8000, 0),
        4 => spread(n, 8192, 0),
        5 => spread(n, 8193, 0),
        6 => spread(n, 20_000, 0),
        7 | 8 | 9 => {
            // a cluster at the start, the rest far away
            let c = [8191usize, 8192, 12_000][kind as usize - 7].min(n / 4);
            let mut b = spread(n, 3000, n / 2);
            for i in 0..c {
                b.set(i, true);
            }
            b
        }
        10 => spread(n, 4000, n - n / 16),
        _ => {
            let mut b = spread(n, 5000, n - n / 64);
            for i in 0..(n / 64).min(5000) {
                b.set(i, true);
            }
            b
        }
    }
}
fn few(n: usize) -> Vec<usize> {
    let mut v = vec![];
    if n == 0 {
        return v;
    }
    for q in [0, 1, n / 5, n / 2, n - n / 4, n - n / 100 - 1, n - 1, 8190, 8191, 8192] {
        if q < n && !v.contains(&q) {
            v.push(q);
        }
    }
    if cfg!(feature = "cov") {
        // counting is cheap there: every position, or 20 000 of them
        v.extend((0..n).step_by(n / 20_000 + 1));
    }
    v
}
fn pairs(n: usize) -> Vec<usize> {
    let mut v = few(n);
    if cfg!(feature = "cov") {
        v.truncate(10);
        v.extend((0..n).step_by(n / 150 + 1));
        v.sort();
        v.dedup();
    }
    v
}
fn ranks(c: &mut Ctx, b: &BM) -> R {
    let rs = RsVec::from_bit_vec(b.bv(Dirt::Clean));
    let l = lg(b.len);
    for p in few(b.len) {
        let r = within(c, RANK, "RsVec::rank1", p, || rs.rank1(p))?;
        let z = within(c, RANK, "RsVec::rank0", p, || rs.rank0(p))?;
        ck!(c, r + z == p, "rank0 + rank1 at {p}");
        within(c, GET, "RsVec::get", p, || rs.get(p))?;
        within(c, GET, "RsVec::get_bits", p, || rs.get_bits(p, 1))?;
    }
    let ones = rs.rank1(b.len);
    {
        let mut i = rs.clone().into_iter1();
        within(c, 2 * SELECT * l, "into_iter1.nth", ones / 2, || i.nth(ones / 2))?;
        within(c, 2 * SELECT * l, "into_iter1.nth_back", ones / 3, || i.nth_back(ones / 3))?;
        let mut i = rs.clone().into_iter0();
        within(c, 2 * SELECT * l, "into_iter0.nth", (b.len - ones) / 2, || i.nth((b.len - ones) / 2))?;
        within(c, 2 * SELECT * l, "into_iter0.nth_back", (b.len - ones) / 3, || i.nth_back((b.len - ones) / 3))?;
    }
    let bv = b.bv(Dirt::Clean);
    for p in few(b.len) {
        let (mut i, mut j) = (bv.iter(), rs.iter());
        eq!(c, within(c, GET, "BitVec::iter().nth()", p, || i.nth(p))?, rs.get(p), "BitVec::iter().nth({p})");
        eq!(c, within(c, GET, "RsVec::iter().nth()", p, || j.nth(p))?, rs.get(p), "RsVec::iter().nth({p})");
        within(c, GET, "RsVec::iter().nth_back()", p, || j.nth_back((b.len - p) / 2))?;
    }
    for (zero, n) in [(false, ones), (true, b.len - ones)] {
        for k in few(n) {
            let p = if zero {
                within(c, SELECT * l, "RsVec::select0", k, || rs.select0(k))?
            } else {
                within(c, SELECT * l, "RsVec::select1", k, || rs.select1(k))?
            };
            ck!(c, p < b.len && b.get(p) != zero, "selected bit {k}");
            // skipping in the iterators
            if zero {
                let mut i = rs.iter0();
                eq!(c, within(c, 2 * SELECT * l, "iter0.nth", k, || i.nth(k))?, Some(p), "iter0.nth({k})");
                within(c, 2 * SELECT * l, "iter0.next", k, || i.next())?;
                let mut i = rs.iter0();
                eq!(c, within(c, 2 * SELECT * l, "iter0.nth_back", k, || i.nth_back(n - 1 - k))?, Some(p), "iter0.nth_back({k})");
                within(c, 2 * SELECT * l, "iter0.next_back", k, || i.next_back())?;
            } else {
                let mut i = rs.iter1();
                eq!(c, within(c, 2 * SELECT * l, "iter1.nth", k, || i.nth(k))?, Some(p), "iter1.nth({k})");
                within(c, 2 * SELECT * l, "iter1.next", k, || i.next())?;
                let mut i = rs.iter1();
                eq!(c, within(c, 2 * SELECT * l, "iter1.nth_back", k, || i.nth_back(n - 1 - k))?, Some(p), "iter1.nth_back({k})");
                within(c, 2 * SELECT * l, "iter1.next_back", k, || i.next_back())?;
            }
        }
    }
    Ok(())
}
const SEQS: u64 = 8;
fn seq(kind: u64, n: usize) -> Vec<u64> {
    let far = 1u64 << 50;
    let m = n as u64;
    let mut v: Vec<u64> = match kind {
        0 => (0..m).map(|x| x * 1000).collect(),
        // everything in one bucket, one far value
        1 => (0..m - 1).chain([far]).collect(),
        // the same value over and over
        2 => (0..m - 1).map(|_| 5).chain([far]).collect(),
        // duplicates in the middle of a bucket
        3 => (0..m - 1).map(|x| if x < m / 8 { x } else if x < m - m / 8 { m } else { m + x }).chain([far]).collect(),
        // pairs
        4 => (0..m - 1).map(|x| x / 2 * 3).chain([far]).collect(),
        // two clusters
        5 => (0..m).map(|x| if x < m / 2 { x * 7 } else { far + x * 3 }).collect(),
        // the values sit at the upper end of the universe
        6 => (0..m).map(|x| if x == 0 { 0 } else { far - 2 * m + x }).collect(),
        _ => (0..m).map(|x| x * x).collect(),
    };
    v.sort();
    v
}
fn eliasfano(c: &mut Ctx, v: &[u64]) -> R {
    let e = EliasFanoVec::from_slice(v);
    let l = lg(v.len());
    for i in few(v.len()) {
        eq!(c, within(c, SELECT * l + GET, "EliasFano::get", i, || e.get(i))?, Some(v[i]), "get({i})");
        let d = v[i] - if i > 0 { v[i - 1] } else { 0 };
        eq!(c, within(c, 2 * SELECT * l + GET, "EliasFano::delta", i, || e.delta(i))?, Some(d), "delta({i})");
        for x in [v[i].saturating_sub(1), v[i], v[i] + 1, v[i] + 100_000] {
            let p = v.partition_point(|&y| y <= x);
            let s = v.partition_point(|&y| y < x);
            eq!(c, within(c, PRED * l, "EliasFano::predecessor", x, || e.predecessor(x))?, p.checked_sub(1).map(|p| v[p]), "predecessor({x})");
            eq!(c, within(c, PRED * l, "EliasFano::successor", x, || e.successor(x))?, v.get(s).copied(), "successor({x})");
            eq!(c, within(c, PRED * l, "EliasFano::rank", x, || e.rank(x))?, s as u64, "rank({x})");
        }
    }
    let mut it = e.iter();
    within(c, GET + 2 * SELECT * l, "EliasFano::iter().max()", "", || it.clone().max())?;
    within(c, GET + 2 * SELECT * l, "EliasFano::iter().min()", "", || it.clone().min())?;
    within(c, GET + 2 * SELECT * l, "EliasFano::iter().nth()", "", || it.nth(v.len() / 2))?;
    within(c, GET + 2 * SELECT * l, "EliasFano::iter().next()", "", || it.next())?;
    for i in few(v.len()) {
        let mut it = e.iter();
        eq!(c, within(c, GET + 2 * SELECT * l, "EliasFano::iter().nth()", i, || it.nth(i))?, Some(v[i]), "iter().nth({i})");
        within(c, GET + 2 * SELECT * l, "EliasFano::iter().next()", i, || it.next())?;
        let mut it = e.iter();
        let want = Some(v[v.len() - 1 - i]);
        eq!(c, within(c, GET + 2 * SELECT * l, "EliasFano::iter().nth_back()", i, || it.nth_back(i))?, want, "iter().nth_back({i})");
        within(c, GET + 2 * SELECT * l, "EliasFano::iter().next_back()", i, || it.next_back())?;
    }
    let mut it = e.clone().into_iter();
    within(c, GET + 2 * SELECT * l, "EliasFano::into_iter().nth()", "", || it.nth(v.len() / 2))?;
    within(c, GET + 2 * SELECT * l, "EliasFano::into_iter().nth_back()", "", || it.nth_back(v.len() / 3))?;
    Ok(())
}
fn sparse(c: &mut Ctx, v: &[u64]) -> R {
    let mut v = v.to_vec();
    v.dedup();
    let len = v[v.len() - 1] + 1000;
    let s = SparseRSVec::new(&v, len);
    let l = lg(v.len());
    for i in few(v.len()) {
        eq!(c, within(c, SELECT * l + GET, "Sparse::select1", i, || s.select1(i))?, v[i], "select1({i})");
        for x in [v[i].saturating_sub(1), v[i], v[i] + 1] {
            let r = v.partition_point(|&y| y < x);
            eq!(c, within(c, PRED * l, "Sparse::is_set", x, || s.is_set(x))?, Some(v.get(r) == Some(&x)), "is_set({x})");
            eq!(c, within(c, PRED * l, "Sparse::rank1", x, || s.rank1(x))?, r as u64, "rank1({x})");
            eq!(c, within(c, PRED * l, "Sparse::rank0", x, || s.rank0(x))?, x - r as u64, "rank0({x})");
        }
    }
    Ok(())
}
fn rmq(c: &mut Ctx, kind: u64, n: usize) -> R {
    let v: Vec<u64> = (0..n as u64)
        .map(|x| match kind {
            0 => x,
            1 => n as u64 - x,
            2 => 7,
            3 => x ^ (x >> 3) ^ 0x55,
            _ => if x == n as u64 / 3 { 0 } else { 1 + x % 2 },
        })
        .collect();
    let (f, b) = (FastRmq::from_vec(v.clone()), BinaryRmq::from_vec(v.clone()));
    for i in pairs(n) {
        for j in pairs(n) {
            if i <= j {
                let x = within(c, RMQ, "FastRmq::range_min", format!("{i}, {j}"), || f.range_min(i, j))?;
                let y = within(c, RMQ, "BinaryRmq::range_min", format!("{i}, {j}"), || b.range_min(i, j))?;
                ck!(c, x >= i && x <= j && y >= i && y <= j && v[x] == v[y], "range_min({i}, {j})");
                within(c, RMQ, "FastRmq::range_min_with_range", format!("{i}..={j}"), || f.range_min_with_range(i..=j))?;
                within(c, RMQ, "BinaryRmq::range_min_with_range", format!("{i}..={j}"), || b.range_min_with_range(i..=j))?;
            }
        }
    }
    Ok(())
}
fn wavelet(c: &mut Ctx, kind: u64, k: u16, n: usize) -> R {
    let top = u64::MAX >> (64 - k);
    let v: Vec<u64> = (0..n as u64)
        .map(|x| match kind {
            // one rare symbol, everything else equal
            0 => if x % 20_011 == 7 { top } else { 0 },
            1 => x.wrapping_mul(0x9e37_79b9_7f4a_7c15) & top,
            2 => if x < n as u64 / 2 { top / 2 } else { top / 2 + 1 },
            // a rare symbol only at the end
            _ => if x + 50 > n as u64 { 1 } else { top },
        })
        .collect();
    let w = if kind % 2 == 0 || k > 12 { WaveletMatrix::from_slice(&v, k) } else { WaveletMatrix::from_slice_pc(&v, k) };
    let (kr, ks) = (k as u64 * WRANK, k as u64 * (WSELECT + SELECT * lg(n)));
    let mut ends = vec![0, 1, n / 5, n / 2, n - 45, n - 1];
    if cfg!(feature = "cov") {
        ends.extend((0..n).step_by(n / 40 + 1));
        ends.sort();
        ends.dedup();
    }
    for &i in &ends {
        let x = v[i];
        let sym = { let mut b = BitVec::new(); b.append_bits(x, k as usize); b };
        eq!(c, within(c, kr, "Wavelet::get_u64", i, || w.get_u64(i))?, Some(x), "get_u64({i})");
        within(c, kr, "Wavelet::get_value", i, || w.get_value(i))?;
        within(c, kr, "Wavelet::rank_u64", i, || w.rank_u64(i, x))?;
        within(c, kr, "Wavelet::rank", i, || w.rank(i, &sym))?;
        within(c, kr, "Wavelet::rank_offset_u64", i, || w.rank_offset_u64(i / 2, i, x))?;
        within(c, kr, "Wavelet::get_sorted_u64", i, || w.get_sorted_u64(i))?;
        within(c, kr, "Wavelet::get_sorted", i, || w.get_sorted(i))?;
        within(c, kr, "Wavelet::iter_u64().nth()", i, || w.iter_u64().map(|mut it| it.nth(i)))?;
        within(c, kr, "Wavelet::iter_sorted_u64().nth()", i, || w.iter_sorted_u64().map(|mut it| it.nth(i)))?;
        let r = w.rank_u64(i, x).unwrap_or(0);
        eq!(c, within(c, ks, "Wavelet::select_u64", i, || w.select_u64(r, x))?, Some(i), "select_u64({r}, {x})");
        within(c, ks, "Wavelet::select", i, || w.select(r, &sym))?;
        within(c, kr, "Wavelet::rank_offset", i, || w.rank_offset(i / 2, i, &sym))?;
        within(c, ks, "Wavelet::select_offset", i, || w.select_offset(i / 2, 0, &sym))?;
        within(c, ks, "Wavelet::select_offset_u64", i, || w.select_offset_u64(i / 2, 0, x))?;
        for &j in &ends {
            if i >= j {
                continue;
            }
            let q = i..j;
            within(c, kr, "Wavelet::rank_range_u64", format!("{q:?}"), || w.rank_range_u64(q.clone(), x))?;
            within(c, kr, "Wavelet::quantile_u64", format!("{q:?}"), || w.quantile_u64(q.clone(), (j - i) / 3))?;
            within(c, kr, "Wavelet::range_min_u64", format!("{q:?}"), || w.range_min_u64(q.clone()))?;
            within(c, kr, "Wavelet::range_max_u64", format!("{q:?}"), || w.range_max_u64(q.clone()))?;
            within(c, kr, "Wavelet::range_median_u64", format!("{q:?}"), || w.range_median_u64(q.clone()))?;
            for y in [0, x, x.saturating_sub(1), top / 2, top] {
                within(c, 2 * kr, "Wavelet::predecessor_u64", format!("{q:?}, {y}"), || w.predecessor_u64(q.clone(), y))?;
                within(c, 2 * kr, "Wavelet::successor_u64", format!("{q:?}, {y}"), || w.successor_u64(q.clone(), y))?;
            }
            within(c, kr, "Wavelet::range_min", format!("{q:?}"), || w.range_min(q.clone()))?;
            within(c, kr, "Wavelet::range_max", format!("{q:?}"), || w.range_max(q.clone()))?;
            within(c, kr, "Wavelet::range_median", format!("{q:?}"), || w.range_median(q.clone()))?;
            within(c, kr, "Wavelet::rank_range", format!("{q:?}"), || w.rank_range(q.clone(), &sym))?;
            within(c, kr, "Wavelet::quantile", format!("{q:?}"), || w.quantile(q.clone(), (j - i) / 3))?;
            within(c, 2 * kr, "Wavelet::predecessor", format!("{q:?}"), || w.predecessor(q.clone(), &sym))?;
            within(c, 2 * kr, "Wavelet::successor", format!("{q:?}"), || w.successor(q.clone(), &sym))?;
        }
    }
    Ok(())
}
fn tree<const B: usize>(c: &mut Ctx, b: &BM) -> R {
    let n = b.len / 2;
    let t = BpTree::<B>::from_bit_vector(b.bv(Dirt::Clean));
    let l = TREE * lg(b.len) + BLOCK * B as u64;
    let root = t.root().unwrap();
    within(c, l, "BpTree::size", "", || t.size())?;
    let depth_of = |x: usize| t.depth(x);
    let mut deepest = 0;
    for i in few(n).into_iter().step_by(if c.thorough { 1 } else { 2 }) {
        let x = within(c, l, "BpTree::node_handle", i, || t.node_handle(i))?;
        eq!(c, within(c, l, "BpTree::node_index", i, || t.node_index(x))?, i, "node_index");
        within(c, l, "BpTree::is_leaf", x, || t.is_leaf(x))?;
        let d = within(c, l, "BpTree::depth", x, || t.depth(x))?;
        deepest = deepest.max(depth_of(x));
        within(c, l, "BpTree::excess", x, || t.excess(x))?;
        let e = within(c, l, "BpTree::close", x, || t.close(x))?;
        if let Some(e) = e {
            eq!(c, within(c, l, "BpTree::open", e, || t.open(e))?, Some(x), "open({e})");
        }
        within(c, l, "BpTree::enclose", x, || t.enclose(x))?;
        within(c, l, "BpTree::parent", x, || t.parent(x))?;
        within(c, l, "BpTree::first_child", x, || t.first_child(x))?;
        within(c, l, "BpTree::last_child", x, || t.last_child(x))?;
        within(c, l, "BpTree::next_sibling", x, || t.next_sibling(x))?;
        within(c, l, "BpTree::previous_sibling", x, || t.previous_sibling(x))?;
        within(c, l, "BpTree::subtree_size", x, || t.subtree_size(x))?;
        within(c, l, "BpTree::is_ancestor", x, || t.is_ancestor(root, x))?;
        within(c, l, "BpTree::is_ancestor", x, || t.is_ancestor(x, root))?;
        for k in [0, d / 2, d.saturating_sub(1)] {
            within(c, l, "BpTree::level_ancestor", format!("{x}, {k}"), || t.level_ancestor(x, k))?;
        }
        within(c, l, "BpTree::level_next", x, || t.level_next(x))?;
        within(c, l, "BpTree::level_prev", x, || t.level_prev(x))?;
        for r in [1i64, -(d as i64), 1000, n as i64] {
            within(c, l, "BpTree::fwd_search", format!("{x}, {r}"), || t.fwd_search(x, r))?;
            within(c, l, "BpTree::bwd_search", format!("{x}, {r}"), || t.bwd_search(x, r))?;
        }
    }
    for k in [0, 1, 2, deepest / 2, deepest, deepest + 1] {
        within(c, l, "BpTree::level_leftmost", k, || t.level_leftmost(k))?;
        within(c, l, "BpTree::level_rightmost", k, || t.level_rightmost(k))?;
    }
    // one step of a traversal
    let mut i = t.children(root);
    within(c, l, "BpTree::children().next()", "", || i.next())?;
    within(c, l, "BpTree::children().next()", "", || i.next())?;
    let mut i = t.rev_children(root);
    within(c, l, "BpTree::rev_children().next()", "", || i.next())?;
    within(c, l, "BpTree::rev_children().next()", "", || i.next())?;
    Ok(())
}
fn main() {
    init();
    let mut r = Runner::new("C25");
    let sizes: &'static [usize] = r.t(&[20_000, 1 << 20, (1 << 26) + 77], &[9000, 20_000, 70_000, 300_000, 1 << 20, (1 << 23) + 1, (1 << 26) + 77, 1 << 28]);
    r.family("rankselect", DISTS * 2 * sizes.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = sizes[sizes.len() - 1 - d.take(sizes.len() as u64) as usize];
        let comp = d.take(2) == 1;
        let k = d.0;
        let b = dist(k, n);
        let b = if comp { b.complement() } else { b };
        c.note(|| format!("{n} bits, distribution {k}, complement {comp}"));
        c.visit(i);
        ranks(c, &b)
    });
    let lens: &'static [usize] = r.t(&[300, 20_000, 1 << 20], &[20, 300, 3000, 20_000, 200_000, 1 << 20, 1 << 22]);
    r.family("eliasfano", SEQS * 2 * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = lens[lens.len() - 1 - d.take(lens.len() as u64) as usize];
        let s = d.take(2) == 1;
        let k = d.0;
        let v = seq(k, n);
        c.note(|| format!("{n} values, sequence {k}, sparse vector {s}"));
        c.visit(i);
        if s {
            sparse(c, &v)
        } else {
            eliasfano(c, &v)
        }
    });
    let lens: &'static [usize] = r.t(&[300, 3000, 1 << 18], &[20, 300, 3000, 20_000, 200_000, 1 << 20]);
    r.family("rmq", 5 * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(lens);
        let k = d.0;
        c.note(|| format!("{n} values of kind {k}"));
        c.visit(i);
        rmq(c, k, n)
    });
    let lens: &'static [usize] = r.t(&[300, 1 << 17], &[300, 20_000, 1 << 17, 1 << 21]);
    r.family("wavelet", 4 * 3 * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = lens[lens.len() - 1 - d.take(lens.len() as u64) as usize];
        let w = *d.pick(&[1u16, 4, 9]);
        let k = d.0;
        c.note(|| format!("{n} symbols of {w} bits, kind {k}"));
        c.visit(i);
        wavelet(c, k, w, n)
    });
    let lens: &'static [usize] = r.t(&[1500, 1 << 20], &[1500, 30_000, 300_000, 1 << 20, 1 << 23]);
    r.family("trees", bp::SHAPES * r.t(2, 3) * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = lens[lens.len() - 1 - d.take(lens.len() as u64) as usize];
        let bs = d.take(if c.thorough { 3 } else { 2 });
        let k = d.0;
        c.note(|| format!("shape {k} of {n} nodes, block size {}", [512, 64, 2048][bs as usize]));
        c.visit(i);
        let b = bp::shape(k, n);
        match bs {
            0 => tree::<512>(c, &b),
            1 => tree::<64>(c, &b),
            _ => tree::<2048>(c, &b),
        }
    });
    r.finish()
}
