//! C27: queries are pure. The answer depends on the structure and the arguments only: not on earlier queries, not on what
//! was stored at the same place before, and not on queries that run at the same time in another thread.
use mc::model::*;
use mc::*;
use std::marker::PhantomData;
use vers_vecs::trees::{LevelTree, SubtreeSize, Tree};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

// ---------------------------------------------------------------- Send + Sync, decided without breaking the build
struct Probe<T: ?Sized>(PhantomData<T>);
trait Otherwise {
    const SHAREABLE: bool = false;
}
impl<T: ?Sized> Otherwise for Probe<T> {}
impl<T: ?Sized + Send + Sync> Probe<T> {
    const SHAREABLE: bool = true;
}
macro_rules! shareable {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), <Probe<$t>>::SHAREABLE)),*] };
}
fn traits() -> Vec<(&'static str, bool)> {
    shareable![
        BitVec, RsVec, SparseRSVec, EliasFanoVec, BinaryRmq, FastRmq, WaveletMatrix, BpTree<8>, BpTree<512>,
        vers_vecs::BpBuilder<512>, vers_vecs::bit_vec::BitMask<'static, 'static>,
        vers_vecs::bit_vec::fast_rs_vec::SelectIter<'static, true>,
        vers_vecs::bit_vec::fast_rs_vec::SelectIter<'static, false>,
        vers_vecs::bit_vec::fast_rs_vec::SelectIntoIter<true>,
        vers_vecs::elias_fano::EliasFanoIter, vers_vecs::elias_fano::EliasFanoRefIter<'static>,
        vers_vecs::bit_vec::BitVecIter, vers_vecs::bit_vec::BitVecRefIter<'static>,
    ]
}

// ---------------------------------------------------------------- subjects: a structure and queries with known answers
type Ask<T> = Box<dyn Fn(&T) -> u64 + Send + Sync>;
struct Q<T> {
    name: String,
    f: Ask<T>,
    want: u64,
    /// short enough to be stopped at every instruction
    short: bool,
}
struct Subj<T> {
    name: String,
    make: Box<dyn Fn() -> T + Send + Sync>,
    q: Vec<Q<T>>,
}
fn ask<T>(f: impl Fn(&T) -> u64 + Send + Sync + 'static) -> Ask<T> {
    Box::new(f)
}
fn opt(o: Option<u64>) -> u64 {
    o.unwrap_or(u64::MAX)
}
fn ou(o: Option<usize>) -> u64 {
    o.map_or(u64::MAX, |x| x as u64)
}
macro_rules! q {
    ($v:expr, $short:expr, $want:expr, $t:ty, $f:expr, $($n:tt)+) => {
        $v.push(Q { name: format!($($n)+), f: ask::<$t>($f), want: $want as u64, short: $short })
    };
}

fn bits(kind: u64, n: usize) -> BM {
    let mut b = BM::zeros(n);
    for i in 0..n {
        let on = match kind {
            0 => i % 3 == 0,
            1 => (i / 700) % 2 == 0,
            2 => i % 97 == 5 || (i > n / 2 && i < n / 2 + 900),
            _ => (i * i + 7 * i) % 5 < 2,
        };
        b.set(i, on);
    }
    b
}
fn at(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, n / 3, n / 2, n - n / 7, n - 1].into_iter().filter(|&x| x < n).collect();
    v.dedup();
    v
}
fn rs_vecs(n: usize) -> Vec<Subj<RsVec>> {
    (0..4)
        .map(|k| {
            let b = bits(k, n);
            let ones: Vec<usize> = (0..n).filter(|&i| b.get(i)).collect();
            let zeros: Vec<usize> = (0..n).filter(|&i| !b.get(i)).collect();
            let mut q = vec![];
            for p in at(n) {
                let r = ones.partition_point(|&x| x < p);
                q!(q, p == n / 2, r, RsVec, move |v| v.rank1(p) as u64, "rank1({p})");
                q!(q, p == n / 3, p - r, RsVec, move |v| v.rank0(p) as u64, "rank0({p})");
                q!(q, false, b.get(p), RsVec, move |v| opt(v.get(p)), "get({p})");
            }
            for k in at(ones.len()) {
                q!(q, k == ones.len() / 2, ones[k], RsVec, move |v| v.select1(k) as u64, "select1({k})");
                q!(q, false, ones[k], RsVec, move |v| ou(v.iter1().nth(k)), "iter1().nth({k})");
            }
            for k in at(zeros.len()) {
                q!(q, k == zeros.len() / 3, zeros[k], RsVec, move |v| v.select0(k) as u64, "select0({k})");
                q!(q, false, zeros[zeros.len() - 1 - k], RsVec, move |v| ou(v.iter0().nth_back(k)), "iter0().nth_back({k})");
            }
            q!(q, false, n, RsVec, move |v| v.select1(1 << 40) as u64, "select1(2^40)");
            q!(q, false, b.get(n / 2) as u64 + 2 * b.get(n / 2 + 1) as u64, RsVec, move |v| opt(v.get_bits(n / 2, 2)), "get_bits({},2)", n / 2);
            Subj { name: format!("bits {k} of length {n}"), make: Box::new(move || RsVec::from_bit_vec(bits(k, n).bv(Dirt::Clean))), q }
        })
        .collect()
}
fn ef_data(kind: u64, n: usize) -> Vec<u64> {
    let mut d: Vec<u64> = (0..n as u64)
        .map(|i| match kind {
            0 => i * 7 + i % 3,
            1 => if i < n as u64 - 3 { 1000 + i / 2 } else { (i + 1) << 40 },
            2 => 5 + (i * i) / 3,
            _ => 1 << 33,
        })
        .collect();
    d.sort_unstable();
    d
}
fn efs(n: usize) -> Vec<Subj<EliasFanoVec>> {
    type T = EliasFanoVec;
    (0..4)
        .map(|k| {
            let d = ef_data(k, n);
            let mut q = vec![];
            for i in at(n) {
                let s = i == n / 3;
                q!(q, s, d[i], T, move |v| opt(v.get(i)), "get({i})");
                let dl = if i == 0 { d[0] } else { d[i] - d[i - 1] };
                q!(q, false, dl, T, move |v| opt(v.delta(i)), "delta({i})");
                q!(q, false, d[i], T, move |v| opt(v.iter().nth(i)), "iter().nth({i})");
                for x in [d[i].saturating_sub(1), d[i], d[i] + 1] {
                    let lo = d.partition_point(|&y| y < x);
                    let hi = d.partition_point(|&y| y <= x);
                    let s = s && x == d[i] + 1;
                    q!(q, s, lo, T, move |v| v.rank(x), "rank({x})");
                    q!(q, s, opt(hi.checked_sub(1).map(|j| d[j])), T, move |v| opt(v.predecessor(x)), "predecessor({x})");
                    q!(q, s, opt(d.get(lo).copied()), T, move |v| opt(v.successor(x)), "successor({x})");
                }
            }
            Subj { name: format!("sequence {k} of length {n}"), make: Box::new(move || EliasFanoVec::from_slice(&ef_data(k, n))), q }
        })
        .collect()
}
fn sparses(n: usize) -> Vec<Subj<SparseRSVec>> {
    type T = SparseRSVec;
    (0..4)
        .map(|k| {
            let b = bits(k, n);
            let ones: Vec<usize> = (0..n).filter(|&i| b.get(i)).collect();
            let mut q = vec![];
            for p in at(n) {
                let r = ones.partition_point(|&x| x < p);
                let s = p == n / 3;
                q!(q, s, b.get(p), T, move |v| opt(v.get(p as u64)), "get({p})");
                q!(q, s, r, T, move |v| v.rank1(p as u64), "rank1({p})");
                q!(q, false, p - r, T, move |v| v.rank0(p as u64), "rank0({p})");
            }
            for k in at(ones.len()) {
                q!(q, k == ones.len() / 3, ones[k], T, move |v| v.select1(k), "select1({k})");
            }
            Subj { name: format!("sparse bits {k} of length {n}"), make: Box::new(move || SparseRSVec::from_bitvec(&bits(k, n).bv(Dirt::Clean))), q }
        })
        .collect()
}
fn rmq_data(kind: u64, n: usize) -> Vec<u64> {
    (0..n as u64)
        .map(|i| match kind {
            0 => i,
            1 => n as u64 - i,
            2 => (i * 37) % 101,
            _ => i ^ 0x55,
        })
        .collect()
}
macro_rules! rmqs {
    ($f:ident, $t:ty) => {
        fn $f(n: usize) -> Vec<Subj<$t>> {
            (0..4)
                .map(|k| {
                    let d = rmq_data(k, n);
                    let mut q = vec![];
                    for i in at(n) {
                        for j in at(n) {
                            if i <= j {
                                let m = *d[i..=j].iter().min().unwrap();
                                let s = (i == 1 && j == n - n / 7) || (i == n / 3 && j == n / 2);
                                q!(q, s, m, $t, move |v| v[v.range_min(i, j)], "range_min({i},{j})");
                            }
                        }
                    }
                    Subj { name: format!("data {k} of length {n}"), make: Box::new(move || <$t>::from_vec(rmq_data(k, n))), q }
                })
                .collect()
        }
    };
}
rmqs!(brmqs, BinaryRmq);
rmqs!(frmqs, FastRmq);
fn wav_data(kind: u64, n: usize) -> Vec<u64> {
    (0..n as u64)
        .map(|i| match kind {
            0 => i % 8,
            1 => if i % 50 == 0 { 7 } else { 2 },
            2 => (i * i) % 8,
            _ => 7 - (i / 40) % 8,
        })
        .collect()
}
fn wavs(n: usize) -> Vec<Subj<WaveletMatrix>> {
    type T = WaveletMatrix;
    (0..4)
        .map(|k| {
            let d = wav_data(k, n);
            let mut q = vec![];
            for i in at(n) {
                let s = i == n / 3;
                q!(q, s, d[i], T, move |v| opt(v.get_u64(i)), "get_u64({i})");
                q!(q, false, d[i], T, move |v| opt(v.iter_u64().unwrap().nth(i)), "iter_u64().nth({i})");
                for y in [0u64, 2, 5, 7] {
                    let s = s && y == 2;
                    let r = d[..i].iter().filter(|&&x| x == y).count();
                    q!(q, s, r, T, move |v| ou(v.rank_u64(i, y)), "rank_u64({i},{y})");
                    let sel = d.iter().enumerate().filter(|e| *e.1 == y).nth(i / 9).map(|e| e.0);
                    q!(q, s, ou(sel), T, move |v| ou(v.select_u64(i / 9, y)), "select_u64({},{y})", i / 9);
                    let mut w = d[..=i].to_vec();
                    w.sort_unstable();
                    q!(q, s, opt(w.iter().rev().find(|x| **x <= y).copied()), T, move |v| opt(v.predecessor_u64(0..i + 1, y)), "predecessor_u64(0..={i},{y})");
                    q!(q, false, opt(w.iter().find(|x| **x >= y).copied()), T, move |v| opt(v.successor_u64(0..i + 1, y)), "successor_u64(0..={i},{y})");
                    if y == 2 {
                        q!(q, s, w[i / 2], T, move |v| opt(v.quantile_u64(0..i + 1, i / 2)), "quantile_u64(0..={i},{})", i / 2);
                    }
                }
            }
            Subj { name: format!("symbols {k} of length {n}"), make: Box::new(move || WaveletMatrix::from_slice(&wav_data(k, n), 3)), q }
        })
        .collect()
}
fn dyck(kind: u64, nodes: usize) -> Vec<bool> {
    let mut v = vec![true];
    let mut open = 1usize;
    let mut made = 1;
    let mut i = 0usize;
    while made < nodes {
        let close = match kind {
            0 => i % 3 == 2,
            1 => i % 60 >= 45,
            2 => i % 2 == 1,
            _ => (i * i) % 7 < 3,
        };
        if close && open > 1 {
            v.push(false);
            open -= 1;
        } else {
            v.push(true);
            open += 1;
            made += 1;
        }
        i += 1;
    }
    v.extend(std::iter::repeat(false).take(open));
    v
}
fn trees<const B: usize>(nodes: usize) -> Vec<Subj<BpTree<B>>> {
    (0..4)
        .map(|k| {
            let d = dyck(k, nodes);
            let n = d.len();
            let mut close = vec![usize::MAX; n];
            let mut parent = vec![None; n];
            let mut depth = vec![0u64; n];
            let mut st: Vec<usize> = vec![];
            for i in 0..n {
                if d[i] {
                    parent[i] = st.last().copied();
                    depth[i] = st.len() as u64;
                    st.push(i);
                } else {
                    let o = st.pop().unwrap();
                    close[o] = i;
                    close[i] = o;
                }
            }
            let opens: Vec<usize> = (0..n).filter(|&i| d[i]).collect();
            let mut q = vec![];
            for (w, i) in at(opens.len()).into_iter().map(|x| opens[x]).enumerate() {
                let s = w == 2;
                let c = close[i];
                q!(q, s, c, BpTree<B>, move |t| ou(t.close(i)), "close({i})");
                q!(q, s, i, BpTree<B>, move |t| ou(t.open(c)), "open({c})");
                q!(q, s, ou(parent[i]), BpTree<B>, move |t| ou(t.parent(i)), "parent({i})");
                q!(q, false, depth[i], BpTree<B>, move |t| t.depth(i), "depth({i})");
                q!(q, false, (c - i + 1) / 2, BpTree<B>, move |t| ou(t.subtree_size(i)), "subtree_size({i})");
                let nx = opens.iter().copied().find(|&j| j > i && depth[j] == depth[i]);
                q!(q, s, ou(nx), BpTree<B>, move |t| ou(t.level_next(i)), "level_next({i})");
                let pv = opens.iter().copied().rev().find(|&j| j < i && depth[j] == depth[i]);
                q!(q, false, ou(pv), BpTree<B>, move |t| ou(t.level_prev(i)), "level_prev({i})");
                let anc = parent[i].and_then(|p| parent[p]);
                q!(q, false, ou(anc), BpTree<B>, move |t| ou(t.level_ancestor(i, 2)), "level_ancestor({i},2)");
                let kids = opens.iter().filter(|&&j| parent[j] == Some(i)).count();
                q!(q, false, kids, BpTree<B>, move |t| t.children(i).count() as u64, "children({i})");
            }
            Subj { name: format!("tree {k} of {nodes} nodes, block size {B}"), make: Box::new(move || BpTree::from_bit_vector(BitVec::from_bools(&dyck(k, nodes)))), q }
        })
        .collect()
}
fn bitvecs(n: usize) -> Vec<Subj<BitVec>> {
    (0..4)
        .map(|k| {
            let b = bits(k, n);
            let mut q = vec![];
            for p in at(n) {
                q!(q, p == n / 2, b.get(p), BitVec, move |v| opt(v.get(p)), "get({p})");
                let l = 33.min(n - p);
                let want = (0..l).fold(0u64, |a, j| a | (b.get(p + j) as u64) << j);
                q!(q, p == n / 3, want, BitVec, move |v| opt(v.get_bits(p, l)), "get_bits({p},{l})");
            }
            q!(q, false, b.ones(), BitVec, move |v| v.count_ones(), "count_ones()");
            q!(q, false, n as u64 - b.ones() as u64, BitVec, move |v| v.count_zeros(), "count_zeros()");
            let o = bits((k + 1) % 4, n).bv(Dirt::Ones);
            let same = (0..n).filter(|&i| b.get(i) != bits((k + 1) % 4, n).get(i)).count();
            q!(q, false, same, BitVec, move |v| v.mask_xor(&o).unwrap().count_ones(), "mask_xor().count_ones()");
            Subj { name: format!("bits {k} of length {n}"), make: Box::new(move || bits(k, n).bv(Dirt::Clean)), q }
        })
        .collect()
}

// ---------------------------------------------------------------- twins: structures of the same shape and common arguments
type Both<T, M> = fn(&T, &M, u64) -> Option<(u64, u64)>;
/// Every ordered pair of structures, one after the other at the same place (the struct and, as far as the allocator
/// permits, its buffers): any query of the first, then every query of the second with the same or a neighbouring argument.
fn twins<T: Clone + 'static, M: Send + Sync + std::fmt::Debug + 'static>(r: &mut Runner, tag: &str, items: Vec<M>, make: fn(&M) -> T, args: Vec<u64>, asks: Vec<(&'static str, Both<T, M>)>) {
    let n = items.len() as u64;
    r.family(&format!("{tag}-twins"), n, move |i, c| {
        let a = &items[i as usize];
        c.note(|| format!("{a:?} first"));
        let ta = make(a);
        let mut slot: Box<Option<T>> = Box::new(None);
        for (k, b) in items.iter().enumerate() {
            let tb = make(b);
            let mut over = ta.clone();
            for (fname, f) in &asks {
                for &x in &args {
                    let _ = f(&over, a, x);
                }
                over.clone_from(&tb);
                for &x in &args {
                    if let Some((got, want)) = f(&over, b, x) {
                        eq!(c, got, want, "{b:?}: {fname}({x}) after clone_from, where {a:?} was");
                    }
                }
                over.clone_from(&ta);
            }
            for (fname, f) in &asks {
                for (p, &x) in args.iter().enumerate() {
                    *slot = None;
                    *slot = Some(ta.clone());
                    let Some((got, want)) = f(slot.as_ref().as_ref().unwrap(), a, x) else { continue };
                    eq!(c, got, want, "{a:?}: {fname}({x})");
                    *slot = None;
                    *slot = Some(tb.clone());
                    let t = slot.as_ref().as_ref().unwrap();
                    for (gname, g) in &asks {
                        for y in [p, p + 1, p.wrapping_sub(1)].into_iter().filter_map(|y| args.get(y).copied()) {
                            if let Some((got, want)) = g(t, b, y) {
                                eq!(c, got, want, "{b:?}: {gname}({y}) at the place where {a:?} was, after {fname}({x})");
                            }
                        }
                    }
                }
            }
            c.visit(i * n + k as u64);
        }
        Ok(())
    });
}
fn bit_strings(n: usize) -> Vec<BM> {
    (0..1u64 << n).map(|x| BM::from_int(x, n)).collect()
}
/// Long vectors of one length that differ in where a cluster is.
fn clusters(n: usize, count: usize) -> Vec<BM> {
    (0..count)
        .map(|k| {
            let mut b = BM::zeros(n);
            let from = k * (n / 2) / count;
            for i in 0..n {
                b.set(i, i == 0 || i == n - 1 || (i >= from && i < from + n / 2 && (i + k) % 3 != 0));
            }
            b
        })
        .collect()
}
fn below(b: &BM, p: u64) -> u64 {
    (0..(p as usize).min(b.len)).filter(|&i| b.get(i)).count() as u64
}
fn place(b: &BM, k: u64, v: bool) -> u64 {
    (0..b.len).filter(|&i| b.get(i) == v).nth(k as usize).unwrap_or(b.len) as u64
}
/// A sorted list with its queries answered by counting.
fn ef_asks() -> Vec<(&'static str, Both<EliasFanoVec, Vec<u64>>)> {
    vec![
        ("get", |t, m, x| Some((opt(t.get(x as usize)), opt(m.get(x as usize).copied())))),
        ("predecessor", |t, m, x| Some((opt(t.predecessor(x)), opt(m.iter().rev().find(|y| **y <= x).copied())))),
        ("successor", |t, m, x| Some((opt(t.successor(x)), opt(m.iter().find(|y| **y >= x).copied())))),
        ("rank", |t, m, x| Some((t.rank(x), m.iter().filter(|y| **y < x).count() as u64))),
    ]
}
fn all_twins(r: &mut Runner) {
    let t = r.thorough;
    // Elias-Fano: all sequences 0, a, b, 16; and longer ones with a crowded bucket at different places
    let mut v = vec![];
    for a in 0..=16u64 {
        for b in a..=16 {
            v.push(vec![0, a, b, 16]);
        }
    }
    twins(r, "elias-fano", v, |m| EliasFanoVec::from_slice(m), (0..=17).collect(), ef_asks());
    let v = (0..if t { 40u64 } else { 14 })
        .map(|k| (0..64u64).map(|i| if i == 0 { 0 } else if i == 63 { 4000 } else { 93 * k + i / 2 }).collect())
        .collect();
    twins(r, "elias-fano-crowded", v, |m| EliasFanoVec::from_slice(m), (0..if t { 64 } else { 22 }).map(|i| i * if t { 62 } else { 180 }).collect(), ef_asks());

    let n = if t { 8 } else { 6 };
    let asks: Vec<(&'static str, Both<RsVec, BM>)> = vec![
        ("rank1", |t, m, x| Some((t.rank1(x as usize) as u64, below(m, x)))),
        ("rank0", |t, m, x| Some((t.rank0(x as usize) as u64, x.min(m.len as u64) - below(m, x)))),
        ("select1", |t, m, x| Some((t.select1(x as usize) as u64, place(m, x, true)))),
        ("select0", |t, m, x| Some((t.select0(x as usize) as u64, place(m, x, false)))),
        ("get", |t, m, x| ((x as usize) < m.len).then(|| (opt(t.get(x as usize)), m.get(x as usize) as u64))),
        ("iter1().nth", |t, m, x| Some((ou(t.iter1().nth(x as usize)), Some(place(m, x, true)).filter(|&p| p < m.len as u64).unwrap_or(u64::MAX)))),
    ];
    twins(r, "rsvec", bit_strings(n), |m| RsVec::from_bit_vec(m.bv(Dirt::Clean)), (0..=n as u64 + 1).collect(), asks.clone());
    twins(r, "rsvec-long", clusters(17_000, if t { 8 } else { 4 }), |m| RsVec::from_bit_vec(m.bv(Dirt::Clean)), vec![0, 600, 1500, 8191, 8192, 8200, 12_000, 17_000], asks);

    let asks: Vec<(&'static str, Both<SparseRSVec, BM>)> = vec![
        ("rank1", |t, m, x| (x <= m.len as u64).then(|| (t.rank1(x), below(m, x)))),
        ("rank0", |t, m, x| (x <= m.len as u64).then(|| (t.rank0(x), x - below(m, x)))),
        ("select1", |t, m, x| (x < below(m, u64::MAX >> 1)).then(|| (t.select1(x as usize), place(m, x, true)))),
        ("get", |t, m, x| (x < m.len as u64).then(|| (opt(t.get(x)), m.get(x as usize) as u64))),
    ];
    twins(r, "sparse", bit_strings(n), |m| SparseRSVec::from_bitvec(&m.bv(Dirt::Clean)), (0..=n as u64).collect(), asks.clone());
    twins(r, "sparse-long", clusters(1200, if t { 20 } else { 8 }), |m| SparseRSVec::from_bitvec(&m.bv(Dirt::Clean)), (0..=20).map(|i| i * 60).collect(), asks);

    // RMQ: the argument encodes a range
    fn range(m: &[u64], x: u64) -> Option<(usize, usize)> {
        let n = m.len();
        let step = n.div_ceil(5).max(1);
        let (i, j) = ((x % 6) as usize * step, (x / 6) as usize * step);
        (i <= j && j < n).then_some((i, j))
    }
    let mut v: Vec<Vec<u64>> = (0..3u64.pow(4)).map(|x| (0..4u32).map(|i| x / 3u64.pow(i) % 3).collect()).collect();
    twins(r, "binary-rmq", v.clone(), |m| BinaryRmq::from_vec(m.clone()), (0..36).collect(), vec![("range_min", |t: &BinaryRmq, m: &Vec<u64>, x| range(m, x).map(|(i, j)| (m[t.range_min(i, j)], *m[i..=j].iter().min().unwrap())))]);
    twins(r, "fast-rmq", v, |m| FastRmq::from_vec(m.clone()), (0..36).collect(), vec![("range_min", |t: &FastRmq, m: &Vec<u64>, x| range(m, x).map(|(i, j)| (m[t.range_min(i, j)], *m[i..=j].iter().min().unwrap())))]);
    v = (0..if t { 40u64 } else { 16 }).map(|k| (0..400u64).map(|i| (i * 7 + k * 13) % 101 + 5 * (i / 128 + k) % 7).collect()).collect();
    twins(r, "binary-rmq-long", v.clone(), |m| BinaryRmq::from_vec(m.clone()), (0..36).collect(), vec![("range_min", |t: &BinaryRmq, m: &Vec<u64>, x| range(m, x).map(|(i, j)| (m[t.range_min(i, j)], *m[i..=j].iter().min().unwrap())))]);
    twins(r, "fast-rmq-long", v, |m| FastRmq::from_vec(m.clone()), (0..36).collect(), vec![("range_min", |t: &FastRmq, m: &Vec<u64>, x| range(m, x).map(|(i, j)| (m[t.range_min(i, j)], *m[i..=j].iter().min().unwrap())))]);

    // wavelet matrices over two bits: the argument encodes a position and a symbol
    let asks: Vec<(&'static str, Both<WaveletMatrix, Vec<u64>>)> = vec![
        ("get_u64", |t, m, x| (x as usize / 4 < m.len()).then(|| (opt(t.get_u64(x as usize / 4)), m[x as usize / 4]))),
        ("rank_u64", |t, m, x| (x as usize / 4 <= m.len()).then(|| (ou(t.rank_u64(x as usize / 4, x % 4)), m[..x as usize / 4].iter().filter(|y| **y == x % 4).count() as u64))),
        ("select_u64", |t, m, x| Some((ou(t.select_u64(x as usize / 4, x % 4)), ou((0..m.len()).filter(|&i| m[i] == x % 4).nth(x as usize / 4))))),
        ("predecessor_u64", |t, m, x| (x as usize / 4 < m.len()).then(|| (opt(t.predecessor_u64(x as usize / 4..m.len(), x % 4)), opt(m[x as usize / 4..].iter().copied().filter(|y| *y <= x % 4).max())))),
        ("quantile_u64", |t, m, x| {
            (x as usize / 4 < m.len()).then(|| {
                let mut w = m.clone();
                w.sort_unstable();
                (opt(t.quantile_u64(0..m.len(), x as usize / 4)), w[x as usize / 4])
            })
        }),
    ];
    let v = (0..64u64).map(|x| vec![x % 4, x / 4 % 4, x / 16]).collect();
    twins(r, "wavelet", v, |m| WaveletMatrix::from_slice(m, 2), (0..=13).collect(), asks.clone());
    let v = (0..if t { 24u64 } else { 10 }).map(|k| (0..90u64).map(|i| (i / (k + 1) + k) % 4).collect()).collect();
    twins(r, "wavelet-long", v, |m| WaveletMatrix::from_slice(m, 2), (0..12).map(|i| i * 31 + i % 4).collect(), asks);

    // trees of the same size: the argument is a position
    fn tree_asks<const B: usize>() -> Vec<(&'static str, Both<BpTree<B>, Vec<bool>>)> {
        fn matching(m: &[bool], i: usize) -> usize {
            let mut e = 0;
            (i..m.len()).find(|&j| { e += if m[j] { 1 } else { -1 }; e == 0 }).unwrap()
        }
        fn above(m: &[bool], i: usize) -> Option<usize> {
            (0..i).rev().find(|&j| m[j] && matching(m, j) > i)
        }
        fn node(m: &[bool], x: u64) -> Option<usize> {
            m.get(x as usize).copied().unwrap_or(false).then_some(x as usize)
        }
        vec![
            ("close", |t, m, x| node(m, x).map(|i| (ou(t.close(i)), matching(m, i) as u64))),
            ("parent", |t, m, x| node(m, x).map(|i| (ou(t.parent(i)), ou(above(m, i))))),
            ("depth", |t, m, x| node(m, x).map(|i| (t.depth(i), (0..i).filter(|&j| m[j] && matching(m, j) > i).count() as u64))),
            ("next_sibling", |t, m, x| node(m, x).map(|i| (ou(t.next_sibling(i)), ou(node(m, matching(m, i) as u64 + 1))))),
            ("subtree_size", |t, m, x| node(m, x).map(|i| (ou(t.subtree_size(i)), ((matching(m, i) - i + 1) / 2) as u64))),
        ]
    }
    let words: Vec<Vec<bool>> = (0..1u64 << 10)
        .map(|x| {
            let mut v = vec![true];
            v.extend((0..10).map(|i| x >> i & 1 == 1));
            v.push(false);
            v
        })
        .filter(|v| {
            let mut e = 0;
            v.iter().enumerate().all(|(i, b)| { e += if *b { 1 } else { -1 }; e > 0 || i + 1 == v.len() }) && e == 0
        })
        .collect();
    twins(r, "tree8", words.clone(), |m| BpTree::<8>::from_bit_vector(BitVec::from_bools(m)), (0..12).collect(), tree_asks::<8>());
    twins(r, "tree512", words, |m| BpTree::<512>::from_bit_vector(BitVec::from_bools(m)), (0..12).collect(), tree_asks::<512>());
    let long: Vec<Vec<bool>> = (0..4).map(|k| dyck(k, 90)).collect();
    twins(r, "tree8-long", long, |m| BpTree::<8>::from_bit_vector(BitVec::from_bools(m)), (0..180).step_by(if t { 1 } else { 5 }).collect(), tree_asks::<8>());
}

// ---------------------------------------------------------------- explorations
fn register<T: Clone + 'static>(r: &mut Runner, tag: &str, shareable: bool, make: fn(usize) -> Vec<Subj<T>>, small: usize, large: usize) {
    // 1. every sequence of queries over all structures of the type, all of them alive
    let subs = make(large);
    let flat: Vec<(usize, usize)> = subs.iter().enumerate().flat_map(|(s, x)| (0..x.q.len()).map(move |q| (s, q))).collect();
    let deep = r.thorough;
    let n = flat.len() as u64;
    {
        let flat = flat.clone();
        r.family(&format!("{tag}-history"), n, move |i, c| {
            let live: Vec<T> = subs.iter().map(|s| (s.make)()).collect();
            let first = flat[i as usize];
            c.note(|| format!("{} {} first", subs[first.0].name, subs[first.0].q[first.1].name));
            for (j, &second) in flat.iter().enumerate() {
                // pairs: (first, second, first again); triples in the thorough tier
                let third: &[(usize, usize)] = if deep { &flat } else { std::slice::from_ref(&first) };
                for &t in third {
                    for (s, q) in [first, second, t] {
                        let x = &subs[s].q[q];
                        eq!(c, (x.f)(&live[s]), x.want, "{}: {} after {} of {} / {} of {}", subs[s].name, x.name,
                            subs[first.0].q[first.1].name, subs[first.0].name, subs[second.0].q[second.1].name, subs[second.0].name);
                    }
                }
                c.visit(i * n + j as u64);
            }
            Ok(())
        });
    }
    // 2. the same place holds one structure after the other; moving and cloning in between
    let subs = make(small);
    let flat2: Vec<(usize, usize)> = subs.iter().enumerate().flat_map(|(s, x)| (0..x.q.len()).map(move |q| (s, q))).collect();
    let n2 = flat2.len() as u64;
    r.family(&format!("{tag}-reuse"), n2, move |i, c| {
        let first = flat2[i as usize];
        c.note(|| format!("{} {} first", subs[first.0].name, subs[first.0].q[first.1].name));
        let made: Vec<T> = subs.iter().map(|s| (s.make)()).collect();
        let mut slot = Box::new(made[0].clone());
        for (k, &second) in flat2.iter().enumerate() {
            *slot = made[first.0].clone();
            let x = &subs[first.0].q[first.1];
            eq!(c, (x.f)(&slot), x.want, "{}: {}", subs[first.0].name, x.name);
            *slot = made[second.0].clone();
            let y = &subs[second.0].q[second.1];
            eq!(c, (y.f)(&slot), y.want, "{}: {} at the place where {} was, after {}", subs[second.0].name, y.name, subs[first.0].name, x.name);
            // a clone, and the original moved elsewhere
            let twin = slot.clone();
            eq!(c, (y.f)(&twin), y.want, "{}: {} of a clone", subs[second.0].name, y.name);
            let moved = *slot;
            eq!(c, (y.f)(&moved), y.want, "{}: {} after a move", subs[second.0].name, y.name);
            slot = twin;
            c.visit(i * n2 + k as u64);
        }
        Ok(())
    });
    // the same by copying one structure into another, of the same size or not
    let subs: Vec<Subj<T>> = make(small).into_iter().chain(make(large)).collect();
    let n3 = subs.len() as u64;
    r.family(&format!("{tag}-clonefrom"), n3 * n3, move |i, c| {
        let (a, b) = (&subs[(i / n3) as usize], &subs[(i % n3) as usize]);
        c.note(|| format!("{} overwritten with {}", a.name, b.name));
        let (mut x, y) = ((a.make)(), (b.make)());
        for q in &a.q {
            eq!(c, (q.f)(&x), q.want, "{}: {}", a.name, q.name);
        }
        x.clone_from(&y);
        for q in &b.q {
            eq!(c, (q.f)(&x), q.want, "{}: {} after clone_from, where {} was", b.name, q.name, a.name);
            eq!(c, (q.f)(&y), q.want, "{}: {} of the source of clone_from", b.name, q.name);
        }
        c.visit(i);
        Ok(())
    });
    if !shareable {
        return; // already a violation
    }
    // 3. two threads: the first query is stopped at every one of its instructions, the other one runs completely
    let subs = make(small);
    let single = r.t(250, 1 << 20);
    let short: Vec<(usize, usize)> = subs
        .iter()
        .enumerate()
        .take(4)
        .flat_map(|(s, x)| x.q.iter().enumerate().filter(|(_, q)| q.short).map(move |(q, _)| (s, q)))
        .collect();
    let m = short.len() as u64;
    let cell = Shared(subs.iter().map(|s| (s.make)()).collect::<Vec<T>>());
    r.family(&format!("{tag}-threads"), m * m, move |i, c| {
        let (a, b) = (short[(i / m) as usize], short[(i % m) as usize]);
        let live = cell.get();
        let (x, y) = (&subs[a.0].q[a.1], &subs[b.0].q[b.1]);
        c.note(|| format!("{}: {} stopped at each instruction, {}: {}", subs[a.0].name, x.name, subs[b.0].name, y.name));
        let fa = || (x.f)(&live[a.0]);
        let fb = || (y.f)(&live[b.0]);
        let total = steps::count(fa);
        let judge = |c: &mut Ctx, k: u64, o: &steps::Outcome| -> R {
            let at = if k == 0 { "each instruction".to_string() } else { format!("instruction {k} of {total}") };
            eq!(c, o.answer, x.want, "{}: {} preempted at {at} by {} of {}", subs[a.0].name, x.name, y.name, subs[b.0].name);
            eq!(c, o.wrong, None, "{}: {} (right: {}) while {} of {} is stopped at {at}", subs[b.0].name, y.name, y.want, x.name, subs[a.0].name);
            Ok(())
        };
        // stopped at each instruction of one execution
        let o = steps::preempt(0, &fa, &fb, y.want)?;
        c.transitions += o.jobs;
        judge(c, 0, &o)?;
        // one execution per instruction, stopped only there
        if total <= single {
            for k in 1..=total {
                let o = steps::preempt(k, &fa, &fb, y.want)?;
                judge(c, k, &o)?;
                c.visit(hash_of(&(i, k)));
                if o.jobs == 0 {
                    break; // it took fewer instructions this time
                }
            }
        }
        c.visit(i);
        Ok(())
    });
}
/// Shared between threads only if the type says that it may be (see `traits`).
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

fn main() {
    steps::init();
    let mut r = Runner::new("C27");
    let tr = traits();
    let ok = tr.iter().all(|t| t.1);
    r.family("auto-traits", tr.len() as u64, move |i, c| {
        let (n, s) = tr[i as usize];
        c.note(|| n.to_string());
        c.visit(i);
        ck!(c, s, "{n} cannot be shared between threads any more (not Send + Sync)");
        Ok(())
    });
    register::<BitVec>(&mut r, "bitvec", ok, bitvecs, 300, 300);
    register::<RsVec>(&mut r, "rsvec", ok, rs_vecs, 20_000, 40_000);
    register::<EliasFanoVec>(&mut r, "elias-fano", ok, efs, 60, 900);
    register::<SparseRSVec>(&mut r, "sparse", ok, sparses, 600, 3000);
    register::<BinaryRmq>(&mut r, "binary-rmq", ok, brmqs, 300, 1000);
    register::<FastRmq>(&mut r, "fast-rmq", ok, frmqs, 300, 1000);
    register::<WaveletMatrix>(&mut r, "wavelet", ok, wavs, 120, 700);
    register::<BpTree<8>>(&mut r, "tree8", ok, trees::<8>, 120, 500);
    register::<BpTree<512>>(&mut r, "tree512", ok, trees::<512>, 900, 3000);
    all_twins(&mut r);
    r.finish()
}
