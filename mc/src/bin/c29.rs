//! C29: bulk work takes (quasi-)linear time. Executed basic blocks of whole constructions, iterations, histories of appends,
//! conversions, comparisons and traversals, counted in an instrumented build; the limit is a constant per element (times the
//! logarithm of the size, or the symbol width, where the documentation says so).
use mc::bp;
use mc::model::{Dirt, BM};
use mc::work::{init, within};
use mc::{hash_of, Ctx, Dec, Runner, R};
use std::hint::black_box;
use vers_vecs::trees::{LevelTree, Tree, TreeBuilder};
use vers_vecs::{BinaryRmq, BitVec, BpBuilder, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

/// Basic blocks that any call may take beside what it takes per element.
const BASE: u64 = 30_000;
/// Per word of a bit vector: enough to handle its bits one by one.
const WORD: u64 = 1600;
/// Basic blocks per element: six times or more what the unchanged library needs at most, in either build. With the
/// sizes used here, work that grows with the square of the size exceeds them by far.
fn lin<T>(c: &mut Ctx, per: u64, units: usize, what: &'static str, f: impl FnOnce() -> T) -> Result<T, String> {
    Ok(within(c, BASE + per * units as u64, what, format_args!("{units} units"), f))
}
fn lg(n: usize) -> usize {
    64 - (n as u64).leading_zeros() as usize
}
fn sum<T: Into<u64>>(it: impl Iterator<Item = T>) -> u64 {
    let mut s = 0u64;
    for x in it {
        s = s.wrapping_mul(31).wrapping_add(x.into());
    }
    black_box(s)
}
fn drain<T>(mut it: impl Iterator<Item = T>) -> usize {
    let mut n = 0;
    while let Some(x) = it.next() {
        black_box(x);
        n += 1;
    }
    n
}
fn drain_back<T>(mut it: impl DoubleEndedIterator<Item = T>) -> usize {
    let mut n = 0;
    while let Some(x) = it.next_back() {
        black_box(x);
        n += 1;
    }
    n
}
/// k elements from the front, one from the back, and so on
fn drain_mixed<T>(mut it: impl DoubleEndedIterator<Item = T>, k: usize) -> usize {
    let mut n = 0;
    loop {
        let x = if n % (k + 1) == k { it.next_back() } else { it.next() };
        if x.is_none() {
            return n;
        }
        black_box(x);
        n += 1;
    }
}
/// skipping ahead in small steps from either end
fn drain_nth<T>(mut it: impl DoubleEndedIterator<Item = T>) -> usize {
    let mut n = 0;
    loop {
        let x = if n % 2 == 0 { it.nth(2) } else { it.nth_back(1) };
        if x.is_none() {
            return n;
        }
        black_box(x);
        n += 1;
    }
}
const DISTS: u64 = 8;
fn dist(kind: u64, n: usize) -> BM {
    let mut b = BM::zeros(n);
    match kind {
        0 => {}
        1 => b = b.complement(),
        2 => (0..n).step_by(2).for_each(|i| b.set(i, true)),
        // one bit at the far end
        3 => b.set(n - 1, true),
        // dense at the start, then nothing but a few
        4 => (0..n / 4).chain((n / 4..n).step_by(n / 50)).for_each(|i| b.set(i, true)),
        // sparse, evenly
        5 => (0..n).step_by(1021).for_each(|i| b.set(i, true)),
        // nothing, then dense
        6 => (n - n / 4..n).for_each(|i| b.set(i, true)),
        _ => b = mc::gen::mixed(n, 3),
    }
    b
}
macro_rules! iters {
    ($c:expr, $per:expr, $units:expr, $name:literal, $it:expr) => {{
        lin($c, $per, $units, concat!($name, " forward"), || drain($it))?;
        lin($c, $per, $units, concat!($name, " backward"), || drain_back($it))?;
        lin($c, $per, $units, concat!($name, " from both ends"), || drain_mixed($it, 1))?;
        lin($c, $per, $units, concat!($name, " mostly forward"), || drain_mixed($it, 7))?;
        lin($c, $per, $units, concat!($name, " in steps"), || drain_nth($it))?;
        lin($c, $per, $units, concat!($name, " count"), || $it.count())?;
        lin($c, $per, $units, concat!($name, " last"), || $it.last())?;
        lin($c, $per, $units, concat!($name, " fold"), || $it.fold(0usize, |a, x| { black_box(x); a + 1 }))?;
        lin($c, $per, $units, concat!($name, " rfold"), || $it.rfold(0usize, |a, x| { black_box(x); a + 1 }))?;
        lin($c, $per + 60, $units, concat!($name, " collect"), || $it.collect::<Vec<_>>())?;
    }};
}
fn bitvec(c: &mut Ctx, m: &BM) -> R {
    let n = m.len;
    let bv = m.bv(Dirt::Clean);
    let bits: Vec<u64> = (0..n).map(|i| m.get(i) as u64).collect();
    let limbs: Vec<u64> = bv.iter_limbs().collect();
    let w = limbs.len();
    // growing bit by bit, in every way there is
    lin(c, 40, n, "append", || {
        let mut b = BitVec::new();
        for &x in &bits {
            b.append(x == 1);
        }
        b
    })?;
    lin(c, 40, n, "append_bit", || {
        let mut b = BitVec::new();
        for &x in &bits {
            b.append_bit(x);
        }
        b
    })?;
    lin(c, 100, n / 5, "append_bits", || {
        let mut b = BitVec::new();
        for x in bits.chunks_exact(5) {
            b.append_bits(x[3], 5);
        }
        b
    })?;
    lin(c, 100, n / 5, "append_bits_unchecked", || {
        let mut b = BitVec::new();
        for x in bits.chunks_exact(5) {
            b.append_bits_unchecked(x[3], 5);
        }
        b
    })?;
    lin(c, WORD, w, "append_word", || {
        let mut b = BitVec::new();
        b.append(true);
        for &x in &limbs {
            b.append_word(x);
        }
        b
    })?;
    let seven = BitVec::from_bits(&[1, 0, 1, 1, 0, 0, 1]);
    lin(c, 100, n / 7, "extend_bitvec by seven bits", || {
        let mut b = BitVec::new();
        for _ in 0..n / 7 {
            b.extend_bitvec(&seven);
        }
        b
    })?;
    lin(c, 40, n, "append with_capacity(1)", || {
        let mut b = BitVec::with_capacity(1);
        for &x in &bits {
            b.append(x == 1);
        }
        b
    })?;
    // growing and shrinking around one length: no reallocation each time
    let mut b = bv.clone();
    for back in [1, 63, 64, 65, 700] {
        lin(c, WORD, n / 64 + 100, "append and drop_last around one length", || {
            for i in 0..100 + n / 64 {
                b.append(i % 2 == 0);
                b.append_word(5);
                b.drop_last(65);
            }
        })?;
        lin(c, 40, back * 100 + 100, "drop_last and append again", || {
            for _ in 0..100 {
                b.drop_last(back);
                for i in 0..back {
                    b.append(i % 3 == 0);
                }
            }
        })?;
    }
    lin(c, 40, n, "drop_last(1) until empty", || {
        while !b.is_empty() {
            b.drop_last(1);
        }
    })?;
    // constructors
    let (b8, b16, b32): (Vec<u8>, Vec<u16>, Vec<u32>) =
        (bits.iter().map(|&x| x as u8).collect(), bits.iter().map(|&x| x as u16).collect(), bits.iter().map(|&x| x as u32).collect());
    let bools: Vec<bool> = bits.iter().map(|&x| x == 1).collect();
    lin(c, 40, n, "from_bits", || BitVec::from_bits(&b8))?;
    lin(c, 40, n, "from_bits_u16", || BitVec::from_bits_u16(&b16))?;
    lin(c, 40, n, "from_bits_u32", || BitVec::from_bits_u32(&b32))?;
    lin(c, 40, n, "from_bits_u64", || BitVec::from_bits_u64(&bits))?;
    lin(c, 100, n, "from_bits_iter", || BitVec::from_bits_iter(bits.iter().copied()))?;
    lin(c, 40, n, "from_bools", || BitVec::from_bools(&bools))?;
    lin(c, 40, n, "from_bool_iter", || BitVec::from_bool_iter(bools.iter().copied()))?;
    lin(c, WORD, w, "FromIterator<u64>", || limbs.iter().copied().collect::<BitVec>())?;
    lin(c, 100, n / 7, "Extend<&BitVec>", || {
        let mut b = BitVec::new();
        b.extend((0..n / 7).map(|_| &seven));
        b
    })?;
    lin(c, WORD, w, "from_limbs", || BitVec::from_limbs(&limbs))?;
    lin(c, WORD, w, "from_limbs_iter", || BitVec::from_limbs_iter(limbs.iter().copied()))?;
    lin(c, WORD, w, "from_vec", || BitVec::from_vec(limbs.clone()))?;
    lin(c, WORD, w, "from_zeros", || BitVec::from_zeros(n))?;
    lin(c, WORD, w, "from_ones", || BitVec::from_ones(n))?;
    lin(c, 100, n / 4, "pack_sequence_u64", || BitVec::pack_sequence_u64(&bits[..n / 4], 3))?;
    lin(c, 100, n / 4, "pack_sequence_u32", || BitVec::pack_sequence_u32(&b32[..n / 4], 3))?;
    lin(c, 100, n / 4, "pack_sequence_u16", || BitVec::pack_sequence_u16(&b16[..n / 4], 3))?;
    lin(c, 100, n / 4, "pack_sequence_u8", || BitVec::pack_sequence_u8(&b8[..n / 4], 3))?;
    lin(c, 100, n / 4, "pack_from_iter_u64", || BitVec::pack_from_iter_u64(bits.iter().copied().take(n / 4), 70))?;
    // whole-vector operations: per word
    lin(c, WORD, w, "clone", || bv.clone())?;
    let other = bv.clone();
    lin(c, WORD, w, "==", || bv == other)?;
    lin(c, WORD, w, "hash", || hash_of(&bv))?;
    lin(c, WORD, w, "count_ones", || bv.count_ones())?;
    lin(c, WORD, w, "count_zeros", || bv.count_zeros())?;
    lin(c, WORD, w, "iter_limbs", || sum(bv.iter_limbs()))?;
    for at in [1, n / 3, n / 2 / 64 * 64, n - 1] {
        let x = bv.clone();
        let (a, mut b) = lin(c, WORD, w, "split_at", move || x.split_at(at).unwrap_or_else(|_| panic!("split")))?;
        lin(c, WORD, w, "extend_bitvec", || b.extend_bitvec(&a))?;
    }
    // masks
    let mut x = bv.clone();
    lin(c, WORD, w, "apply_mask_or", || x.apply_mask_or(&other).is_ok())?;
    lin(c, WORD, w, "apply_mask_and", || x.apply_mask_and(&other).is_ok())?;
    lin(c, WORD, w, "apply_mask_xor", || x.apply_mask_xor(&other).is_ok())?;
    lin(c, WORD, w, "apply_mask_custom", || x.apply_mask_custom(&other, |a, b| a & !b).is_ok())?;
    let mask = bv.mask_xor(&other).map_err(|e| e.to_string())?;
    lin(c, WORD, w, "mask.count_ones", || mask.count_ones())?;
    lin(c, WORD, w, "mask.count_zeros", || mask.count_zeros())?;
    lin(c, WORD, w, "mask.to_bit_vec", || mask.to_bit_vec())?;
    // access to every bit
    lin(c, 40, n, "get of every bit", || (0..n).filter(|&i| bv.get(i) == Some(1)).count())?;
    lin(c, 40, n, "mask.get of every bit", || (0..n).filter(|&i| mask.get(i) == Some(1)).count())?;
    lin(c, 40, n, "set of every bit", || (0..n).for_each(|i| x.set(i, 1).unwrap()))?;
    lin(c, 40, n, "flip_bit of every bit", || (0..n).for_each(|i| x.flip_bit(i)))?;
    lin(c, 100, n / 9, "unpack_element of every element", || (0..n / 9).for_each(|i| drop(black_box(bv.unpack_element(i, 9)))))?;
    iters!(c, 40, n, "BitVec::iter()", bv.iter());
    iters!(c, 40, n, "BitVec::into_iter()", bv.clone().into_iter());
    Ok(())
}
fn rsvec(c: &mut Ctx, m: &BM) -> R {
    let n = m.len;
    let bv = m.bv(Dirt::Clean);
    // words, and words with ones or zeros
    let w = n / 64 + 1;
    let (w1, w0) = (w + m.ones(), w + n - m.ones());
    let x = bv.clone();
    let rs = lin(c, WORD, w, "RsVec::from_bit_vec", move || RsVec::from_bit_vec(x))?;
    let x = bv.clone();
    let other = lin(c, WORD, w, "RsVec::from", move || RsVec::from(x))?;
    lin(c, WORD, w, "RsVec::clone", || rs.clone())?;
    // comparing through the iterators takes constant time per bit
    lin(c, 60, n, "RsVec ==", || rs == other)?;
    lin(c, 60, n, "full_equals", || rs.full_equals(&other))?;
    lin(c, 800, w0, "sparse_equals<true>", || rs.sparse_equals::<true>(&other))?;
    lin(c, 800, w1, "sparse_equals<false>", || rs.sparse_equals::<false>(&other))?;
    let x = rs.clone();
    lin(c, WORD, w, "into_bit_vec", move || x.into_bit_vec())?;
    iters!(c, 40, n, "RsVec::iter()", rs.iter());
    iters!(c, 40, n, "RsVec::into_iter()", rs.clone().into_iter());
    iters!(c, 600, w1, "iter1()", rs.iter1());
    iters!(c, 600, w0, "iter0()", rs.iter0());
    iters!(c, 600, w1, "into_iter1()", rs.clone().into_iter1());
    iters!(c, 600, w0, "into_iter0()", rs.clone().into_iter0());
    lin(c, 100, n, "rank1 of every position", || (0..=n).map(|i| rs.rank1(i)).max())?;
    // sparse vectors of the same content
    let s = lin(c, 60, n, "Sparse::from_bitvec", || SparseRSVec::from_bitvec(&bv))?;
    lin(c, 60, n, "Sparse::from_bitvec_inverted", || SparseRSVec::from_bitvec_inverted(&bv))?;
    lin(c, 600, w1, "Sparse::iter1", || drain(s.iter1()))?;
    let pos: Vec<u64> = m.positions(true).iter().map(|&p| p as u64).collect();
    lin(c, 60, w1, "Sparse::new", || SparseRSVec::new(&pos, n as u64))?;
    Ok(())
}
const SEQS: u64 = 8;
fn seq(kind: u64, n: usize) -> Vec<u64> {
    let far = 1u64 << 50;
    let m = n as u64;
    let mut v: Vec<u64> = match kind {
        0 => (0..m).map(|x| x * 1000).collect(),
        1 => (0..m - 1).chain([far]).collect(),
        2 => (0..m - 1).map(|_| 5).chain([far]).collect(),
        3 => (0..m).map(|x| if x < m / 2 { 0 } else { u64::MAX - 9 }).collect(),
        4 => (0..m).map(|x| if x < m / 2 { x * 7 } else { far + x * 3 }).collect(),
        5 => (0..m).map(|x| if x == 0 { 0 } else { far - 2 * m + x }).collect(),
        6 => (0..m).map(|_| 77).collect(),
        _ => (0..m).map(|x| x * x).collect(),
    };
    v.sort();
    v
}
fn eliasfano(c: &mut Ctx, v: &[u64]) -> R {
    let n = v.len();
    let e = lin(c, 100, n, "EliasFano::from_slice", || EliasFanoVec::from_slice(v))?;
    lin(c, 60, n, "EliasFano::clone", || e.clone())?;
    iters!(c, 600, n, "EliasFano::iter()", e.iter());
    iters!(c, 600, n, "EliasFano::into_iter()", e.clone().into_iter());
    Ok(())
}
fn rmq(c: &mut Ctx, kind: u64, n: usize) -> R {
    let v: Vec<u64> = (0..n as u64)
        .map(|x| match kind {
            0 => x,
            1 => n as u64 - x,
            2 => 7,
            3 => mc::gen::scramble(x),
            _ => if x == n as u64 / 3 { 0 } else { 1 + x % 2 },
        })
        .collect();
    let l = lg(n);
    let x = v.clone();
    let b = lin(c, 30, n * l, "BinaryRmq::from_vec", move || BinaryRmq::from_vec(x))?;
    let x = v.clone();
    let f = lin(c, 30, n * l, "FastRmq::from_vec", move || FastRmq::from_vec(x))?;
    lin(c, 30, n * l, "BinaryRmq::from_iter", || v.iter().copied().collect::<BinaryRmq>())?;
    lin(c, 30, n * l, "FastRmq::from_iter", || v.iter().copied().collect::<FastRmq>())?;
    lin(c, 100, n, "BinaryRmq as slice", || sum(b.iter().copied()))?;
    lin(c, 100, n, "FastRmq as slice", || sum(f.iter().copied()))?;
    Ok(())
}
fn wavelet(c: &mut Ctx, kind: u64, k: u16, n: usize) -> R {
    let top = u64::MAX >> (64 - k);
    let v: Vec<u64> = (0..n as u64)
        .map(|x| match kind {
            0 => if x % 2011 == 7 { top } else { 0 },
            1 => mc::gen::scramble(x) & top,
            2 => x & top,
            3 => (n as u64 - x) & top,
            4 => top,
            _ => if x < n as u64 / 2 { top } else { 0 },
        })
        .collect();
    let bv = BitVec::pack_sequence_u64(&v, k as usize);
    let (kn, l) = (k as usize * n, lg(n));
    let w = lin(c, 10, kn * l, "Wavelet::from_slice", || WaveletMatrix::from_slice(&v, k))?;
    lin(c, 10, kn * l, "Wavelet::from_bit_vec", || WaveletMatrix::from_bit_vec(&bv, k))?;
    if k <= 12 {
        let t = 1usize << k;
        lin(c, 60, kn + t, "Wavelet::from_slice_pc", || WaveletMatrix::from_slice_pc(&v, k))?;
        lin(c, 60, kn + t, "Wavelet::from_bit_vec_pc", || WaveletMatrix::from_bit_vec_pc(&bv, k))?;
    }
    lin(c, 400, kn, "Wavelet::iter_u64()", || w.iter_u64().map(|i| drain(i)))?;
    lin(c, 400, kn, "Wavelet::iter()", || drain(w.iter()))?;
    lin(c, 400, kn, "Wavelet::iter_sorted_u64()", || w.iter_sorted_u64().map(|i| drain(i)))?;
    lin(c, 400, kn, "Wavelet::iter_sorted()", || drain_back(w.iter_sorted()))?;
    Ok(())
}
fn tree<const B: usize>(c: &mut Ctx, b: &BM) -> R {
    let n = b.len / 2;
    let x = b.bv(Dirt::Clean);
    let t = lin(c, 60, n, "BpTree::from_bit_vector", move || BpTree::<B>::from_bit_vector(x))?;
    lin(c, 100, n, "BpBuilder", || {
        let mut t = BpBuilder::<B>::new();
        for i in 0..2 * n {
            if b.get(i) {
                t.enter_node();
            } else {
                t.leave_node();
            }
        }
        t.build().is_ok()
    })?;
    lin(c, 60, n, "BpTree::clone", || t.clone())?;
    // n steps of O(log n) each, every one with at most two scanned blocks
    let step = 150 * lg(n) as u64 + 8 * B as u64;
    lin(c, 800, n, "BpTree::iter()", || drain(t.iter()))?;
    lin(c, 800, n, "BpTree::dfs_iter()", || drain(t.dfs_iter()))?;
    lin(c, step, n, "BpTree::dfs_post_iter()", || drain(t.dfs_post_iter()))?;
    let root = t.root().unwrap();
    lin(c, 800, n, "BpTree::subtree_iter()", || drain(t.subtree_iter(root)))?;
    lin(c, step, n, "BpTree::subtree_post_iter()", || drain(t.subtree_post_iter(root)))?;
    let y = t.clone();
    lin(c, 800, n, "BpTree::into_iter()", || drain(y.into_iter()))?;
    let y = t.clone();
    lin(c, 60, n, "BpTree::into_parentheses_vec", || y.into_parentheses_vec())?;
    let fan = drain(t.children(root)) + 1;
    lin(c, step, fan, "BpTree::children()", || drain(t.children(root)))?;
    lin(c, step, fan, "BpTree::rev_children()", || drain(t.rev_children(root)))?;
    let mut depth = 1;
    let mut x = root;
    lin(c, step, n, "BpTree: leftmost path down", || {
        while let Some(y) = t.first_child(x) {
            x = y;
            depth += 1;
        }
    })?;
    lin(c, step, depth, "BpTree: path up", || {
        while let Some(y) = t.parent(x) {
            x = y;
        }
    })?;
    lin(c, step, n, "BpTree: one level", || {
        let mut x = t.level_leftmost(1);
        while let Some(y) = x {
            x = t.level_next(y);
        }
    })?;
    Ok(())
}
fn main() {
    init();
    let mut r = Runner::new("C29");
    let sizes: &'static [usize] = r.t(&[4096 + 33, (1 << 20) + 5], &[4096 + 33, 70_000, (1 << 20) + 5, 1 << 24]);
    for (name, rs) in [("bitvec", false), ("rankselect", true)] {
        r.family(name, DISTS * sizes.len() as u64, move |i, c| {
            let mut d = Dec(i);
            let n = sizes[sizes.len() - 1 - d.take(sizes.len() as u64) as usize] << if rs { 0 } else { 2 };
            let k = d.0;
            let b = dist(k, n);
            c.note(|| format!("{n} bits, distribution {k}"));
            c.visit(i);
            if rs {
                rsvec(c, &b)
            } else {
                bitvec(c, &b)
            }
        });
    }
    let lens: &'static [usize] = r.t(&[700, 200_000], &[700, 20_000, 200_000, 1 << 22]);
    r.family("eliasfano", SEQS * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = lens[lens.len() - 1 - d.take(lens.len() as u64) as usize];
        let k = d.0;
        c.note(|| format!("{n} values, sequence {k}"));
        c.visit(i);
        eliasfano(c, &seq(k, n))
    });
    let lens: &'static [usize] = r.t(&[1000, 300_000], &[1000, 30_000, 300_000, 1 << 23]);
    r.family("rmq", 5 * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = lens[lens.len() - 1 - d.take(lens.len() as u64) as usize];
        let k = d.0;
        c.note(|| format!("{n} values of kind {k}"));
        c.visit(i);
        rmq(c, k, n)
    });
    let lens: &'static [usize] = r.t(&[300, 60_000], &[300, 6000, 60_000, 1 << 21]);
    r.family("wavelet", 6 * 4 * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = lens[lens.len() - 1 - d.take(lens.len() as u64) as usize];
        let w = *d.pick(&[1u16, 4, 10, 23]);
        let k = d.0;
        c.note(|| format!("{n} symbols of {w} bits, kind {k}"));
        c.visit(i);
        wavelet(c, k, w, n)
    });
    let lens: &'static [usize] = r.t(&[700, 200_000], &[700, 5000, 200_000, 1 << 22]);
    r.family("trees", bp::SHAPES * 2 * lens.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let n = lens[lens.len() - 1 - d.take(lens.len() as u64) as usize];
        let bs = d.take(2);
        let k = d.0;
        c.note(|| format!("shape {k} of {n} nodes, block size {}", [512, 64][bs as usize]));
        c.visit(i);
        let b = bp::shape(k, n);
        if bs == 0 {
            tree::<512>(c, &b)
        } else {
            tree::<64>(c, &b)
        }
    });
    r.finish()
}
