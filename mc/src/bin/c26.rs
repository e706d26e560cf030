//! C26: no call of the (safe) API touches memory outside of the structure's buffers, whatever the arguments.
//!
//! Every buffer is fenced by an inaccessible page (`guard.rs`); the exploration kills the process on the first load or
//! store outside. Answers are not judged here (C01..C20 do that) and a panic is a legal answer to a wrong argument.
use mc::gen::vec_fams;
use mc::guard::{guarded, Edge};
use mc::model::*;
use mc::*;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vers_vecs::{BitVec, EliasFanoVec, RsVec, SparseRSVec, WaveletMatrix};

/// A call that may panic, but must stay inside of its memory.
fn may<T>(c: &mut Ctx, f: impl FnOnce() -> T) {
    c.transitions += 1;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        black_box(f());
    }));
}

fn positions(len: usize) -> Vec<usize> {
    let mut v = vec![];
    for b in [0usize, 64, 512, 8192, len & !63, len & !511, len & !8191] {
        for d in [0usize, 1, 2, 31, 48, 63] {
            v.push(b + d);
            v.push(b.wrapping_sub(d));
        }
    }
    for d in [0usize, 1, 2, 15, 16, 17, 62, 63, 64, 65, 127, 128, 511, 512, 8191, 8192, 1 << 20, 1 << 32] {
        v.push(len + d);
        v.push(len.wrapping_sub(d));
    }
    v.extend([usize::MAX, usize::MAX - 1, usize::MAX - 63, usize::MAX - 64, usize::MAX / 2, 1 << 63, 1 << 58]);
    v.sort_unstable();
    v.dedup();
    v
}

fn bit_vector(c: &mut Ctx, e: Edge, b: &BM, dirt: Dirt) {
    let v = guarded(e, || b.bv(dirt));
    let v = guarded(e, || v.clone());
    let w = guarded(e, || v.clone());
    for p in positions(b.len) {
        may(c, || v.get(p));
        may(c, || v.get_unchecked(p));
        may(c, || v.is_bit_set_unchecked(p));
        for n in [0usize, 1, 7, 16, 33, 63, 64] {
            may(c, || v.get_bits(p, n));
            may(c, || v.get_bits_unchecked(p, n));
            may(c, || v.unpack_element(p, n));
            may(c, || v.unpack_element_unchecked(p, n));
        }
        may(c, || v.get_bits(p, 65));
        may(c, || v.get_bits_unchecked(p, 65));
        may(c, || guarded(e, || w.clone()).set_unchecked(p, 1));
        may(c, || guarded(e, || w.clone()).flip_bit_unchecked(p));
        if p <= b.len {
            may(c, || guarded(e, || w.clone().split_at_unchecked(p)));
        }
        may(c, || guarded(e, || { let mut x = w.clone(); x.drop_last(p); x.append_bits_unchecked(5, 64); x.len() }));
    }
    may(c, || v.iter().count() + v.iter().rev().count());
    may(c, || v.count_ones());
    may(c, || v == w);
    may(c, || v.mask_xor(&w).map(|m| (m.get_bits_unchecked(b.len, 64), m.count_ones(), m.to_bit_vec())));
    may(c, || v.iter_limbs().sum::<u64>());
}

fn rank_select(c: &mut Ctx, e: Edge, b: &BM, dirt: Dirt, all: bool, wrong: bool) {
    let rs = guarded(e, || RsVec::from_bit_vec(b.bv(dirt)));
    // the clone's buffers are exactly as long as what they hold
    let rs = guarded(e, || rs.clone());
    c.visit_global(hash_of(&(b, dirt as u8)));
    let ones = b.ones();
    let zeros = b.len - ones;
    let step = |n: usize| if all || n < 4096 { 1 } else { n / 2048 };
    for k in (0..ones).step_by(step(ones)) {
        may(c, || rs.select1(k));
    }
    for k in (0..zeros).step_by(step(zeros)) {
        may(c, || rs.select0(k));
    }
    for p in (0..=b.len).step_by(step(b.len)) {
        may(c, || rs.rank1(p));
        may(c, || rs.rank0(p));
    }
    let args = if wrong { [positions(b.len), positions(ones), positions(zeros)].concat() } else { vec![] };
    for p in args {
        may(c, || rs.select1(p));
        may(c, || rs.select0(p));
        may(c, || rs.rank1(p));
        may(c, || rs.rank0(p));
        may(c, || rs.get(p));
        may(c, || rs.get_unchecked(p));
        for n in [0usize, 1, 16, 33, 64, 65] {
            may(c, || rs.get_bits(p, n));
            may(c, || rs.get_bits_unchecked(p, n));
        }
        may(c, || rs.iter1().nth(p));
        may(c, || rs.iter0().nth(p));
        may(c, || rs.iter1().nth_back(p));
        may(c, || rs.iter0().nth_back(p));
    }
    may(c, || rs.iter1().map(|x| x as u64).sum::<u64>());
    may(c, || rs.iter0().map(|x| x as u64).sum::<u64>());
    may(c, || rs.iter1().rev().map(|x| x as u64).sum::<u64>());
    may(c, || rs.iter0().rev().map(|x| x as u64).sum::<u64>());
    #[cfg(all(feature = "simd", target_feature = "avx512bw", target_feature = "avx512f"))]
    {
        // the iterator holds its buffer itself, so it is put into a fenced block as well
        may(c, || { let mut i = guarded(e, || Box::new(rs.bit_set_iter1())); let mut n = 0; while i.next().is_some() { n += 1; } (n, i.next()) });
        may(c, || { let mut i = guarded(e, || Box::new(rs.bit_set_iter0())); let mut n = 0; while i.next().is_some() { n += 1; } (n, i.next()) });
    }
    may(c, || rs.sparse_equals::<true>(&rs) & rs.sparse_equals::<false>(&rs) & rs.full_equals(&rs));
    may(c, || guarded(e, || rs.clone().into_bit_vec()).count_ones());
}

fn derived(c: &mut Ctx, e: Edge, b: &BM) {
    let pos: Vec<u64> = (0..b.len).filter(|&i| b.get(i)).map(|i| i as u64).collect();
    let ef = guarded(e, || EliasFanoVec::from_slice(&pos));
    let ef = guarded(e, || ef.clone());
    let bv = b.bv(Dirt::Clean);
    let sp = guarded(e, || SparseRSVec::from_bitvec(&bv));
    for p in positions(b.len).into_iter().chain(positions(pos.len())) {
        let q = p as u64;
        may(c, || ef.get(p));
        may(c, || ef.get_unchecked(p));
        may(c, || ef.delta(p));
        may(c, || ef.rank(q));
        may(c, || ef.predecessor(q));
        may(c, || ef.predecessor_unchecked(q));
        may(c, || ef.successor(q));
        may(c, || ef.successor_unchecked(q));
        may(c, || sp.is_set_unchecked(q));
        may(c, || sp.rank1(q));
        may(c, || sp.select1(p));
    }
    may(c, || ef.iter().count() + ef.iter().rev().count());
    for k in [1u16, 3, 8] {
        if b.len % k as usize != 0 {
            continue;
        }
        let m = guarded(e, || WaveletMatrix::from_bit_vec(&bv, k));
        let m = guarded(e, || m.clone());
        let n = b.len / k as usize;
        for p in positions(n) {
            may(c, || m.get_u64(p));
            may(c, || m.get_u64_unchecked(p));
            may(c, || m.rank_u64_unchecked(p, 1));
            may(c, || m.select_u64_unchecked(p, 1));
            may(c, || m.select_u64(p, 1));
            may(c, || m.quantile_u64_unchecked(0..n, p));
            may(c, || m.quantile_u64_unchecked(p..n, 0));
            may(c, || m.predecessor_u64(0..p, 1));
        }
    }
}

fn main() {
    if !mc::guard::init() {
        eprintln!("the address space for the fences could not be reserved");
        std::process::exit(2);
    }
    let mut r = Runner::new("C26");
    let t = r.thorough;
    // the fences work: a block ends (begins) exactly at the edge
    for e in [Edge::End, Edge::Start] {
        let v = guarded(e, || vec![7u16; 33]);
        let a = v.as_ptr() as usize;
        assert!(if e == Edge::End { (a + 66) % 4096 == 0 } else { a % 4096 == 0 }, "no fence");
    }
    for f in vec_fams(t) {
        let g = f.f;
        r.family(f.name, f.count * 2, move |i, c| {
            let b = g(i / 2, t);
            let e = if i % 2 == 0 { Edge::End } else { Edge::Start };
            let d = DIRTS[((i / 2) % 2) as usize];
            c.note(|| format!("{e:?} {d:?} {b:?}"));
            // wrong arguments: all structures in the thorough tier, every eighth in the quick one
            rank_select(c, e, &b, d, t, t || (i / 2) % 8 == 0);
            Ok(())
        });
    }
    for f in vec_fams(t) {
        let g = f.f;
        let thin = if t { 4 } else { 32 };
        r.family(&format!("other-{}", f.name), f.count.div_ceil(thin) * 2, move |i, c| {
            let b = g((i / 2) * thin, t);
            let e = if i % 2 == 0 { Edge::End } else { Edge::Start };
            let d = DIRTS[((i / 2) % 2) as usize];
            c.note(|| format!("{e:?} {d:?} {b:?}"));
            c.visit_global(hash_of(&(&b, 7u8)));
            bit_vector(c, e, &b, d);
            derived(c, e, &b);
            Ok(())
        });
    }
    r.finish()
}
