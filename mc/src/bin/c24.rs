//! C24: space. Every structure is measured with an instrumented allocator and with its own heap_size().
use mc::model::*;
use mc::*;
use mc::{bp, ef, gen, wav};
use vers_vecs::trees::bp::{BpBuilder, BpTree};
use vers_vecs::trees::TreeBuilder;
use vers_vecs::{BinaryRmq, BitVec, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

fn words(n: usize) -> usize {
    n.div_ceil(64) * 8
}
/// documented overhead of 28 bits per 512 bits, plus a constant
fn rs_bound(n: usize) -> usize {
    words(n) + n * 28 / 512 / 8 + n / 4096 + 192
}
/// 2.5 + log2(u/n) bits per element (the exact worst case of the encoding), 28/512 of at most 3n upper bits, slack
fn ef_bound(n: usize, u: u64) -> usize {
    if n == 0 {
        return 256;
    }
    let per = 2.5 + (u as f64 / n as f64).max(1.0).log2() + 0.17;
    (n as f64 * per / 8.0) as usize + n / 512 + 256
}
fn bp_bound(n: usize, block: usize) -> usize {
    rs_bound(n) + 24 * 3 * n.div_ceil(block) + 256
}
fn lg(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}
fn bin_bound(n: usize) -> usize {
    8 * n + 4 * n * (lg(n) + 2) + 128
}
fn fast_bound(n: usize) -> usize {
    let b = n.div_ceil(128);
    8 * n + b * (64 + 4 * (lg(b) + 2)) + 512
}

trait Heap: Clone {
    fn heap(&self) -> usize;
    #[cfg(feature = "memdbg")]
    fn mem(&self) -> usize;
}
macro_rules! heap {
    ($($t:ty),*) => { $( impl Heap for $t {
        fn heap(&self) -> usize { self.heap_size() }
        #[cfg(feature = "memdbg")]
        fn mem(&self) -> usize {
            use mem_dbg::MemSize;
            self.mem_size(mem_dbg::SizeFlags::default()) - std::mem::size_of::<Self>()
        }
    } )* };
}
heap!(BitVec, RsVec, EliasFanoVec, SparseRSVec, FastRmq, BinaryRmq, WaveletMatrix);
heap!(BpTree<4>, BpTree<8>, BpTree<64>, BpTree<512>, BpTree<1024>);

/// Build with `f`, measure, and compare: reported <= bound; reported = allocated up to unused capacity.
/// `inner` is allowed for headers of nested structures, `cap` says whether the construction may leave spare room.
fn measure<T: Heap>(c: &mut Ctx, what: &str, bound: usize, inner: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let a = thread_live();
    let x = f();
    let b = thread_live();
    let y = x.clone();
    let d = thread_live();
    let (built, copy, rep) = ((b - a) as usize, (d - b) as usize, x.heap());
    drop(y);
    ck!(c, rep <= bound, "{what}: reported size {rep} exceeds the documented bound {bound}");
    ck!(c, rep <= built, "{what}: reported size {rep} exceeds what is allocated, {built}");
    ck!(c, rep <= copy + 16, "{what}: reported size {rep} exceeds what a copy without spare capacity allocates, {copy}");
    ck!(c, copy <= rep + inner + 32, "{what}: a copy without spare capacity allocates {copy}, reported are {rep}");
    ck!(c, copy <= bound + inner, "{what}: a copy allocates {copy}, more than the documented bound {bound}");
    // growing a vector at most doubles it
    ck!(c, built <= 2 * copy + inner + 256, "{what}: {built} bytes stay allocated for a content of {copy} bytes");
    #[cfg(feature = "memdbg")]
    {
        let m = x.mem();
        ck!(c, m <= copy + inner + 64 && m + inner + 64 >= copy, "{what}: mem_size gives {m}, a copy allocates {copy}");
    }
    Ok(x)
}

const EDITS: u64 = 12;
fn edit(mut b: BitVec, e: u64) -> Vec<BitVec> {
    match e {
        0 => b.append_bit(1),
        1 => b.append_word(u64::MAX),
        2 => b.append_bits(5, 63),
        3 => b.append_bits(5, 64),
        4 => b.append_bits_unchecked(1, 1),
        5 => b.drop_last(1),
        6 => b.drop_last(63),
        7 => b.drop_last(64),
        8 => {
            let o = b.clone();
            b.extend_bitvec(&o);
        }
        9 => {
            let n = b.len();
            let (x, y) = b.split_at(n / 2).expect("split");
            return vec![x, y];
        }
        10 => {
            let n = b.len();
            let (x, y) = b.split_at(n / 64 * 64).expect("split");
            return vec![y, x];
        }
        _ => b.append_bits(0, 7),
    }
    vec![b]
}

fn main() {
    let mut r = Runner::new("C24");
    let t = r.thorough;
    r.family("bitvec-build", 700 * 8, |i, c| {
        let mut d = Dec(i);
        let how = d.take(8);
        let n = d.0 as usize;
        c.note(|| format!("length {n} constructor {how}"));
        c.visit(i);
        let bits: Vec<u8> = (0..n).map(|i| (i % 3 == 0) as u8).collect();
        let limbs: Vec<u64> = vec![0x5555; n];
        let bools: Vec<bool> = bits.iter().map(|x| *x == 1).collect();
        let bound = |n: usize| words(n);
        let v = match how {
            0 => measure(c, "from_zeros", bound(n), 0, || BitVec::from_zeros(n))?,
            1 => measure(c, "from_ones", bound(n), 0, || BitVec::from_ones(n))?,
            2 => measure(c, "from_bits", bound(n), 0, || BitVec::from_bits(&bits))?,
            3 => measure(c, "from_limbs", bound(64 * n), 0, || BitVec::from_limbs(&limbs))?,
            4 => measure(c, "from_bools", bound(n), 0, || BitVec::from_bools(&bools))?,
            5 => measure(c, "pack_sequence_u64", bound(7 * n), 0, || BitVec::pack_sequence_u64(&limbs, 7))?,
            6 => measure(c, "pack_sequence_u8", bound(3 * n), 0, || BitVec::pack_sequence_u8(&bits, 3))?,
            _ => measure(c, "from_bits_iter", bound(n), 0, || BitVec::from_bits_iter(bits.iter().copied()))?,
        };
        let m = match how {
            3 => 64 * n,
            5 => 7 * n,
            6 => 3 * n,
            _ => n,
        };
        eq!(c, v.len(), m, "length");
        // reserved room is not content
        let a = thread_live();
        let e = BitVec::with_capacity(n);
        let got = (thread_live() - a) as usize;
        eq!(c, e.heap_size(), 0, "with_capacity({n}).heap_size()");
        ck!(c, got <= words(n) + 64, "with_capacity({n}) reserves {got} bytes");
        Ok(())
    });
    let depth = r.t(3u32, 4u32);
    r.family("bitvec-edits", 12 * EDITS.pow(depth), move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&[0usize, 1, 62, 63, 64, 65, 127, 128, 129, 190, 192, 200]);
        let prog: Vec<u64> = (0..depth).map(|_| d.take(EDITS)).collect();
        c.note(|| format!("length {n} edits {prog:?}"));
        c.visit(i);
        let mut b = gen::tile(6, n).bv(Dirt::Ones);
        for e in prog {
            let mut r = edit(b, e);
            for x in &r {
                let l = thread_live();
                let y = x.clone();
                let copy = (thread_live() - l) as usize;
                drop(y);
                ck!(c, x.heap_size() <= words(x.len()), "after edit {e}: {} bits occupy {} bytes", x.len(), x.heap_size());
                ck!(c, copy <= words(x.len()) + 16, "after edit {e}: a copy of {} bits allocates {copy} bytes", x.len());
                ck!(c, x.heap_size() <= copy && copy <= x.heap_size() + 16, "after edit {e}: reported {} bytes, a copy takes {copy}", x.heap_size());
            }
            b = r.remove(0);
        }
        Ok(())
    });
    for f in gen::vec_fams_small(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let b = g(i, t);
            c.note(|| format!("{b:?}"));
            c.visit_global(hash_of(&b));
            let n = b.len;
            let bv = b.bv(Dirt::Ones);
            measure(c, "BitVec", words(n), 0, || bv.clone())?;
            measure(c, "RsVec", rs_bound(n), 0, || RsVec::from_bit_vec(bv.clone()))?;
            if n <= 20_000 || c.thorough {
                let (k, z) = (b.ones(), n - b.ones());
                measure(c, "SparseRSVec", ef_bound(k, n as u64), 0, || SparseRSVec::from_bitvec(&bv))?;
                measure(c, "SparseRSVec inverted", ef_bound(z, n as u64), 0, || SparseRSVec::from_bitvec_inverted(&bv))?;
            }
            if n <= 10_000 {
                measure(c, "BpTree<8>", bp_bound(n, 8), 0, || BpTree::<8>::from_bit_vector(bv.clone()))?;
                measure(c, "BpTree<512>", bp_bound(n, 512), 0, || BpTree::<512>::from_bit_vector(bv.clone()))?;
            }
            Ok(())
        });
    }
    // one large vector per density
    r.family("huge", 12, |i, c| {
        let n = [1_000_000usize, 3_333_333][i as usize % 2];
        let p = [1usize, 2, 3, 64, 1000, 100_000][i as usize / 2];
        let mut b = BM::zeros(n);
        for i in (0..n).step_by(p) {
            b.set(i, true);
        }
        c.note(|| format!("{n} bits, every {p}th set"));
        c.visit(i);
        let rs = measure(c, "RsVec", rs_bound(n), 0, || RsVec::from_bit_vec(b.bv(Dirt::Clean)))?;
        ck!(c, rs.heap_size() as f64 <= 1.06 * (n as f64 / 8.0) + 256.0, "overhead of more than six percent");
        measure(c, "RsVec of the complement", rs_bound(n), 0, || RsVec::from_bit_vec(b.complement().bv(Dirt::Ones)))?;
        measure(c, "SparseRSVec", ef_bound(b.ones(), n as u64), 0, || SparseRSVec::from_bitvec(&b.bv(Dirt::Clean)))?;
        measure(c, "BpTree<512>", bp_bound(n, 512), 0, || BpTree::<512>::from_bit_vector(b.bv(Dirt::Clean)))?;
        Ok(())
    });
    for f in ef::seq_fams(t) {
        let g = f.f;
        r.family(&format!("ef-{}", f.name), f.count, move |i, c| {
            let v = g(i, t);
            c.note(|| format!("{v:?}"));
            c.visit_global(hash_of(&v[..]));
            let u = v.last().copied().unwrap_or(0) - v.first().copied().unwrap_or(0);
            measure(c, "EliasFanoVec", ef_bound(v.len(), u), 0, || EliasFanoVec::from_slice(&v)).map(|_| ())
        });
    }
    // the universe grows against the number of elements, around powers of two of either
    r.family("ef-universe", 12 * 3 * 52 * 3 * 3, |i, c| {
        let mut d = Dec(i);
        let n = (1usize << (d.take(12) + 4)) + d.take(3) as usize - 1;
        let e = d.take(52);
        let u = (1u64 << (e + 1)) + d.take(3) - 1;
        let kind = d.take(3);
        let v: Vec<u64> = (0..n as u64)
            .map(|i| match kind {
                0 => (i as u128 * u as u128 / (n as u128 - 1)) as u64, // even
                1 => if i + 1 == n as u64 { u } else { 0 },            // all at one end
                _ => if i == 0 { 0 } else { u },                      // all at the other
            })
            .collect();
        c.note(|| format!("{n} elements of a universe of {u}, distribution {kind}"));
        c.visit(i);
        measure(c, "EliasFanoVec", ef_bound(n, u), 0, || EliasFanoVec::from_slice(&v)).map(|_| ())
    });
    r.family("rmq", 900 * 2, |i, c| {
        let n = if i / 2 < 700 { i as usize / 2 } else { (i as usize / 2 - 699) * 331 };
        let v: Vec<u64> = (0..n as u64).map(|x| if i % 2 == 0 { x } else { x.wrapping_mul(0x9e37_79b9_7f4a_7c15) }).collect();
        c.note(|| format!("{n} elements"));
        c.visit(i);
        if n < 5000 || c.thorough {
            measure(c, "BinaryRmq", bin_bound(n), 0, || BinaryRmq::from_vec(v.clone()))?;
        }
        measure(c, "FastRmq", fast_bound(n), 0, || FastRmq::from_vec(v.clone())).map(|_| ())
    });
    for f in wav::fams(false) {
        let g = f.f;
        r.family(&format!("wav-{}", f.name), f.count, move |i, c| {
            let s = g(i, false);
            c.note(|| format!("{s:?}"));
            c.visit_global(hash_of(&s));
            let (n, k) = (s.v.len(), s.k);
            // the headers of the k inner vectors are not part of the reported size
            let inner = 160 * k + 64;
            let p = s.packed().bv(Dirt::Ones);
            let b = k * rs_bound(n) + 64;
            measure(c, "WaveletMatrix", b, inner, || WaveletMatrix::from_bit_vec(&p, k as u16))?;
            if s.fits() {
                let v = s.nums();
                measure(c, "WaveletMatrix", b, inner, || WaveletMatrix::from_slice(&v, k as u16))?;
            }
            if k <= 12 {
                measure(c, "WaveletMatrix", b, inner, || WaveletMatrix::from_bit_vec_pc(&p, k as u16))?;
            }
            Ok(())
        });
    }
    r.family("trees", bp::SHAPES * 6, |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&[0usize, 3, 50, 700, 9000, 100_000]);
        let b = bp::shape(d.0, n);
        let n = b.len;
        c.note(|| format!("{b:?}"));
        c.visit(i);
        let m = |x: usize| bp_bound(n, x);
        measure(c, "BpTree<4>", m(4), 0, || BpTree::<4>::from_bit_vector(b.bv(Dirt::Ones)))?;
        measure(c, "BpTree<64>", m(64), 0, || BpTree::<64>::from_bit_vector(b.bv(Dirt::Ones)))?;
        measure(c, "BpTree<512>", m(512), 0, || BpTree::<512>::from_bit_vector(b.bv(Dirt::Ones)))?;
        measure(c, "BpTree<1024>", m(1024), 0, || BpTree::<1024>::from_bit_vector(b.bv(Dirt::Ones)))?;
        let build = || {
            let mut bl = BpBuilder::<512>::new();
            for x in b.bools() {
                if x {
                    bl.enter_node()
                } else {
                    bl.leave_node()
                }
            }
            bl.build()
        };
        if let Ok(t) = build() {
            drop(t);
            measure(c, "BpTree<512> by its builder", m(512), 0, || build().unwrap_or_else(|_| unreachable!()))?;
        }
        Ok(())
    });
    r.finish()
}
