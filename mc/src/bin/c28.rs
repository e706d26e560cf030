//! C28: what is asked of the allocator. Reserved capacity suffices, extending reallocates at most once, queries need
//! only constant scratch memory and leave nothing behind, everything is released.
use mc::gen::{tile, vec_fams, TILE_KINDS};
use mc::model::*;
use mc::*;
use std::hint::black_box;
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree, TreeBuilder};
use vers_vecs::{BinaryRmq, BitVec, BpBuilder, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

/// Scratch memory that a query may use, whatever the size of the structure.
const SCRATCH: usize = 4096;

/// Queries: run twice, the second run is judged (a table made on first use is nobody's business).
fn queries(c: &mut Ctx, what: &str, none: bool, f: impl Fn() -> u64) -> R {
    let (a, _) = heap_use(&f);
    let (b, u) = heap_use(&f);
    ck!(c, a == b, "{what}: different answers, {a} and {b}");
    ck!(c, u.kept == 0, "{what}: {} bytes stay allocated after the queries", u.kept);
    ck!(c, u.peak <= SCRATCH, "{what}: the queries need {} bytes of scratch memory", u.peak);
    ck!(c, !none || u.calls == 0, "{what}: the queries allocate ({} times)", u.calls);
    Ok(())
}
/// A whole life: afterwards the heap is as before.
fn life(c: &mut Ctx, what: &str, f: impl Fn()) -> R {
    f();
    let (_, u) = heap_use(&f);
    ck!(c, u.kept == 0, "{what}: {} bytes are never released", u.kept);
    Ok(())
}
fn at(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=24).map(|i| n * i / 24).collect();
    v.extend([1, 2, 63, 64, 65, 511, 512, 513, 8191, 8192, 8193]);
    v.extend([n.wrapping_sub(1), n + 1, n + 64, usize::MAX]);
    v.sort_unstable();
    v.dedup();
    v
}
fn o(x: Option<usize>) -> u64 {
    x.map_or(7, |x| x as u64)
}
fn p(x: Option<u64>) -> u64 {
    x.unwrap_or(7) % 1_000_003
}
fn total(it: impl Iterator<Item = u64>) -> u64 {
    it.fold(0, |a, x| a.wrapping_mul(31).wrapping_add(x))
}

fn vectors(c: &mut Ctx, b: &BM, dirt: Dirt) -> R {
    let bv = b.bv(dirt);
    let other = b.complement().bv(dirt);
    let same = bv.clone();
    let n = b.len;
    let probes = at(n);
    let inside: Vec<usize> = probes.iter().copied().filter(|&x| x < n).collect();
    queries(c, "BitVec reads", false, || {
        total(probes.iter().map(|&x| p(bv.get(x)) + p(bv.get_bits(x, 33)) + p(bv.get_bits(x, 64)) + p(bv.unpack_element(x % 5000, 13)) + bv.is_bit_set(x).is_some() as u64))
    })?;
    queries(c, "BitVec counts, comparison and iteration", false, || {
        bv.count_ones() + bv.count_zeros() + (bv == same) as u64 + (bv == other) as u64 + hash_of(&bv) % 1000 + total(bv.iter()) % 1000
            + total(bv.iter().rev()) % 1000 + total(bv.iter_limbs().take(n / 64)) % 1000 + p(bv.iter().nth(n / 2))
    })?;
    queries(c, "lazy masks", false, || {
        let (x, y, z) = (bv.mask_and(&other).unwrap(), bv.mask_or(&other).unwrap(), bv.mask_xor(&other).unwrap());
        let w = bv.mask_custom(&other, |a, b| a & !b).unwrap();
        total(probes.iter().map(|&i| p(x.get(i)) + p(y.get(i)) + p(z.get_bits(i, 64)) + p(w.get_bits(i, 17)) + z.is_bit_set(i).is_some() as u64))
            + x.count_ones() + y.count_zeros() + z.count_ones() + w.count_zeros()
    })?;
    let mut x = bv.clone();
    let mut masks = || {
        x.apply_mask_and(&other).unwrap();
        x.apply_mask_or(&other).unwrap();
        x.apply_mask_xor(&same).unwrap();
        x.apply_mask_custom(&other, |a, b| a ^ b).unwrap();
        if n > 0 {
            x.set(n / 2, 1).unwrap();
            x.flip_bit(n - 1);
        }
    };
    masks();
    let (_, u) = heap_use(masks);
    ck!(c, u.peak <= SCRATCH && u.kept <= 0, "masks applied in place: {u:?}");
    let rs = RsVec::from_bit_vec(bv.clone());
    let rs2 = RsVec::from_bit_vec(other.clone());
    queries(c, "RsVec queries", false, || {
        total(probes.iter().map(|&x| {
            let s = (rs.rank1(x) + rs.rank0(x)) as u64 + p(rs.get(x)) + p(rs.get_bits(x, 64));
            s.wrapping_add(rs.select1(x) as u64).wrapping_add(rs.select0(x) as u64)
        }))
    })?;
    queries(c, "RsVec iterators", false, || {
        let mut s = total(rs.iter()) ^ total(rs.iter1().map(|x| x as u64)) ^ total(rs.iter0().map(|x| x as u64));
        s ^= total(rs.iter1().rev().map(|x| x as u64)) ^ total(rs.iter0().rev().map(|x| x as u64));
        #[cfg(all(feature = "simd", target_feature = "avx512bw", target_feature = "avx512f"))]
        {
            s ^= total(rs.bit_set_iter1().map(|x| x as u64)) ^ total(rs.bit_set_iter0().map(|x| x as u64));
        }
        s ^ o(rs.iter1().nth(n / 3)) ^ o(rs.iter0().nth_back(n / 7))
    })?;
    queries(c, "RsVec comparison", false, || {
        (rs == rs2) as u64 + 2 * (rs == rs) as u64 + 4 * rs.full_equals(&rs2) as u64
            + 8 * rs.sparse_equals::<true>(&rs) as u64 + 16 * rs.sparse_equals::<false>(&rs2) as u64
    })?;
    if b.ones() > 0 {
        let sp = SparseRSVec::from_bitvec(&bv);
        queries(c, "SparseRSVec queries", false, || {
            total(inside.iter().map(|&x| p(sp.get(x as u64)) + sp.rank1(x as u64) + sp.rank0(x as u64)))
                ^ total((0..b.ones()).step_by(b.ones() / 20 + 1).map(|k| sp.select1(k)))
                ^ total(sp.iter1())
        })?;
    }
    life(c, "bit vectors", || {
        let v = b.bv(dirt);
        let v = black_box(v.clone());
        let mut it = v.clone().into_iter();
        black_box((it.next(), it.next_back(), it.nth(1)));
        let m = v.mask_xor(&other).unwrap().to_bit_vec();
        black_box(v.mask_xor(&m).unwrap().count_ones());
        let _ = black_box(v.mask_and(&BitVec::from_zeros(n + 1)).is_err());
        let _ = black_box(v.clone().split_at(n + 1).is_err());
        let (mut x, y) = v.split_at(n / 2).unwrap();
        x.extend_bitvec(&y);
        x.drop_last(n / 3);
        let r = RsVec::from_bit_vec(x);
        let mut it = r.clone().into_iter();
        black_box((it.next(), it.next_back()));
        let mut it = r.clone().into_iter1();
        black_box((it.next(), it.next_back()));
        let mut it = r.clone().into_iter0();
        black_box((it.next(), it.next_back()));
        let v = r.into_bit_vec();
        let s = SparseRSVec::from_bitvec_inverted(&v);
        black_box(s.clone());
    })
}

fn tree<const B: usize>(c: &mut Ctx, b: &BM) -> R {
    let t = BpTree::<B>::from_bit_vector(b.bv(Dirt::Clean));
    let opens: Vec<usize> = (0..b.len).filter(|&i| b.get(i)).collect();
    let nodes: Vec<usize> = opens.iter().copied().step_by(opens.len() / 40 + 1).chain(opens.last().copied()).collect();
    queries(c, "tree navigation", false, || {
        total(nodes.iter().map(|&n| {
            let i = n / 3;
            [
                o(t.root()), o(t.parent(n)), o(t.first_child(n)), o(t.last_child(n)), o(t.next_sibling(n)), o(t.previous_sibling(n)),
                t.is_leaf(n) as u64, t.depth(n), t.size() as u64, o(t.close(n)), o(t.close(n).and_then(|x| t.open(x))), o(t.enclose(n)),
                o(t.level_ancestor(n, 1)), o(t.level_next(n)), o(t.level_prev(n)), o(t.level_leftmost(2)), o(t.level_rightmost(2)),
                o(t.subtree_size(n)), t.is_ancestor(nodes[0], n).is_some() as u64, o(t.fwd_search(i, -1)), o(t.bwd_search(i, -1)),
                t.excess(n) as u64, t.node_index(n) as u64, t.node_handle(t.node_index(n)) as u64,
            ]
            .into_iter()
            .fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(x))
        }))
    })?;
    queries(c, "tree iterators", false, || {
        total(nodes.iter().take(5).map(|&n| t.children(n).take(500).count() as u64 + t.rev_children(n).take(500).count() as u64))
            ^ total(t.dfs_iter().map(|x| x as u64)) ^ total(t.dfs_post_iter().map(|x| x as u64)) ^ total(t.iter().map(|x| x as u64))
            ^ total(nodes.iter().take(5).map(|&n| total(t.subtree_iter(n).map(|x| x as u64)) ^ total(t.subtree_post_iter(n).map(|x| x as u64))))
    })?;
    // a builder with room for all nodes
    let walk = b.bools();
    let mut d = BpBuilder::<B>::with_capacity(opens.len() as u64);
    let (_, u) = heap_use(|| {
        for &w in &walk {
            if w {
                d.enter_node()
            } else {
                d.leave_node()
            }
        }
    });
    ck!(c, u.calls == 0, "a builder with capacity for {} nodes reallocates: {u:?}", opens.len());
    life(c, "trees", || {
        let mut d = BpBuilder::<B>::new();
        for &w in &walk {
            if w {
                d.enter_node()
            } else {
                d.leave_node()
            }
        }
        let mut bad = BpBuilder::<B>::new();
        bad.enter_node();
        assert!(bad.build().is_err());
        let t = d.build().unwrap();
        black_box(t.clone().into_iter().take(3).count());
        let v: BitVec = t.clone().into();
        let r = t.into_parentheses_vec();
        black_box((v, r));
    })
}

fn main() {
    let mut r = Runner::new("C28");
    let t = r.thorough;
    // ---- capacity: filled to the last bit in every way, no further allocation
    const FILLS: u64 = 12;
    let mut caps: Vec<usize> = (0..=700).collect();
    for b in [1000usize, 1024, 4096, 8192, 65_536, 100_000] {
        caps.extend([b - 1, b, b + 1, b + 63, b + 64, b + 65]);
    }
    let nc = caps.len() as u64;
    r.family("capacity", nc * FILLS, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&caps);
        let how = d.take(FILLS);
        c.note(|| format!("capacity {n} filled in way {how}"));
        c.visit(i);
        let piece = tile(9, 61).bv(Dirt::Ones);
        let mut v = BitVec::with_capacity(n);
        let ((), u) = heap_use(|| {
            let mut k = 0u64;
            while v.len() < n {
                let left = n - v.len();
                k += 1;
                match how {
                    0 => v.append(k % 2 == 0),
                    1 => v.append_bit(k),
                    2 => v.append_bit_u8(k as u8),
                    3 => v.append_bits(u64::MAX, left.min(64)),
                    4 => v.append_bits(u64::MAX >> 1, left.min(63)),
                    5 => v.append_bits(k, left.min(1 + (k % 64) as usize)),
                    6 => v.append_bits_unchecked(0, left.min(7)),
                    7 if left >= 64 => v.append_word(k),
                    8 if left >= 65 => {
                        v.append_bit(1);
                        v.append_word(u64::MAX)
                    }
                    9 if left >= 61 => v.extend_bitvec(&piece),
                    10 if left >= 128 => {
                        v.append_word(k);
                        v.append_bits(k, 33);
                        v.append_bits(k, 31)
                    }
                    11 if left >= 61 => v.extend([&piece]),
                    _ => v.append(true),
                }
            }
        });
        eq!(c, v.len(), n, "length after filling");
        ck!(c, u.calls == 0, "with_capacity({n}), filled with {n} bits in way {how}: reallocated {} times", u.calls);
        Ok(())
    });
    // ---- the same for capacities up to beyond 2^32 bits
    let caps: Vec<usize> = vec![1 << 20, (1 << 24) + 1, (1 << 27) + 63, (1 << 31) + 64, (1 << 32) - 1, 1 << 32, (1 << 32) + 65, (1 << 33) + 1];
    let nc = caps.len() as u64;
    r.family("giga-capacity", nc * 5, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&caps);
        let how = d.take(5);
        c.note(|| format!("capacity {n} filled in way {how}"));
        c.visit(i);
        let piece = BitVec::from_ones(if how == 3 { (n / 5).min(1 << 29) } else { 1 });
        let tail = BitVec::from_ones(if how == 4 { n - n / 2 } else { 0 });
        let mut v = if how == 4 { BitVec::from_zeros(n / 2) } else { BitVec::with_capacity(n) };
        let ((), u) = heap_use(|| {
            if how == 4 {
                v.extend_bitvec(&tail);
            }
            while v.len() < n {
                let left = n - v.len();
                match how {
                    0 => v.append_bits(u64::MAX, left.min(64)),
                    1 if left >= 64 => v.append_word(7),
                    2 if left >= 64 => v.append_bits_unchecked(3, 61),
                    3 if left >= piece.len() => v.extend_bitvec(&piece),
                    _ => v.append(true),
                }
            }
        });
        eq!(c, v.len(), n, "length after filling");
        if how == 4 {
            ck!(c, u.calls <= 1, "extend_bitvec of {} bits by {} reallocates {} times", n / 2, tail.len(), u.calls);
        } else {
            ck!(c, u.calls == 0, "with_capacity({n}), filled with {n} bits in way {how}: reallocated {} times", u.calls);
        }
        Ok(())
    });
    // ---- builders that announce many nodes
    r.family("giga-builder", 5, move |i, c| {
        let n = [1u64 << 20, (1 << 24) + 1, (1 << 31) + 33, 1 << 32, (1 << 32) + 65][i as usize];
        c.note(|| format!("builder for {n} nodes"));
        c.visit(i);
        let (mut b, made) = heap_use(|| BpBuilder::<512>::with_capacity(n));
        // what is not reserved at once has to be allocated later
        ck!(c, made.kept as u64 >= n / 4, "builder for {n} nodes reserves only {} bytes", made.kept);
        if n > 1 << 25 {
            return Ok(());
        }
        let ((), u) = heap_use(|| {
            for _ in 0..n {
                b.enter_node();
            }
            for _ in 0..n {
                b.leave_node();
            }
        });
        ck!(c, u.calls == 0, "builder with capacity {n} reallocated {} times for a path of {n} nodes", u.calls);
        Ok(())
    });
    // ---- extending by a vector: at most one reallocation
    let lens: Vec<usize> = (0..=130).chain([191, 192, 193, 511, 512, 513, 1000, 4095, 4096, 4097, 20_000]).collect();
    let nl = lens.len() as u64;
    r.family("extend", nl * nl * 4, move |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.pick(&lens), *d.pick(&lens));
        let spare = d.take(4);
        c.note(|| format!("{a} bits extended by {b}, kind {spare}"));
        c.visit(i);
        let x = tile(6, b).bv(if spare % 2 == 0 { Dirt::Clean } else { Dirt::Ones });
        let mut v = match spare {
            0 => tile(9, a).bv(Dirt::Clean).clone(),
            1 => tile(9, a).bv(Dirt::Ones),
            2 => {
                let mut v = BitVec::with_capacity(a + b);
                v.append_bits(1, a.min(7));
                for _ in 7..a {
                    v.append(true);
                }
                v
            }
            _ => {
                let mut v = BitVec::from_ones(a + 65);
                v.drop_last(65);
                v
            }
        };
        let ((), u) = heap_use(|| v.extend_bitvec(&x));
        eq!(c, v.len(), a + b, "length after extending");
        ck!(c, u.calls <= u64::from(spare != 2), "extend_bitvec of {a} bits by {b} reallocates {} times", u.calls);
        Ok(())
    });
    // ---- queries and lives of all vectors
    for f in vec_fams(t) {
        let g = f.f;
        let thin = if t { 6 } else { 16 };
        r.family(f.name, f.count.div_ceil(thin), move |i, c| {
            let b = g(i * thin, t);
            let d = DIRTS[(i % 2) as usize];
            c.note(|| format!("{d:?} {b:?}"));
            c.visit_global(hash_of(&(&b, d as u8)));
            vectors(c, &b, d)
        });
    }
    r.family("long", TILE_KINDS * 3, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&[200_000usize, 262_144, 1_000_001]);
        let b = tile(d.0, n);
        c.note(|| format!("{b:?}"));
        c.visit_global(hash_of(&(&b, 9u8)));
        vectors(c, &b, Dirt::Ones)
    });
    // ---- Elias-Fano
    for f in mc::ef::seq_fams(t) {
        let g = f.f;
        let thin = if t { 1 } else { 4 };
        r.family(&format!("elias-fano-{}", f.name), f.count.div_ceil(thin), move |i, c| {
            let v = g(i * thin, t);
            c.note(|| format!("{} elements {:?}", v.len(), &v[..v.len().min(20)]));
            c.visit(i);
            let e = EliasFanoVec::from_slice(&v);
            let mut q = mc::ef::queries(&v);
            q.truncate(400);
            queries(c, "EliasFanoVec queries", false, || {
                total(q.iter().map(|&x| e.rank(x).wrapping_add(p(e.predecessor(x))).wrapping_add(p(e.successor(x)))))
                    ^ total((0..v.len()).step_by(v.len() / 50 + 1).map(|i| p(e.get(i)) ^ p(e.delta(i))))
                    ^ total(e.iter()) ^ total(e.iter().rev())
            })?;
            life(c, "EliasFanoVec", || {
                let e = EliasFanoVec::from_slice(&v);
                let mut it = e.clone().into_iter();
                black_box((it.next(), it.next_back(), it.nth(2)));
                black_box(e);
            })
        });
    }
    // ---- range minimum
    r.family("rmq", 300 * 4 + 12, move |i, c| {
        let mut d = Dec(i);
        let k = d.take(4);
        let n = 1 + if d.0 < 300 { d.0 as usize } else { [999usize, 20_000, 99_999][d.0 as usize - 300] };
        let v: Vec<u64> = (0..n as u64).map(|i| [i, n as u64 - i, i * 37 % 101, i ^ 0x55][k as usize]).collect();
        c.note(|| format!("{n} values of kind {k}"));
        c.visit(i);
        let (b, f) = (BinaryRmq::from_vec(v.clone()), FastRmq::from_vec(v.clone()));
        let e: Vec<usize> = at(n).into_iter().filter(|&x| x < n).collect();
        queries(c, "RMQ", false, || {
            let mut s = 0u64;
            for &i in &e {
                for &j in &e {
                    if i <= j {
                        s = s.wrapping_mul(31) ^ (b.range_min(i, j) + f.range_min(i, j)) as u64 ^ (b.range_min_with_range(i..=j) + f.range_min_with_range(i..j + 1)) as u64;
                    }
                }
            }
            s ^ total(b.iter().copied()) ^ total(f.iter().copied())
        })?;
        life(c, "RMQ", || {
            black_box((BinaryRmq::from_vec(v.clone()), FastRmq::from_vec(v.clone()).clone(), v.iter().copied().collect::<FastRmq>()));
        })
    });
    // ---- wavelet matrices
    for f in mc::wav::fams(t) {
        let g = f.f;
        let thin = if t { 1 } else { 4 };
        r.family(&format!("wavelet-{}", f.name), f.count.div_ceil(thin), move |i, c| {
            let s = g(i * thin, t);
            let (k, n) = (s.k, s.v.len());
            c.note(|| format!("{n} symbols of {k} bits"));
            c.visit(i);
            let packed = s.packed().bv(Dirt::Clean);
            let w = WaveletMatrix::from_bit_vec(&packed, k as u16);
            let mut e = mc::wav::ends(n);
            if e.len() > 12 {
                e = e.iter().copied().step_by(e.len() / 6).chain([n]).collect();
            }
            let syms: Vec<mc::wav::Sym> = s.symbols().into_iter().take(8).collect();
            if k <= 64 {
                let nums: Vec<u64> = syms.iter().map(mc::wav::num).collect();
                queries(c, "wavelet queries with u64", true, || {
                    let mut h = 0u64;
                    let mut put = |x: u64| h = h.wrapping_mul(31).wrapping_add(x);
                    for &i in &e {
                        put(p(w.get_u64(i)));
                        for &y in &nums {
                            put(o(w.rank_u64(i, y)) ^ o(w.rank_offset_u64(i / 2, i, y)) ^ o(w.select_u64(i, y)) ^ o(w.select_offset_u64(i / 2, i / 3, y)));
                        }
                        for &j in &e {
                            if i < j {
                                put(p(w.quantile_u64(i..j, (j - i) / 2)) ^ p(w.range_min_u64(i..j)) ^ p(w.range_max_u64(i..j)) ^ p(w.range_median_u64(i..j)));
                                for &y in &nums {
                                    put(o(w.rank_range_u64(i..j, y)) ^ p(w.predecessor_u64(i..j, y)) ^ p(w.successor_u64(i..j, y)));
                                }
                            }
                        }
                    }
                    for x in w.iter_u64().unwrap().take(300).chain(w.iter_sorted_u64().unwrap().take(300)) {
                        put(x);
                    }
                    h
                })?;
            }
            life(c, "wavelet matrices", || {
                let w = WaveletMatrix::from_bit_vec(&packed, k as u16);
                black_box((w.clone().into_iter().take(3).count(), w.iter_sorted().take(3).count()));
                for y in &syms {
                    let y = mc::wav::bv(y);
                    black_box((w.rank(n, &y), w.select(0, &y), w.predecessor(0..n, &y), w.successor(0..n, &y)));
                }
                if k <= 64 {
                    black_box(w.clone().into_iter_u64().map(|it| it.take(3).count()));
                }
                black_box(w);
            })
        });
    }
    // documented memory needs of the two constructions: linear, and 2^k words
    r.family("wavelet-construction", 8 * 4 * 4, move |i, c| {
        let mut d = Dec(i);
        let k = *d.pick(&[1u16, 2, 3, 4, 6, 8, 10, 12]);
        let n = *d.pick(&[1000usize, 4096, 50_000, 200_000]);
        let kind = d.take(4);
        let m = (1u64 << k) - 1;
        let v: Vec<u64> = (0..n as u64).map(|i| [0, i, i * i, m][kind as usize] & m).collect();
        c.note(|| format!("{n} symbols of {k} bits, kind {kind}"));
        c.visit(i);
        let packed = BitVec::pack_sequence_u64(&v, k as usize);
        let content = n * k as usize / 8;
        let linear = 4 * content + 40 * n + 4096 + 512 * k as usize;
        let table = 4 * content + 64 * (1usize << k) + 4096 + 512 * k as usize;
        for (what, limit, f) in [
            ("from_bit_vec", linear, &(|| WaveletMatrix::from_bit_vec(&packed, k)) as &dyn Fn() -> WaveletMatrix),
            ("from_slice", linear, &|| WaveletMatrix::from_slice(&v, k)),
            ("from_bit_vec_pc", table, &|| WaveletMatrix::from_bit_vec_pc(&packed, k)),
            ("from_slice_pc", table, &|| WaveletMatrix::from_slice_pc(&v, k)),
        ] {
            let (w, u) = heap_use(f);
            eq!(c, w.len(), n, "length");
            ck!(c, u.peak <= limit, "{what} of {n} symbols of {k} bits needs {} bytes during construction (more than {limit})", u.peak);
        }
        Ok(())
    });
    // ---- trees
    r.family("trees", mc::bp::SHAPES * 26, move |i, c| {
        let mut d = Dec(i);
        let kind = d.take(mc::bp::SHAPES);
        let n = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000, 60_000][d.0 as usize];
        let b = mc::bp::shape(kind, n);
        c.note(|| format!("{b:?}"));
        c.visit_global(hash_of(&(&b, 11u8)));
        tree::<8>(c, &b)?;
        tree::<64>(c, &b)?;
        tree::<512>(c, &b)
    });
    r.finish()
}
