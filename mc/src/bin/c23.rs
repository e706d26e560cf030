//! C23: writing a structure with serde and reading it back, within one build and across builds.
use mc::bp::{self, AnyBp};
use mc::model::*;
use mc::*;
use mc::{ef, gen, ser, wav};
use serde::{de::DeserializeOwned, Serialize};
use std::hash::Hash;
use std::path::PathBuf;
use std::sync::OnceLock;
use vers_vecs::trees::bp::BpTree;
use vers_vecs::{BinaryRmq, BitVec, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

/// directory for the exchange between builds and the name of this build
static DIR: OnceLock<Option<(PathBuf, String)>> = OnceLock::new();

/// A sink of observations.
#[derive(Default)]
struct O {
    h: H,
    n: u64,
}
impl O {
    fn p<T: Hash>(&mut self, t: T) {
        t.hash(&mut self.h);
        self.n += 1;
    }
}
type Obs<'a, T> = dyn Fn(&T, &mut O) + 'a;

/// Write, read, compare every observation. `tag` names the file used for the exchange with the other builds.
fn round<T: Serialize + DeserializeOwned>(c: &mut Ctx, x: &T, tag: Option<String>, f: &Obs<'_, T>) -> Result<[T; 2], String> {
    let mut o = O::default();
    f(x, &mut o);
    let want = o.h.0;
    let js = serde_json::to_string(x).map_err(|e| format!("cannot be written as JSON: {e}"))?;
    let by = ser::to_bytes(x).map_err(|e| format!("cannot be written in binary: {e}"))?;
    let cmp = |c: &mut Ctx, y: &T, how: &str| -> R {
        let mut o = O::default();
        f(y, &mut o);
        c.tick(o.n);
        if o.h.0 != want {
            return Err(format!("{how}: the structure read back answers differently"));
        }
        Ok(())
    };
    let y: T = serde_json::from_str(&js).map_err(|e| format!("cannot be read back from JSON: {e}"))?;
    cmp(c, &y, "JSON")?;
    let z: T = ser::from_bytes(&by).map_err(|e| format!("cannot be read back from binary: {e}"))?;
    cmp(c, &z, "binary")?;
    if let (Some(tag), Some((dir, me))) = (tag, DIR.get().and_then(|d| d.as_ref())) {
        let file = |who: &str| dir.join(format!("{who}.{tag}"));
        let packed = serde_json::to_vec(&(want, js, by)).unwrap();
        std::fs::write(file(me), packed).map_err(|e| format!("exchange: {e}"))?;
        for who in ["scalar-dbg-serde", "simd-rel-serde"] {
            if who != me {
                if let Ok(d) = std::fs::read(file(who)) {
                    let (w, js, by): (u64, String, Vec<u8>) = serde_json::from_slice(&d).map_err(|e| format!("exchange: {e}"))?;
                    if w != want {
                        return Err(format!("build {who} answers differently about the same content"));
                    }
                    let y: T = serde_json::from_str(&js).map_err(|e| format!("JSON of build {who} cannot be read: {e}"))?;
                    cmp(c, &y, &format!("JSON written by build {who}"))?;
                    let z: T = ser::from_bytes(&by).map_err(|e| format!("binary of build {who} cannot be read: {e}"))?;
                    cmp(c, &z, &format!("binary written by build {who}"))?;
                }
            }
        }
    }
    Ok([y, z])
}

// ---------------------------------------------------------------- observations
fn o_bv(b: &BitVec, o: &mut O) {
    o.p(b.len());
    o.p(b.is_empty());
    o.p(b.count_ones());
    o.p(b.count_zeros());
    for i in 0..b.len() + 2 {
        o.p(b.get(i));
    }
    for i in (0..b.len()).step_by(if b.len() > 200 { 37 } else { 1 }) {
        for l in [1usize, 9, 63, 64] {
            o.p(b.get_bits(i, l));
        }
    }
    o.p(b.iter().collect::<Vec<_>>());
    o.p(b.iter().rev().collect::<Vec<_>>());
}
fn o_rs(r: &RsVec, o: &mut O) {
    let n = r.len();
    let st = n / 700 + 1;
    o.p(n);
    for i in (0..n + 2).step_by(st).chain([n, n + 1]) {
        o.p((r.rank0(i), r.rank1(i), r.get(i)));
        o.p(r.get_bits(i, 33));
    }
    for i in (0..n + 2).step_by(st) {
        o.p((r.select0(i), r.select1(i)));
    }
    for x in r.iter0().chain(r.iter1()) {
        o.p(x);
    }
    o.p(r.iter0().next_back());
    o.p(r.iter1().next_back());
    o.p(r.iter().collect::<Vec<_>>());
    o.p(RsVec::from_bit_vec(r.clone().into_bit_vec()) == *r);
}
fn o_ef(v: &EliasFanoVec, o: &mut O) {
    o.p(v.len());
    o.p(v.is_empty());
    let vals: Vec<u64> = v.iter().collect();
    for i in 0..v.len() + 2 {
        o.p((v.get(i), v.delta(i)));
    }
    for q in ef::queries(&vals) {
        o.p((v.predecessor(q), v.successor(q), v.rank(q)));
    }
    o.p(v.iter().rev().collect::<Vec<_>>());
    o.p(vals);
}
fn o_sp(v: &SparseRSVec, o: &mut O) {
    o.p((v.len(), v.is_empty()));
    for i in 0..v.len() + 2 {
        o.p((v.get(i), v.is_set(i)));
    }
    for i in 0..=v.len() {
        o.p((v.rank0(i), v.rank1(i)));
    }
    let l: Vec<u64> = v.iter1().collect();
    for i in 0..l.len() {
        o.p(v.select1(i));
    }
    o.p(l);
}
fn o_fast(v: &FastRmq, o: &mut O) {
    o.p((v.len(), v.is_empty()));
    for i in 0..v.len() {
        o.p(v[i]);
        for j in (i..v.len()).step_by(v.len() / 60 + 1) {
            o.p(v.range_min(i, j));
        }
    }
}
fn o_bin(v: &BinaryRmq, o: &mut O) {
    o.p((v.len(), v.is_empty()));
    for i in 0..v.len() {
        o.p(v[i]);
        for j in (i..v.len()).step_by(v.len() / 60 + 1) {
            o.p(v.range_min(i, j));
        }
    }
}
fn o_wav(w: &WaveletMatrix, s: &wav::Seq, o: &mut O) {
    o.p((w.len(), w.is_empty(), w.bit_len()));
    let n = w.len();
    let e = wav::ends(n);
    for i in (0..n + 2).step_by(n / 200 + 1) {
        o.p((w.get_u64(i), w.get_sorted_u64(i)));
        if let Some(x) = w.get_value(i) {
            o.p(x.iter().collect::<Vec<_>>());
        }
    }
    for x in s.symbols() {
        let b = wav::bv(&x);
        for &i in &e {
            o.p((w.rank(i, &b), w.select(i, &b)));
            o.p((w.rank_offset(i, n, &b), w.select_offset(i / 2, i / 3, &b)));
        }
    }
    for &i in &e {
        for &j in e.iter().step_by(2) {
            o.p((w.range_min_u64(i..j), w.range_max_u64(i..j), w.range_median_u64(i..j)));
            o.p(w.quantile_u64(i..j, 1));
            if s.fits() {
                o.p((w.predecessor_u64(i..j, 3), w.successor_u64(i..j, 3)));
            }
        }
    }
}
fn o_bp(t: &dyn AnyBp, o: &mut O) {
    o.p((t.size(), t.is_empty(), t.root()));
    let v = t.to_bv();
    o_bv(&v, o);
    let n = v.len();
    let st = n / 150 + 1;
    for i in (0..n).step_by(st) {
        for r in [-9i64, -2, -1, 0, 1, 2, 9] {
            o.p((t.fwd(i, r), t.bwd(i, r)));
        }
        o.p((t.open(i), t.close(i), t.enclose(i), t.excess(i)));
    }
    for h in (0..n).filter(|&i| v.get(i) == Some(1)).step_by(st) {
        o.p((t.parent(h), t.first_child(h), t.last_child(h), t.next_sibling(h), t.previous_sibling(h)));
        o.p((t.is_leaf(h), t.depth(h), t.node_index(h), t.subtree_size(h), t.level_next(h), t.level_prev(h)));
        o.p((t.level_ancestor(h, 1), t.level_ancestor(h, 2), t.is_ancestor(h, h)));
    }
    for l in 0..9 {
        o.p((t.level_leftmost(l), t.level_rightmost(l)));
    }
    o.p(t.dfs_iter().take(3 * n + 4).collect::<Vec<_>>());
}
fn bp_round<const B: usize>(c: &mut Ctx, b: &BM, d: Dirt, tag: Option<String>) -> R {
    let t = BpTree::<B>::from_bit_vector(b.bv(d));
    round(c, &t, tag, &|t: &BpTree<B>, o: &mut O| o_bp(t, o)).map(|_| ()).map_err(|e| format!("BpTree<{B}>: {e}"))
}
fn bp_any(c: &mut Ctx, b: &BM, d: Dirt, tag: &dyn Fn(usize) -> Option<String>) -> R {
    bp_round::<4>(c, b, d, tag(4))?;
    bp_round::<8>(c, b, d, tag(8))?;
    bp_round::<65>(c, b, d, tag(65))?;
    bp_round::<512>(c, b, d, tag(512))
}
fn none(_: usize) -> Option<String> {
    None
}

// ---------------------------------------------------------------- edits after reading
const EDITS: u64 = 14;
fn edit(b: &mut BitVec, m: &mut BM, e: u64) {
    let pad = |m: &mut BM, v: u64, n: usize| {
        for i in 0..n {
            m.push((v >> i) & 1 == 1);
        }
    };
    match e {
        0 => {
            b.append_bit(1);
            m.push(true);
        }
        1 => {
            b.append(false);
            m.push(false);
        }
        2 => {
            b.append_word(0xF0F0_1234_8000_0001);
            pad(m, 0xF0F0_1234_8000_0001, 64);
        }
        3 => {
            b.append_bits(0b1011, 5);
            pad(m, 0b1011, 5);
        }
        4 => {
            b.drop_last(1);
            let n = m.len.saturating_sub(1);
            m.truncate(n);
        }
        5 => {
            b.drop_last(63);
            let n = m.len.saturating_sub(63);
            m.truncate(n);
        }
        6 => {
            if m.len > 0 {
                let x = m.get(0);
                b.flip_bit(0);
                m.set(0, !x);
            }
        }
        7 => {
            if m.len > 0 {
                let l = m.len - 1;
                let _ = b.set(l, 1);
                m.set(l, true);
            }
        }
        8 => {
            let o = b.clone();
            b.extend_bitvec(&o);
            let o = m.clone();
            m.extend(&o);
        }
        9 => {
            if m.len < 130 {
                b.append_bits(u64::MAX, 64);
                pad(m, u64::MAX, 64);
            }
        }
        10 => {
            if m.len > 64 {
                let (x, y) = b.clone().split_at(64).expect("split");
                *b = y;
                b.extend_bitvec(&x);
                let all = m.bools();
                *m = BM::from_bools(&[&all[64..], &all[..64]].concat());
            }
        }
        11 => {
            let o = m.complement().bv(Dirt::Ones);
            b.apply_mask_xor(&o).expect("same length");
            *m = BM { w: vec![u64::MAX; m.w.len()], len: m.w.len() * 64 }.truncate(m.len).clone();
        }
        12 => {
            b.append_bits(1, 1);
            b.append_bits(0, 3);
            pad(m, 1, 4);
        }
        _ => {
            b.drop_last(usize::MAX);
            m.truncate(0);
        }
    }
}
fn o_m(m: &BM, o: &mut O) {
    // what o_bv observes of a vector with this content
    o_bv(&BitVec::from_bits_iter(m.bools()), o)
}

fn main() {
    let mut r = Runner::new("C23");
    let _ = DIR.set(r.opt("--dir").map(|d| (PathBuf::from(d), r.opt("--me").expect("--me"))));
    // families whose names start with x- are also exchanged between the builds
    let lens = [0usize, 1, 2, 63, 64, 65, 127, 128, 200, 511, 512, 513, 1100, 8191, 8192, 8193, 17000];
    r.family("x-vectors", lens.len() as u64 * gen::TILE_KINDS * 2, move |i, c| {
        let mut d = Dec(i);
        let dirt = *d.pick(&DIRTS);
        let n = *d.pick(&lens);
        let b = gen::tile(d.0, n);
        c.note(|| format!("{dirt:?} {b:?}"));
        c.visit(i);
        round(c, &b.bv(dirt), Some(format!("bv{i}")), &o_bv).map_err(|e| format!("BitVec: {e}"))?;
        let rs = RsVec::from_bit_vec(b.bv(dirt));
        let back = round(c, &rs, Some(format!("rs{i}")), &o_rs).map_err(|e| format!("RsVec: {e}"))?;
        for y in back {
            ck!(c, y == rs && rs == y, "RsVec read back is not equal to the one written");
            ck!(c, y.sparse_equals::<true>(&rs) && y.sparse_equals::<false>(&rs) && y.full_equals(&rs), "equality after reading");
        }
        if n <= 1100 {
            let s = SparseRSVec::from_bitvec(&b.bv(dirt));
            round(c, &s, Some(format!("sp{i}")), &o_sp).map_err(|e| format!("SparseRSVec: {e}"))?;
        }
        Ok(())
    });
    r.family("x-trees", bp::SHAPES * 4 * 2, |i, c| {
        let mut d = Dec(i);
        let dirt = *d.pick(&DIRTS);
        let n = *d.pick(&[1usize, 9, 40, 700]);
        let b = bp::shape(d.0, n);
        c.note(|| format!("{b:?}"));
        c.visit(i);
        bp_any(c, &b, dirt, &|k| Some(format!("bp{k}-{i}")))
    });
    r.family("x-numbers", 4 * 12, |i, c| {
        let mut d = Dec(i);
        let kind = d.take(4);
        let n = [0usize, 1, 2, 3, 64, 127, 128, 129, 255, 256, 257, 400][d.0 as usize];
        let v: Vec<u64> = (0..n as u64)
            .map(|i| match kind {
                0 => 7,
                1 => i % 5,
                2 => u64::MAX - i / 3,
                _ => i.wrapping_mul(0x9e37_79b9_7f4a_7c15),
            })
            .collect();
        c.note(|| format!("length {n} kind {kind}"));
        c.visit(i);
        if n > 0 {
            round(c, &FastRmq::from_vec(v.clone()), Some(format!("fast{i}")), &o_fast).map_err(|e| format!("FastRmq: {e}"))?;
            round(c, &BinaryRmq::from_vec(v.clone()), Some(format!("bin{i}")), &o_bin).map_err(|e| format!("BinaryRmq: {e}"))?;
        } else {
            let f = quiet(|| FastRmq::from_vec(vec![]));
            if let Ok(f) = f {
                round(c, &f, Some("fast-empty".into()), &o_fast).map_err(|e| format!("FastRmq: {e}"))?;
            }
            let f = quiet(|| BinaryRmq::from_vec(vec![]));
            if let Ok(f) = f {
                round(c, &f, Some("bin-empty".into()), &o_bin).map_err(|e| format!("BinaryRmq: {e}"))?;
            }
        }
        let mut s = v.clone();
        s.sort();
        round(c, &EliasFanoVec::from_slice(&s), Some(format!("ef{i}")), &o_ef).map_err(|e| format!("EliasFanoVec: {e}"))?;
        for k in [1u16, 3, 8] {
            let q = wav::Seq { k: k as usize, v: v.iter().map(|x| wav::sym(k as usize, *x)).collect() };
            let w = WaveletMatrix::from_slice(&q.nums(), k);
            round(c, &w, Some(format!("wav{k}-{i}")), &|w: &WaveletMatrix, o: &mut O| o_wav(w, &q, o))
                .map_err(|e| format!("WaveletMatrix: {e}"))?;
        }
        Ok(())
    });
    // ------------------------------------------------------------ within one build, exhaustively
    let n = r.t(10u32, 13u32);
    r.family("strings", gen::strings_upto(n), move |i, c| {
        let b = gen::string(i);
        c.note(|| format!("{b:?}"));
        c.visit(i);
        for d in DIRTS {
            let v = b.bv(d);
            for y in round(c, &v, None, &o_bv).map_err(|e| format!("BitVec: {e}"))? {
                ck!(c, y == v && hash_of(&y) == hash_of(&v), "the vector read back differs from the one written");
            }
            round(c, &RsVec::from_bit_vec(b.bv(d)), None, &o_rs).map_err(|e| format!("RsVec: {e}"))?;
        }
        round(c, &SparseRSVec::from_bitvec(&b.bv(Dirt::Ones)), None, &o_sp).map_err(|e| format!("SparseRSVec: {e}"))?;
        round(c, &SparseRSVec::from_bitvec_inverted(&b.bv(Dirt::Ones)), None, &o_sp).map_err(|e| format!("SparseRSVec: {e}"))?;
        Ok(())
    });
    // histories: edit, write, read, edit
    let he = r.t(2u32, 3u32);
    r.family("edits", 12 * EDITS.pow(he) * 2, move |i, c| {
        let mut d = Dec(i);
        let before = d.take(2) == 1;
        let n = *d.pick(&[0usize, 1, 63, 64, 65, 130]);
        let kind = d.take(2);
        let mut m = gen::tile([6u64, 1][kind as usize], n);
        let mut v = m.bv(Dirt::Ones);
        let prog: Vec<u64> = (0..he).map(|_| d.take(EDITS)).collect();
        c.note(|| format!("{m:?} edits {prog:?} before the first write: {before}"));
        c.visit(i);
        for (k, e) in prog.into_iter().enumerate() {
            if !before || k > 0 {
                let [x, _] = round(c, &v, None, &o_bv).map_err(|e| format!("BitVec: {e}"))?;
                v = x;
            }
            edit(&mut v, &mut m, e);
        }
        let [x, y] = round(c, &v, None, &o_bv).map_err(|e| format!("BitVec: {e}"))?;
        let mut want = O::default();
        o_m(&m, &mut want);
        for mut z in [v, x, y] {
            let mut o = O::default();
            o_bv(&z, &mut o);
            ck!(c, o.h.0 == want.h.0, "edited vector does not hold the expected content {m:?}");
            let mut mm = m.clone();
            edit(&mut z, &mut mm, 12);
            let (mut o, mut w) = (O::default(), O::default());
            o_bv(&z, &mut o);
            o_m(&mm, &mut w);
            ck!(c, o.h.0 == w.h.0, "appending after reading: content is not {mm:?}");
        }
        Ok(())
    });
    for f in ef::seq_fams(false) {
        let g = f.f;
        if f.name == "large" {
            continue;
        }
        let th = 1;
        r.family(&format!("ef-{}", f.name), f.count.div_ceil(th), move |i, c| {
            let v = g(i * th, false);
            c.note(|| format!("{v:?}"));
            c.visit(i);
            round(c, &EliasFanoVec::from_slice(&v), None, &o_ef).map(|_| ()).map_err(|e| format!("EliasFanoVec: {e}"))
        });
    }
    r.family("rmq", (0..=7u32).map(|n| 4u64.pow(n)).sum(), |i, c| {
        let (mut i, mut n) = (i, 0u32);
        while i >= 4u64.pow(n) {
            i -= 4u64.pow(n);
            n += 1;
        }
        let mut d = Dec(i);
        let v: Vec<u64> = (0..n).map(|_| *d.pick(&[0u64, 1, 2, u64::MAX])).collect();
        c.note(|| format!("{v:?}"));
        c.visit(hash_of(&v));
        if n > 0 {
            round(c, &FastRmq::from_vec(v.clone()), None, &o_fast).map_err(|e| format!("FastRmq: {e}"))?;
            round(c, &BinaryRmq::from_vec(v), None, &o_bin).map_err(|e| format!("BinaryRmq: {e}"))?;
        }
        Ok(())
    });
    for f in wav::fams(false) {
        let g = f.f;
        let th = 1;
        r.family(&format!("wav-{}", f.name), f.count.div_ceil(th), move |i, c| {
            let s = g(i * th, false);
            c.note(|| format!("{s:?}"));
            c.visit(i);
            for (how, w) in s.builds() {
                round(c, &w, None, &|w: &WaveletMatrix, o: &mut O| o_wav(w, &s, o)).map_err(|e| format!("WaveletMatrix by {how}: {e}"))?;
            }
            Ok(())
        });
    }
    let n = r.t(10u32, 13u32);
    r.family("bp", gen::strings_upto(n), |i, c| {
        let b = bp::string(i);
        c.note(|| format!("{b:?}"));
        c.visit(i);
        bp_any(c, &b, DIRTS[(i % 2) as usize], &none)
    });
    r.finish()
}
