//! C03: equality and hash of bit vectors, for pairs produced by different histories.
use mc::gen::{mixed, string, strings_upto, tile, TILE_KINDS, MEGA};
use mc::model::*;
use mc::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use vers_vecs::BitVec;

const HISTORIES: usize = 14;
/// Vectors with the content of `m`, made in different ways; they differ in spare words, stale bits, capacity.
fn made(m: &BM, how: usize) -> BitVec {
    let n = m.len;
    match how {
        0 => m.bv(Dirt::Clean),
        1 => m.bv(Dirt::Ones),
        2 => BitVec::from_bools(&m.bools()),
        3 => {
            // truncated from a longer one that continues with the complement
            let mut x = m.clone();
            x.extend(&tile(1, 200));
            let mut b = x.bv(Dirt::Clean);
            b.drop_last(200);
            b
        }
        4 => {
            let mut x = m.clone();
            x.extend(&tile(6, 64));
            let mut b = x.bv(Dirt::Ones);
            b.drop_last(64);
            b
        }
        5 => {
            // junk in the appended words
            let mut b = BitVec::new();
            for (i, &w) in m.w.iter().enumerate() {
                let k = (n - i * 64).min(64);
                let junk = if k < 64 { u64::MAX << k } else { 0 };
                b.append_bits(w | junk, k);
            }
            b
        }
        6 => m.bv(Dirt::Ones).split_at(n).map(|x| x.0).unwrap(),
        7 => {
            let mut x = tile(1, 37);
            x.extend(m);
            x.bv(Dirt::Ones).split_at(37).map(|x| x.1).unwrap()
        }
        8 => {
            let mut x = m.clone();
            x.extend(&tile(1, 91));
            x.bv(Dirt::Ones).split_at(n).map(|x| x.0).unwrap()
        }
        9 => {
            let mut b = m.bv(Dirt::Ones);
            b.append(true);
            b.drop_last(1);
            b.append_word(u64::MAX);
            b.drop_last(64);
            b
        }
        10 => {
            let mut b = m.complement().bv(Dirt::Ones);
            b.apply_mask_custom(&tile(6, n).bv(Dirt::Clean), |a, _| !a).unwrap();
            b
        }
        11 => {
            let mut b = m.bv(Dirt::Ones);
            b.append_bits(u64::MAX, 0);
            b.append_bits_unchecked(u64::MAX, 0);
            b
        }
        12 => {
            let mut b = BitVec::with_capacity(n * 3 + 1000);
            b.extend_bitvec(&m.bv(Dirt::Ones));
            b
        }
        _ => {
            let mut b = BitVec::new();
            for i in 0..n {
                b.append(!m.get(i));
            }
            for i in 0..n {
                b.flip_bit(i);
            }
            b.clone()
        }
    }
}
fn std_hash(b: &BitVec) -> u64 {
    let mut h = DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
fn pair(c: &mut Ctx, x: &BitVec, y: &BitVec, same: bool, what: &str) -> R {
    eq!(c, x == y, same, "{what}: x == y");
    eq!(c, y == x, same, "{what}: y == x");
    eq!(c, x != y, !same, "{what}: x != y");
    if same {
        eq!(c, std_hash(x), std_hash(y), "{what}: hashes of equal vectors");
        eq!(c, hash_of(x), hash_of(y), "{what}: hashes of equal vectors (second hasher)");
        // as part of a larger key
        eq!(c, hash_of(&(x, 5u8)), hash_of(&(y, 5u8)), "{what}: hashes of pairs");
    }
    Ok(())
}
fn all_histories(c: &mut Ctx, m: &BM) -> R {
    let v: Vec<BitVec> = (0..HISTORIES).map(|h| made(m, h)).collect();
    for (i, x) in v.iter().enumerate() {
        for (j, y) in v.iter().enumerate() {
            pair(c, x, y, true, &format!("histories {i} and {j}"))?;
        }
    }
    let set: HashSet<&BitVec> = v.iter().collect();
    eq!(c, set.len(), 1, "number of distinct keys among equal vectors");
    Ok(())
}

fn main() {
    let mut r = Runner::new("C03");
    r.family("histories", strings_upto(r.t(10, 14)), |i, c| {
        let m = string(i);
        c.note(|| format!("{m:?} made by all histories"));
        c.visit_global(m.key());
        all_histories(c, &m)
    });
    r.family("lengths", 330 * TILE_KINDS, |i, c| {
        let mut d = Dec(i);
        let k = d.take(TILE_KINDS);
        let m = tile(k, d.0 as usize);
        c.note(|| format!("{m:?} made by all histories"));
        c.visit_global(m.key());
        all_histories(c, &m)
    });
    // all pairs of short strings, clean against dirty
    let n = r.t(7, 9);
    let s = strings_upto(n);
    r.family("pairs", s * s, move |i, c| {
        let (a, b) = (i % s, i / s);
        let (x, y) = (string(a), string(b));
        c.note(|| format!("{x:?} and {y:?}"));
        c.visit(i);
        for (h, g) in [(0, 0), (1, 0), (1, 1), (3, 5)] {
            pair(c, &made(&x, h), &made(&y, g), a == b, &format!("histories {h} and {g}"))?;
        }
        Ok(())
    });
    // a difference in exactly one bit, at every position; and in the length only
    r.family("flips", 330 * TILE_KINDS, |i, c| {
        let mut d = Dec(i);
        let k = d.take(TILE_KINDS);
        let m = tile(k, d.0 as usize);
        c.note(|| format!("{m:?} against each single-bit change"));
        c.visit(i);
        let base = [made(&m, 0), made(&m, 1), made(&m, 4)];
        for p in 0..m.len {
            let mut y = m.clone();
            y.set(p, !m.get(p));
            let y = y.bv(Dirt::Ones);
            for (h, x) in base.iter().enumerate() {
                pair(c, x, &y, false, &format!("kind {h}, bit {p} flipped"))?;
            }
        }
        for extra in [1usize, 63, 64, 65, 128] {
            for b in [false, true] {
                let mut y = m.clone();
                y.run(b, extra);
                for (h, x) in base.iter().enumerate() {
                    pair(c, x, &y.bv(Dirt::Ones), false, &format!("kind {h}, {extra} bits longer"))?;
                }
            }
        }
        Ok(())
    });
    r.family("long", 5 * TILE_KINDS, |i, c| {
        let mut d = Dec(i);
        let k = d.take(TILE_KINDS);
        let len = *d.pick(&[1024usize, 4096, 8192, 8193, 65_537]);
        let m = tile(k, len);
        c.note(|| format!("{m:?}"));
        c.visit(i);
        all_histories(c, &m)?;
        let x = made(&m, 1);
        for w in 0..m.w.len() {
            let mut y = m.clone();
            let p = (w * 64 + 63).min(len - 1);
            y.set(p, !m.get(p));
            pair(c, &x, &y.bv(Dirt::Ones), false, &format!("bit {p} flipped"))?;
        }
        Ok(())
    });
    r.family("mega", MEGA.len() as u64 * HISTORIES as u64, |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&MEGA);
        let how = d.0 as usize;
        c.note(|| format!("{len} mixed bits, made by history {how}"));
        c.visit(i);
        let m = mixed(len, 3);
        let (x, y) = (made(&m, how), made(&m, (how + 1) % HISTORIES));
        pair(c, &x, &y, true, "two histories")?;
        pair(c, &x, &m.bv(Dirt::Clean), true, "and afresh")?;
        // one bit flipped: at every power of two and its neighbours, at the ends, and evenly spread
        let mut at = vec![0, 1, len - 1, len - 2, len - 65];
        for e in 5..=20 {
            at.extend([(1usize << e) - 1, 1 << e, (1 << e) + 1]);
        }
        at.extend((0..20).map(|k| k * (len / 20)));
        for p in at {
            if p < len {
                let mut z = y.clone();
                z.flip_bit(p);
                pair(c, &x, &z, false, &format!("bit {p} flipped"))?;
            }
        }
        for d in [1usize, 64, 65_536] {
            let mut z = y.clone();
            z.drop_last(d);
            pair(c, &x, &z, false, &format!("{d} bits shorter"))?;
        }
        Ok(())
    });
    // beyond 2^32 bits: the same bits from different histories, and one difference
    r.family("giga", 3, |i, c| {
        use mc::giga::{Giga, G32};
        let _p = mc::giga::permit();
        let g = Giga::kind([2, 3, 4][i as usize]);
        c.note(|| format!("giga kind {}", [2, 3, 4][i as usize]));
        c.visit(i);
        let a = g.bv();
        let mut b = BitVec::from_limbs(&g.words());
        b.append_word(u64::MAX);
        b.drop_last(b.len() - g.len);
        eq!(c, a == b, true, "{} equal bits", g.len);
        eq!(c, hash_of(&a) == hash_of(&b), true, "hashes of {} equal bits", g.len);
        for p in [0, (1 << 31) + 3, G32 - 1, G32, G32 + 65_536, g.len - 1] {
            b.flip_bit(p);
            eq!(c, a == b, false, "equality in spite of a difference at {p}");
            eq!(c, a != b, true, "inequality with a difference at {p}");
            b.flip_bit(p);
        }
        let d = a.clone();
        eq!(c, d == b, true, "clone");
        b.drop_last(1);
        eq!(c, a == b, false, "equality with a shorter one");
        let mut e = BitVec::from_zeros(9);
        e.clone_from(&a);
        eq!(c, e == d, true, "clone_from");
        Ok(())
    });
    r.finish()
}
