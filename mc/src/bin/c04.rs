//! C04: lazy and in-place masks.
use mc::gen::{mixed, string, tile, TILE_KINDS, MEGA};
use mc::model::*;
use mc::*;
use vers_vecs::BitVec;

#[derive(Clone, Copy, Debug)]
struct F(&'static str, fn(u64, u64) -> u64);
/// all sixteen bitwise functions of two arguments
const FNS: [F; 16] = [
    F("0", |_, _| 0),
    F("a&b", |a, b| a & b),
    F("a&!b", |a, b| a & !b),
    F("a", |a, _| a),
    F("!a&b", |a, b| !a & b),
    F("b", |_, b| b),
    F("a^b", |a, b| a ^ b),
    F("a|b", |a, b| a | b),
    F("!(a|b)", |a, b| !(a | b)),
    F("!(a^b)", |a, b| !(a ^ b)),
    F("!b", |_, b| !b),
    F("a|!b", |a, b| a | !b),
    F("!a", |a, _| !a),
    F("!a|b", |a, b| !a | b),
    F("!(a&b)", |a, b| !(a & b)),
    F("1", |_, _| u64::MAX),
];
fn combined(x: &BM, y: &BM, f: F) -> BM {
    let mut r = BM::zeros(x.len);
    for i in 0..x.len {
        let v = f.1(x.get(i) as u64 * u64::MAX, y.get(i) as u64 * u64::MAX);
        assert!(v == 0 || v == u64::MAX);
        r.set(i, v != 0);
    }
    r
}
macro_rules! view {
    ($c:expr, $v:expr, $m:expr, $win:expr, $what:expr) => {{
        let (c, v, m, what): (&mut Ctx, _, &BM, &str) = ($c, $v, $m, $what);
        let ones = m.ones() as u64;
        eq!(c, v.count_ones(), ones, "{what}: count_ones");
        eq!(c, v.count_zeros(), m.len as u64 - ones, "{what}: count_zeros");
        for i in 0..m.len {
            let w = m.get(i);
            eq!(c, v.get(i), Some(w as u64), "{what}: get({i})");
            eq!(c, v.get_unchecked(i), w as u64, "{what}: get_unchecked({i})");
            eq!(c, v.is_bit_set(i), Some(w), "{what}: is_bit_set({i})");
            eq!(c, v.is_bit_set_unchecked(i), w, "{what}: is_bit_set_unchecked({i})");
        }
        for p in [m.len, m.len + 1, m.len + 64, usize::MAX] {
            eq!(c, v.get(p), None, "{what}: get({p})");
            eq!(c, v.is_bit_set(p), None, "{what}: is_bit_set({p})");
        }
        for pos in 0..=m.len {
            let lens: &[usize] = if $win { &ALL } else { &[1, 2, 7, 31, 32, 33, 62, 63, 64, 65] };
            for &len in lens {
                let want = (len <= 64 && pos + len <= m.len).then(|| m.window(pos, len));
                eq!(c, v.get_bits(pos, len), want, "{what}: get_bits({pos}, {len})");
                if let Some(w) = want {
                    eq!(c, v.get_bits_unchecked(pos, len), w, "{what}: get_bits_unchecked({pos}, {len})");
                }
            }
        }
        for pos in [usize::MAX, usize::MAX - 63, m.len + 1] {
            for len in [1usize, 64] {
                eq!(c, v.get_bits(pos, len), None, "{what}: get_bits({pos}, {len})");
            }
        }
        same(c, &v.to_bit_vec(), m, what)?;
        same(c, &v.clone().to_bit_vec(), m, what)?;
        editable(c, &v.to_bit_vec(), m, what)?;
    }};
}
const ALL: [usize; 65] = {
    let mut a = [0; 65];
    let mut i = 0;
    while i < 65 {
        a[i] = i + 1;
        i += 1;
    }
    a
};
fn same(c: &mut Ctx, b: &BitVec, m: &BM, what: &str) -> R {
    eq!(c, b.len(), m.len, "{what}: len");
    eq!(c, b.count_ones(), m.ones() as u64, "{what}: count_ones");
    for i in 0..m.len {
        eq!(c, b.get(i), Some(m.get(i) as u64), "{what}: bit {i}");
    }
    ck!(c, *b == m.bv(Dirt::Clean), "{what}: not equal to {m:?}");
    Ok(())
}

fn check(c: &mut Ctx, x: &BM, y: &BM, dx: Dirt, dy: Dirt, win: bool) -> R {
    let (bx, by) = (x.bv(dx), y.bv(dy));
    let and = combined(x, y, FNS[1]);
    let or = combined(x, y, FNS[7]);
    let xor = combined(x, y, FNS[6]);
    view!(c, bx.mask_and(&by).map_err(|e| format!("mask_and: {e}"))?, &and, win, "mask_and");
    view!(c, bx.mask_or(&by).map_err(|e| format!("mask_or: {e}"))?, &or, win, "mask_or");
    view!(c, bx.mask_xor(&by).map_err(|e| format!("mask_xor: {e}"))?, &xor, win, "mask_xor");
    let mut z = bx.clone();
    ck!(c, z.apply_mask_and(&by).is_ok(), "apply_mask_and refused");
    same(c, &z, &and, "apply_mask_and")?;
    let mut z = bx.clone();
    ck!(c, z.apply_mask_or(&by).is_ok(), "apply_mask_or refused");
    same(c, &z, &or, "apply_mask_or")?;
    let mut z = bx.clone();
    ck!(c, z.apply_mask_xor(&by).is_ok(), "apply_mask_xor refused");
    same(c, &z, &xor, "apply_mask_xor")?;
    for f in FNS {
        let m = combined(x, y, f);
        let v = bx.mask_custom(&by, f.1).map_err(|e| format!("mask_custom: {e}"))?;
        if win || f.0.starts_with('!') {
            view!(c, v, &m, win, f.0);
        } else {
            same(c, &v.to_bit_vec(), &m, f.0)?;
        }
        let mut z = bx.clone();
        ck!(c, z.apply_mask_custom(&by, f.1).is_ok(), "apply_mask_custom({}) refused", f.0);
        same(c, &z, &m, f.0)?;
        // and the result can be edited
        z.append(true);
        let mut m = m;
        m.push(true);
        same(c, &z, &m, "appending to the masked vector")?;
    }
    // the operands are untouched
    same(c, &bx, x, "the left operand afterwards")?;
    same(c, &by, y, "the right operand afterwards")
}
fn mismatch(c: &mut Ctx, x: &BM, y: &BM) -> R {
    for d in DIRTS {
        let (bx, by) = (x.bv(d), y.bv(d));
        ck!(c, bx.mask_and(&by).is_err(), "mask_and accepted lengths {} and {}", x.len, y.len);
        ck!(c, bx.mask_or(&by).is_err(), "mask_or accepted lengths {} and {}", x.len, y.len);
        ck!(c, bx.mask_xor(&by).is_err(), "mask_xor accepted lengths {} and {}", x.len, y.len);
        ck!(c, bx.mask_custom(&by, |a, _| a).is_err(), "mask_custom accepted lengths {} and {}", x.len, y.len);
        let mut z = bx.clone();
        ck!(c, z.apply_mask_and(&by).is_err(), "apply_mask_and accepted lengths {} and {}", x.len, y.len);
        same(c, &z, x, "after the refused apply_mask_and")?;
        ck!(c, z.apply_mask_or(&by).is_err(), "apply_mask_or accepted lengths {} and {}", x.len, y.len);
        same(c, &z, x, "after the refused apply_mask_or")?;
        ck!(c, z.apply_mask_xor(&by).is_err(), "apply_mask_xor accepted lengths {} and {}", x.len, y.len);
        same(c, &z, x, "after the refused apply_mask_xor")?;
        ck!(c, z.apply_mask_custom(&by, |_, _| 5).is_err(), "apply_mask_custom accepted {} and {}", x.len, y.len);
        same(c, &z, x, "after the refused apply_mask_custom")?;
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C04");
    let n = r.t(5u32, 7u32);
    r.family("pairs", (0..=n).map(|k| 1u64 << (2 * k)).sum(), |i, c| {
        // all pairs of strings of equal length
        let mut i = i;
        let mut k = 0;
        while i >= 1 << (2 * k) {
            i -= 1 << (2 * k);
            k += 1;
        }
        let x = BM::from_int(i & ((1 << k) - 1), k);
        let y = BM::from_int(i >> k, k);
        c.note(|| format!("{x:?} with {y:?}"));
        c.visit_global(hash_of(&(&x, &y)));
        for dx in DIRTS {
            for dy in DIRTS {
                check(c, &x, &y, dx, dy, true)?;
            }
        }
        Ok(())
    });
    // every length, pairs of tile kinds
    let lens = r.t(133u64, 260u64);
    r.family("lengths", lens * TILE_KINDS * TILE_KINDS, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (d.take(TILE_KINDS), d.take(TILE_KINDS));
        let len = d.0 as usize;
        let (x, y) = (tile(a, len), tile(b, len));
        c.note(|| format!("{x:?} with {y:?}"));
        c.visit_global(hash_of(&(&x, &y)));
        let (dx, dy) = if i % 2 == 0 { (Dirt::Ones, Dirt::Clean) } else { (Dirt::Ones, Dirt::Ones) };
        check(c, &x, &y, dx, dy, a == 9 && b == 6)
    });
    // windows: one bit at every position against patterns, all window lengths
    r.family("onehot", 2 * 200, |i, c| {
        let mut d = Dec(i);
        let comp = d.take(2) == 1;
        let mut x = BM::zeros(200);
        x.set(d.0 as usize, true);
        if comp {
            x = x.complement();
        }
        c.note(|| format!("{x:?} with patterns"));
        for k in [1, 6] {
            let y = tile(k, 200);
            c.visit_global(hash_of(&(&x, &y)));
            check(c, &x, &y, Dirt::Ones, Dirt::Ones, true)?;
        }
        Ok(())
    });
    r.family("long", 8 * 9, |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&[511usize, 512, 513, 1024, 2047, 4096, 8193, 20_000]);
        let (a, b) = (*d.pick(&[1u64, 6, 9]), *d.pick(&[7u64, 6, 9]));
        let (x, y) = (tile(a, len), tile(b, len));
        c.note(|| format!("{x:?} with {y:?}"));
        c.visit_global(hash_of(&(&x, &y)));
        check(c, &x, &y, Dirt::Ones, Dirt::Ones, false)
    });
    r.family("mismatch", 140 * 140, |i, c| {
        let (a, b) = ((i % 140) as usize, (i / 140) as usize);
        if a == b {
            return Ok(());
        }
        c.note(|| format!("lengths {a} and {b}"));
        c.visit(i);
        mismatch(c, &tile(6, a), &tile(1, b))
    });
    r.family("mismatchstrings", 127 * 127, |i, c| {
        let (x, y) = (string(i % 127), string(i / 127));
        if x.len == y.len {
            return Ok(());
        }
        c.note(|| format!("{x:?} with {y:?}"));
        c.visit(i);
        mismatch(c, &x, &y)
    });
    r.family("mega", MEGA.len() as u64 * FNS.len() as u64, |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&MEGA);
        let f = *d.pick(&FNS);
        c.note(|| format!("{len} mixed bits, {}", f.0));
        c.visit(i);
        let (x, y) = (mixed(len, 4), mixed(len, 5));
        let (bx, by) = (x.bv(Dirt::Ones), y.bv(Dirt::Ones));
        let m = combined(&x, &y, f);
        macro_rules! probe {
            ($v:expr, $what:expr) => {{
                let (v, what) = ($v.map_err(|e| format!("{}: {e}", $what))?, $what);
                eq!(c, v.count_ones(), m.ones() as u64, "{what}: count_ones");
                eq!(c, v.count_zeros(), (len - m.ones()) as u64, "{what}: count_zeros");
                for i in (0..len).step_by(61).chain(65_400..65_600.min(len)).chain(len - 100..len) {
                    eq!(c, v.get(i), Some(m.get(i) as u64), "{what}: get({i})");
                    eq!(c, v.is_bit_set(i), Some(m.get(i)), "{what}: is_bit_set({i})");
                    for n in [1usize, 5, 32, 63, 64] {
                        let want = (i + n <= len).then(|| m.window(i, n));
                        eq!(c, v.get_bits(i, n), want, "{what}: get_bits({i}, {n})");
                    }
                }
                same(c, &v.to_bit_vec(), &m, what)?;
            }};
        }
        probe!(bx.mask_custom(&by, f.1), f.0);
        let mut z = bx.clone();
        ck!(c, z.apply_mask_custom(&by, f.1).is_ok(), "apply_mask_custom refused");
        same(c, &z, &m, "apply_mask_custom")?;
        let mut z = bx.clone();
        let ok = match f.0 {
            "a&b" => {
                probe!(bx.mask_and(&by), "mask_and");
                z.apply_mask_and(&by)
            }
            "a|b" => {
                probe!(bx.mask_or(&by), "mask_or");
                z.apply_mask_or(&by)
            }
            "a^b" => {
                probe!(bx.mask_xor(&by), "mask_xor");
                z.apply_mask_xor(&by)
            }
            _ => return Ok(()),
        };
        ck!(c, ok.is_ok(), "in place {} refused", f.0);
        same(c, &z, &m, "in place")
    });
    // beyond 2^32 bits
    r.family("giga", 8, |i, c| {
        use mc::giga::Giga;
        let _p = mc::giga::permit();
        // the second pair: nearly all ones and nearly all zeros, so that counts exceed 2^32 as well
        let (a, b) = [(3, 2), (1, 0)][(i / 4) as usize];
        let i = i % 4;
        c.note(|| format!("giga, operator {i}, kinds {a} and {b}"));
        c.visit(a * 8 + i);
        let (g, h) = (Giga::kind(a), Giga::kind(b));
        let len = g.len.min(h.len);
        let cut = |g: &Giga| {
            let mut b = g.bv();
            b.drop_last(g.len - len);
            b
        };
        let (mut x, y) = (cut(&g), cut(&h));
        let f = |a: u64, b: u64| match i {
            0 => a | b,
            1 => a & b,
            2 => a ^ b,
            _ => a & !b,
        };
        // counted from the words of the description
        let (gw, hw) = (g.words(), h.words());
        let mut ones = 0u64;
        for k in 0..len.div_ceil(64) {
            let m = if k == len / 64 { (1u64 << (len % 64)) - 1 } else { u64::MAX };
            ones += (f(gw[k], hw[k]) & m).count_ones() as u64;
        }
        drop((gw, hw));
        let want = |p: usize, l: usize| f(g.window(p, l), h.window(p, l)) & if l == 64 { u64::MAX } else { (1 << l) - 1 };
        let mut spots = g.spots();
        spots.extend(h.spots());
        spots.retain(|&p| p + 64 <= len);
        spots.extend(len - 64..len);
        macro_rules! lazy {
            ($m:expr) => {{
                let m = $m;
                eq!(c, (m.count_ones(), m.count_zeros()), (ones, len as u64 - ones), "lazy counts");
                for &p in &spots {
                    let l = (len - p).min(64);
                    eq!(c, m.get(p), Some(want(p, 1)), "lazy get({p})");
                    eq!(c, m.is_bit_set(p), Some(want(p, 1) == 1), "lazy is_bit_set({p})");
                    eq!(c, m.get_bits(p, l), Some(want(p, l)), "lazy get_bits({p}, {l})");
                    eq!(c, m.get_bits(p, l - l / 3), Some(want(p, l - l / 3)), "lazy get_bits({p}, {})", l - l / 3);
                }
                eq!(c, m.get(len), None, "lazy get at the end");
                m.to_bit_vec()
            }};
        }
        let out = match i {
            0 => lazy!(x.mask_or(&y).unwrap()),
            1 => lazy!(x.mask_and(&y).unwrap()),
            2 => lazy!(x.mask_xor(&y).unwrap()),
            _ => lazy!(x.mask_custom(&y, |a, b| a & !b).unwrap()),
        };
        match i {
            0 => x.apply_mask_or(&y).unwrap(),
            1 => x.apply_mask_and(&y).unwrap(),
            2 => x.apply_mask_xor(&y).unwrap(),
            _ => x.apply_mask_custom(&y, |a, b| a & !b).unwrap(),
        }
        for (b, what) in [(&out, "to_bit_vec"), (&x, "apply")] {
            eq!(c, b.len(), len, "{what}: len");
            eq!(c, (b.count_ones(), b.count_zeros()), (ones, len as u64 - ones), "{what}: counts");
            for &p in &spots {
                let l = (len - p).min(64);
                eq!(c, b.get_bits(p, l), Some(want(p, l)), "{what}: get_bits({p}, {l})");
            }
        }
        ck!(c, out == x, "to_bit_vec and apply differ");
        Ok(())
    });
    r.finish()
}
