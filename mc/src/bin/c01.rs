//! C01: every edit history of a bit vector against a plain list of bits.
//!
//! Depth-first exploration of all operation sequences from every seed. A node is one reached vector (raw words,
//! stale bits included, and length); nodes reached again with no more remaining depth are not expanded twice.
use mc::gen::{mixed, tile, MEGA};
use mc::model::*;
use mc::*;
use std::collections::HashMap;
use vers_vecs::BitVec;

const J: u64 = 0xdead_beef_f00d_cafd;
const A: u64 = 0x5555_5555_5555_5555;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Append(bool),
    AppendBit(u64),
    Bit32(u32),
    Bit16(u16),
    Bit8(u8),
    Word(u64),
    Bits(u64, usize),
    /// only where the documentation allows it: no stale bits behind the end
    BitsUnchecked(u64, usize),
    Drop(usize),
    /// drop so that the given number of bits is left over the last multiple of 64
    DropTo(usize),
    Clear,
    Set(Pos, u64),
    SetErr(usize, u64),
    Flip(Pos),
    FlipUnchecked(Pos),
    /// extend by a vector of this length and tile kind, with stale ones behind its end
    Extend(usize, u64),
    ExtendOwned(usize, u64),
    ExtendMany(usize),
    ExtendSelf,
    SplitLeft(Cut),
    SplitRight(Cut),
    SplitJoin(Cut),
    SplitErr(usize),
    MaskAnd(u64),
    MaskOr(u64),
    MaskXor(u64),
    MaskNand(u64),
    MaskErr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pos {
    First,
    Last,
    WordLast,
    WordFirst,
    /// past the first 2^16 bits
    Mid,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    /// from the front
    At(usize),
    /// from the back
    Back(usize),
}
use Op::*;

const FULL: &[Op] = &[
    Append(true),
    Append(false),
    AppendBit(2),
    AppendBit(u64::MAX),
    Bit32(3),
    Bit16(0xfffe),
    Bit8(0xff),
    Word(J),
    Word(0),
    Bits(0, 0),
    Bits(J, 0),
    Bits(J, 1),
    Bits(0, 1),
    Bits(J, 7),
    Bits(u64::MAX, 33),
    Bits(A, 63),
    Bits(J, 64),
    BitsUnchecked(5, 3),
    BitsUnchecked(0, 5),
    BitsUnchecked(J, 64),
    BitsUnchecked(u64::MAX >> 1, 63),
    BitsUnchecked(J, 9),
    Drop(0),
    Drop(1),
    Drop(2),
    Drop(31),
    Drop(63),
    Drop(64),
    Drop(65),
    Drop(usize::MAX),
    DropTo(0),
    DropTo(1),
    Clear,
    Set(Pos::First, 0),
    Set(Pos::Last, 1),
    Set(Pos::Last, 2),
    Set(Pos::WordLast, u64::MAX),
    SetErr(0, 1),
    SetErr(1, 1),
    SetErr(usize::MAX, 1),
    Flip(Pos::First),
    Flip(Pos::Last),
    Flip(Pos::WordFirst),
    FlipUnchecked(Pos::Last),
    Extend(0, 0),
    Extend(1, 1),
    Extend(5, 6),
    Extend(64, 1),
    Extend(67, 9),
    Extend(128, 6),
    ExtendOwned(63, 0),
    ExtendOwned(65, 1),
    ExtendMany(3),
    ExtendMany(61),
    ExtendSelf,
    SplitLeft(Cut::At(0)),
    SplitLeft(Cut::At(1)),
    SplitLeft(Cut::At(63)),
    SplitLeft(Cut::At(64)),
    SplitLeft(Cut::Back(1)),
    SplitLeft(Cut::Back(0)),
    SplitRight(Cut::At(0)),
    SplitRight(Cut::At(1)),
    SplitRight(Cut::At(63)),
    SplitRight(Cut::At(64)),
    SplitRight(Cut::Back(1)),
    SplitRight(Cut::Back(0)),
    SplitRight(Cut::Back(64)),
    SplitJoin(Cut::At(1)),
    SplitJoin(Cut::At(64)),
    SplitJoin(Cut::Back(3)),
    SplitErr(1),
    SplitErr(usize::MAX),
    MaskAnd(6),
    MaskOr(6),
    MaskXor(1),
    MaskXor(9),
    MaskNand(6),
    MaskErr,
];
/// one representative per way of touching the words, for deeper histories
const CORE: &[Op] = &[
    Append(false),
    Append(true),
    Word(0),
    Bits(0, 1),
    Bits(J, 7),
    Bits(A, 63),
    BitsUnchecked(0, 5),
    Drop(1),
    Drop(63),
    DropTo(1),
    DropTo(0),
    Flip(Pos::Last),
    Extend(5, 6),
    SplitLeft(Cut::Back(3)),
    SplitRight(Cut::At(63)),
    MaskNand(6),
];

#[derive(Clone)]
struct State {
    bv: BitVec,
    m: BM,
    /// the words behind the end may hold ones (documented: after dropping, or after appending junk)
    dirty: bool,
}

fn pos(p: Pos, len: usize) -> Option<usize> {
    if len == 0 {
        return None;
    }
    Some(match p {
        Pos::First => 0,
        Pos::Last => len - 1,
        Pos::WordLast => {
            if len < 64 {
                return None;
            }
            63
        }
        Pos::WordFirst => {
            if len <= 64 {
                return None;
            }
            64
        }
        Pos::Mid => {
            if len <= 65_600 {
                return None;
            }
            65_600 + (len - 65_600) / 3
        }
    })
}
fn cut(c: Cut, len: usize) -> Option<usize> {
    match c {
        Cut::At(n) => (n <= len).then_some(n),
        Cut::Back(n) => (n <= len).then(|| len - n),
    }
}
fn low(v: u64, n: usize) -> u64 {
    if n == 0 {
        0
    } else {
        v & (u64::MAX >> (64 - n))
    }
}
impl State {
    /// Apply one operation to both sides. `Ok(false)`: not applicable here.
    fn step(&mut self, c: &mut Ctx, op: Op) -> Result<bool, String> {
        let len = self.m.len;
        let limb = len / 64;
        let mut junk = false; // this operation may itself leave ones behind the end
        let mut keeps_dirt = true;
        c.tick(1);
        let pushbits = |m: &mut BM, v: u64, n: usize| {
            for k in 0..n {
                m.push((v >> k) & 1 == 1);
            }
        };
        match op {
            Append(b) => {
                self.bv.append(b);
                self.m.push(b);
            }
            AppendBit(v) => {
                self.bv.append_bit(v);
                self.m.push(v & 1 == 1);
            }
            Bit32(v) => {
                self.bv.append_bit_u32(v);
                self.m.push(v & 1 == 1);
            }
            Bit16(v) => {
                self.bv.append_bit_u16(v);
                self.m.push(v & 1 == 1);
            }
            Bit8(v) => {
                self.bv.append_bit_u8(v);
                self.m.push(v & 1 == 1);
            }
            Word(v) => {
                self.bv.append_word(v);
                pushbits(&mut self.m, v, 64);
            }
            Bits(v, n) => {
                self.bv.append_bits(v, n);
                pushbits(&mut self.m, v, n);
                junk = n > 0 && low(v, n) != v;
            }
            BitsUnchecked(v, n) => {
                if self.dirty && len % 64 != 0 {
                    return Ok(false);
                }
                self.bv.append_bits_unchecked(v, n);
                pushbits(&mut self.m, v, n);
                junk = low(v, n) != v;
            }
            Drop(n) => {
                self.bv.drop_last(n);
                self.m.truncate(len.saturating_sub(n));
                junk = n > 0;
            }
            DropTo(r) => {
                let target = if len % 64 >= r { len - len % 64 + r } else { return Ok(false) };
                self.bv.drop_last(len - target);
                self.m.truncate(target);
                junk = true;
            }
            Clear => {
                self.bv.drop_last(len);
                self.m.truncate(0);
            }
            Set(p, v) => {
                let Some(p) = pos(p, len) else { return Ok(false) };
                eq!(c, self.bv.set(p, v).is_ok(), true, "set({p}, {v})");
                self.m.set(p, v & 1 == 1);
            }
            SetErr(d, v) => {
                let p = len.saturating_add(d);
                eq!(c, self.bv.set(p, v).is_err(), true, "set({p}, {v}) out of range");
            }
            Flip(p) => {
                let Some(p) = pos(p, len) else { return Ok(false) };
                self.bv.flip_bit(p);
                let b = self.m.get(p);
                self.m.set(p, !b);
            }
            FlipUnchecked(p) => {
                let Some(p) = pos(p, len) else { return Ok(false) };
                self.bv.flip_bit_unchecked(p);
                let b = self.m.get(p);
                self.m.set(p, !b);
            }
            Extend(n, k) => {
                let t = tile(k, n);
                self.bv.extend_bitvec(&t.bv(Dirt::Ones));
                self.m.extend(&t);
                junk = n > 0;
            }
            ExtendOwned(n, k) => {
                let t = tile(k, n);
                self.bv.extend(vec![t.bv(Dirt::Ones)]);
                self.m.extend(&t);
                junk = true;
            }
            ExtendMany(n) => {
                let t = [tile(1, n), tile(0, n + 1), tile(6, 3)];
                let v: Vec<BitVec> = t.iter().map(|t| t.bv(Dirt::Ones)).collect();
                self.bv.extend(v.iter());
                for t in &t {
                    self.m.extend(t);
                }
                junk = true;
            }
            ExtendSelf => {
                if len > 400 {
                    return Ok(false);
                }
                let o = self.bv.clone();
                self.bv.extend_bitvec(&o);
                let o = self.m.clone();
                self.m.extend(&o);
                junk = true;
            }
            SplitLeft(k) | SplitRight(k) | SplitJoin(k) => {
                let Some(at) = cut(k, len) else { return Ok(false) };
                let unchecked = matches!(k, Cut::Back(_));
                let bv = std::mem::take(&mut self.bv);
                let (l, r) = if unchecked {
                    bv.split_at_unchecked(at)
                } else {
                    match bv.split_at(at) {
                        Ok(p) => p,
                        Err(_) => return Err(format!("split_at({at}) of {len} bits was refused")),
                    }
                };
                let mut ml = self.m.clone();
                ml.truncate(at);
                let mr = BM::from_bools(&self.m.bools()[at..]);
                junk = true;
                match op {
                    SplitLeft(_) => {
                        content(c, &r, &mr, "the other half of the split")?;
                        self.bv = l;
                        self.m = ml;
                    }
                    SplitRight(_) => {
                        content(c, &l, &ml, "the other half of the split")?;
                        self.bv = r;
                        self.m = mr;
                    }
                    _ => {
                        content(c, &l, &ml, "left half of the split")?;
                        self.bv = l;
                        self.bv.extend_bitvec(&r);
                    }
                }
            }
            SplitErr(d) => {
                let at = len.saturating_add(d);
                let bv = std::mem::take(&mut self.bv);
                match bv.split_at(at) {
                    Ok(_) => return Err(format!("split_at({at}) of {len} bits was accepted")),
                    Err(b) => self.bv = b,
                }
            }
            MaskAnd(k) | MaskOr(k) | MaskXor(k) | MaskNand(k) => {
                let t = tile(k, len);
                let mask = t.bv(Dirt::Ones);
                let ok = match op {
                    MaskAnd(_) => self.bv.apply_mask_and(&mask),
                    MaskOr(_) => self.bv.apply_mask_or(&mask),
                    MaskXor(_) => self.bv.apply_mask_xor(&mask),
                    _ => self.bv.apply_mask_custom(&mask, |a, b| !(a & b)),
                };
                eq!(c, ok.is_ok(), true, "{op:?}");
                for i in 0..len {
                    let (a, b) = (self.m.get(i), t.get(i));
                    let x = match op {
                        MaskAnd(_) => a & b,
                        MaskOr(_) => a | b,
                        MaskXor(_) => a ^ b,
                        _ => !(a & b),
                    };
                    self.m.set(i, x);
                }
                junk = true;
            }
            MaskErr => {
                let mask = BitVec::from_ones(len + 1);
                eq!(c, self.bv.apply_mask_and(&mask).is_err(), true, "apply_mask_and with a longer mask");
                eq!(c, self.bv.apply_mask_or(&mask).is_err(), true, "apply_mask_or with a longer mask");
                eq!(c, self.bv.apply_mask_xor(&mask).is_err(), true, "apply_mask_xor with a longer mask");
                eq!(c, self.bv.apply_mask_custom(&mask, |_, _| 7).is_err(), true, "apply_mask_custom, longer mask");
            }
        }
        if self.m.len / 64 != limb && self.m.len > len {
            keeps_dirt = false; // a fresh word was begun
        }
        self.dirty = junk || (self.dirty && keeps_dirt);
        if self.m.len % 64 == 0 {
            self.dirty = false;
        }
        Ok(true)
    }
    fn key(&self) -> u64 {
        let mut h = H::default();
        h.put(self.m.len as u64);
        for l in self.bv.iter_limbs() {
            h.put(l);
        }
        h.put(self.dirty as u64);
        h.0
    }
}

/// everything observable about the content
fn content(c: &mut Ctx, b: &BitVec, m: &BM, what: &str) -> R {
    eq!(c, b.len(), m.len, "len of {what}");
    eq!(c, b.is_empty(), m.len == 0, "is_empty of {what}");
    let ones = m.ones() as u64;
    eq!(c, b.count_ones(), ones, "count_ones of {what}");
    eq!(c, b.count_zeros(), m.len as u64 - ones, "count_zeros of {what}");
    for (i, w) in m.w.iter().enumerate() {
        let n = (m.len - i * 64).min(64);
        eq!(c, b.get_bits(i * 64, n), Some(*w), "get_bits({}, {n}) of {what}", i * 64);
    }
    for i in 0..m.len {
        if b.is_bit_set(i) != Some(m.get(i)) {
            return Err(format!("bit {i} of {what} is {:?}, expected {}", b.is_bit_set(i), m.get(i)));
        }
    }
    c.tick(m.len as u64);
    for p in [m.len, m.len + 1, (m.len / 64 + 1) * 64 - 1, usize::MAX] {
        if p >= m.len {
            eq!(c, b.get(p), None, "get({p}) past the end of {what}");
        }
    }
    eq!(c, b.get_bits(m.len.saturating_sub(3), 4), None, "get_bits across the end of {what}");
    let mut n = 0;
    for (i, x) in b.iter().enumerate() {
        if i >= m.len || x != m.get(i) as u64 {
            return Err(format!("iter() of {what} yields {x} at {i}"));
        }
        n += 1;
    }
    eq!(c, n, m.len, "number of bits iterated in {what}");
    let clean = m.bv(Dirt::Clean);
    ck!(c, *b == clean && clean == *b, "{what} is not equal to a fresh vector with the same bits {m:?}");
    eq!(c, hash_of(b), hash_of(&clean), "hash of {what} against a fresh vector with the same bits");
    Ok(())
}

fn explore(
    c: &mut Ctx,
    s: &State,
    ops: &[Op],
    depth: usize,
    trail: &mut Vec<Op>,
    seen: &mut HashMap<u64, usize>,
) -> R {
    content(c, &s.bv, &s.m, "the vector").map_err(|e| format!("after {trail:?}: {e}"))?;
    let k = s.key();
    c.visit_global(k);
    if depth == 0 {
        return Ok(());
    }
    match seen.get(&k) {
        Some(&d) if d >= depth => return Ok(()),
        _ => seen.insert(k, depth),
    };
    for &op in ops {
        let mut n = s.clone();
        trail.push(op);
        let applied = match quiet(|| n.step(c, op)) {
            Ok(r) => r.map_err(|e| format!("after {trail:?}: {e}"))?,
            Err(p) => return Err(format!("panic in {trail:?}: {p}")),
        };
        if applied && n.m.len <= 1200 {
            explore(c, &n, ops, depth - 1, trail, seen)?;
        }
        trail.pop();
    }
    Ok(())
}

const LENS: [usize; 14] = [0, 1, 2, 31, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192];
fn seed(i: u64) -> State {
    let mut d = Dec(i);
    let kind = *d.pick(&[1u64, 6, 9]);
    let len = *d.pick(&LENS);
    let dirt = if kind == 6 { Dirt::Clean } else { Dirt::Ones };
    let m = tile(kind, len);
    State { bv: m.bv(dirt), dirty: true, m }
}
const SEEDS: u64 = 14 * 3;

const CLENS: [usize; 13] = [0, 1, 5, 10, 31, 63, 64, 65, 100, 127, 128, 129, 190];
const CTORS: u64 = 14;
/// a vector straight from a constructor: nothing was truncated and no junk was appended, so the documentation
/// also allows the unchecked appends
fn constructed(kind: u64, len: usize) -> Option<State> {
    let m = match kind {
        0 => tile(0, len),
        1 => tile(1, len),
        _ => tile(9, len),
    };
    let b = m.bools();
    let u: Vec<u64> = b.iter().map(|&x| x as u64 | 6).collect();
    let bv = match kind {
        0 => BitVec::from_zeros(len),
        1 => BitVec::from_ones(len),
        2 => BitVec::from_bools(&b),
        3 => BitVec::from_bool_iter(b.iter().copied()),
        4 => BitVec::from_bits(&u.iter().map(|&x| x as u8).collect::<Vec<_>>()),
        5 => BitVec::from_bits_u16(&u.iter().map(|&x| x as u16).collect::<Vec<_>>()),
        6 => BitVec::from_bits_u32(&u.iter().map(|&x| x as u32).collect::<Vec<_>>()),
        7 => BitVec::from_bits_u64(&u),
        8 => BitVec::from_bits_iter(u.iter().copied()),
        9 => {
            if len % 64 != 0 {
                return None;
            }
            BitVec::from_limbs(&m.w)
        }
        10 => {
            let mut x = BitVec::with_capacity(len);
            b.iter().for_each(|&b| x.append(b));
            x
        }
        11 | 12 => {
            let w = if kind == 11 { 5 } else { 63 };
            if len % w != 0 {
                return None;
            }
            let v: Vec<u64> = (0..len / w).map(|i| m.window(i * w, w)).collect();
            if kind == 11 {
                BitVec::pack_sequence_u8(&v.iter().map(|&x| x as u8).collect::<Vec<_>>(), w)
            } else {
                BitVec::pack_from_iter_u64(v, w)
            }
        }
        _ => {
            let mut x = BitVec::new();
            for i in (0..len).step_by(17) {
                let n = (len - i).min(17);
                x.append_bits(m.window(i, n), n);
            }
            x
        }
    };
    Some(State { bv, m, dirty: false })
}

fn main() {
    let mut r = Runner::new("C01");
    // every history over the full alphabet
    let depth = r.t(2, 3);
    r.family("full", SEEDS * FULL.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let s = seed(d.take(SEEDS));
        let op = FULL[d.0 as usize];
        c.note(|| format!("from {:?}: {op:?} then every {depth} operations of the full alphabet", s.m));
        let mut n = s;
        let mut trail = vec![op];
        if !n.step(c, op)? {
            return Ok(());
        }
        explore(c, &n, FULL, depth, &mut trail, &mut HashMap::new())
    });
    // the same from every constructor
    let depth = r.t(1, 2);
    r.family("constructed", CTORS * CLENS.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&CLENS);
        let Some(s) = constructed(d.0, len) else { return Ok(()) };
        c.note(|| format!("constructor {} with {:?}, then every {} operations", i / CLENS.len() as u64, s.m, depth + 1));
        explore(c, &s, FULL, depth + 1, &mut vec![], &mut HashMap::new())
    });
    // deeper histories over the core alphabet
    let depth = r.t(3, 5);
    let nc = CORE.len() as u64;
    r.family("core", SEEDS * nc * nc, move |i, c| {
        let mut d = Dec(i);
        let s = seed(d.take(SEEDS));
        let pre = [*d.pick(CORE), *d.pick(CORE)];
        c.note(|| format!("from {:?}: {pre:?} then every {depth} operations of the core alphabet", s.m));
        let mut n = s;
        let mut trail = pre.to_vec();
        for op in pre {
            if !n.step(c, op)? {
                return Ok(());
            }
        }
        explore(c, &n, CORE, depth, &mut trail, &mut HashMap::new())
    });
    // every pair (drop to any length, then append so many bits of any value): all 64x64 alignments
    r.family("align", 66 * 66, |i, c| {
        let mut d = Dec(i);
        let (len, n) = (d.take(66) as usize, d.take(66) as usize);
        c.note(|| format!("truncate to {len} (and {}), append {n} bits", len + 64));
        c.visit(i);
        for base in [len, len + 64] {
            for ones in [true, false] {
                let full = tile(if ones { 1 } else { 9 }, base + 70);
                let mut m = full.clone();
                m.truncate(base);
                let mut b = full.bv(Dirt::Clean);
                b.drop_last(70);
                content(c, &b, &m, "the truncated vector")?;
                for v in [0u64, u64::MAX, J] {
                    let mut x = State { bv: b.clone(), m: m.clone(), dirty: true };
                    let op = if n <= 64 { Bits(v, n) } else { Word(v) };
                    x.step(c, op)?;
                    content(c, &x.bv, &x.m, "the extended vector")?;
                    let mut x = State { bv: b.clone(), m: m.clone(), dirty: true };
                    x.step(c, Extend(n, v % 7))?;
                    content(c, &x.bv, &x.m, "the vector extended by a vector")?;
                }
                for op in [SplitJoin(Cut::At(n)), SplitLeft(Cut::At(n)), SplitRight(Cut::Back(n)), Drop(n)] {
                    let mut x = State { bv: b.clone(), m: m.clone(), dirty: true };
                    if x.step(c, op)? {
                        content(c, &x.bv, &x.m, "the split vector")?;
                    }
                }
            }
        }
        Ok(())
    });
    // long vectors: split and extend everywhere around the ends and the middle
    r.family("long", 12 * 16, |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&[300usize, 511, 512, 513, 640, 1000, 1024, 1025, 2047, 2048, 2049, 4097]);
        let q = d.take(16) as usize;
        let at = (len * q / 16) & !63;
        c.note(|| format!("{len} bits split around {at}"));
        c.visit(i);
        let m = tile(9, len);
        for delta in [0usize, 1, 31, 63] {
            for op in [SplitLeft(Cut::At(at + delta)), SplitRight(Cut::At(at + delta)), SplitJoin(Cut::At(at + delta))] {
                let mut x = State { bv: m.bv(Dirt::Ones), m: m.clone(), dirty: true };
                if x.step(c, op)? {
                    content(c, &x.bv, &x.m, "the split vector")?;
                    x.step(c, Extend(at + delta, 6))?;
                    content(c, &x.bv, &x.m, "the extended vector")?;
                }
            }
        }
        Ok(())
    });
    // the whole alphabet, and the large steps, on large vectors
    const FAR: &[Op] = &[
        Drop(65_535),
        Drop(65_536),
        Drop(65_537),
        Drop(70_001),
        Extend(65_535, 9),
        Extend(65_536, 9),
        Extend(70_001, 9),
        ExtendOwned(70_001, 9),
        SplitLeft(Cut::At(65_535)),
        SplitLeft(Cut::At(65_536)),
        SplitRight(Cut::At(65_536)),
        SplitRight(Cut::At(65_537)),
        SplitJoin(Cut::At(65_530)),
        SplitJoin(Cut::Back(65_600)),
        SplitRight(Cut::Back(65_600)),
        SplitLeft(Cut::Back(65_537)),
        Set(Pos::Mid, 1),
        Set(Pos::Mid, 0),
        Flip(Pos::Mid),
        FlipUnchecked(Pos::Mid),
    ];
    let nf = (FULL.len() + FAR.len()) as u64;
    r.family("mega", nf * MEGA.len() as u64, move |i, c| {
        let mut d = Dec(i);
        let len = *d.pick(&MEGA);
        let k = d.0 as usize;
        let op = if k < FULL.len() { FULL[k] } else { FAR[k - FULL.len()] };
        c.note(|| format!("{len} mixed bits: {op:?}, then one operation of the core alphabet"));
        c.visit(i);
        let m = mixed(len, 1);
        let mut n = State { bv: m.bv(if k % 2 == 0 { Dirt::Ones } else { Dirt::Clean }), m, dirty: true };
        if !n.step(c, op)? {
            return Ok(());
        }
        content(c, &n.bv, &n.m, "the vector")?;
        // afterwards it is as good as new
        for (j, &second) in CORE.iter().enumerate() {
            if len < 70_000 || j == k % CORE.len() {
                let mut x = n.clone();
                if x.step(c, second)? {
                    content(c, &x.bv, &x.m, "the vector").map_err(|e| format!("and {second:?}: {e}"))?;
                }
            }
        }
        Ok(())
    });
    // edits at and beyond 2^32 positions
    r.family("giga", 6, |i, c| {
        use mc::giga::{Giga, Run, G32};
        let _p = mc::giga::permit();
        let mut d = Dec(i);
        let fill = d.take(2) == 1;
        let cut = *d.pick(&[0usize, 1, 77]);
        let how = i % 4 / 2;
        c.note(|| format!("giga, fill {fill}, cut {cut}, how {how}"));
        c.visit(i);
        const N: usize = G32 + 30_000;
        let mut b = match (how, fill) {
            (0, true) => BitVec::from_ones(N),
            (0, false) => BitVec::from_zeros(N),
            _ => Giga::new(&[(if fill { Run::Ones } else { Run::Zeros }, N)]).bv(),
        };
        let (mut len, mut odd): (usize, std::collections::BTreeSet<usize>) = (N, Default::default());
        // `odd` holds the positions whose bit differs from the background
        fn same(c: &mut Ctx, b: &BitVec, len: usize, odd: &std::collections::BTreeSet<usize>, fill: bool, after: &str) -> R {
            eq!(c, b.len(), len, "len after {after}");
            let ones = if fill { len - odd.len() } else { odd.len() } as u64;
            eq!(c, (b.count_ones(), b.count_zeros()), (ones, len as u64 - ones), "counts after {after}");
            for a in odd.iter().copied().chain([0, 1 << 31, G32, len]) {
                for p in a.saturating_sub(66)..a + 66 {
                    let want = (p < len).then(|| (odd.contains(&p) != fill) as u64);
                    eq!(c, b.get(p), want, "get({p}) after {after}");
                }
            }
            Ok(())
        }
        same(c, &b, len, &odd, fill, "construction")?;
        b.drop_last(cut);
        len -= cut;
        same(c, &b, len, &odd, fill, "drop_last")?;
        for (k, p) in [5usize, (1 << 31) + 1, G32 - 1, G32, G32 + 64, G32 + 10_000].into_iter().enumerate() {
            match k % 3 {
                0 => b.set(p, !fill as u64).unwrap(),
                1 => b.flip_bit(p),
                _ => b.set_unchecked(p, !fill as u64),
            }
            odd.insert(p);
        }
        same(c, &b, len, &odd, fill, "set and flip")?;
        ck!(c, b.set(len, 1).is_err() && b.set(len + G32, 1).is_err(), "set past the end");
        let mut push = |b: &mut BitVec, odd: &mut std::collections::BTreeSet<usize>, w: u64, n: usize, how: u8| {
            match how {
                0 => (0..n).for_each(|k| b.append(w >> k & 1 == 1)),
                1 => b.append_bits(w, n),
                2 => b.append_word(w),
                _ => b.extend_bitvec(&BitVec::from_limbs(&[w])),
            }
            for k in 0..n {
                if (w >> k & 1 == 1) != fill {
                    odd.insert(len + k);
                }
            }
            len += n;
        };
        push(&mut b, &mut odd, 0b1011, 5, 0);
        push(&mut b, &mut odd, 0x1234_5678_9abc_def1, 61, 1);
        push(&mut b, &mut odd, 0xdead_beef_0bad_cafe, 64, 2);
        push(&mut b, &mut odd, 0x0123_4567_89ab_cdef, 64, 3);
        same(c, &b, len, &odd, fill, "appending")?;
        b.drop_last(70);
        len -= 70;
        odd.retain(|&p| p < len);
        same(c, &b, len, &odd, fill, "dropping again")?;
        ck!(c, b.clone().split_at(len + 1).is_err(), "split past the end");
        for at in [G32 - 3, G32, G32 + 64, G32 + 10_000 - 1, (1 << 31) + 2, len] {
            let Ok((x, y)) = b.clone().split_at(at) else { return Err(format!("split_at({at}) of {len} bits refused")) };
            let lo: std::collections::BTreeSet<usize> = odd.iter().copied().filter(|&p| p < at).collect();
            let hi = odd.iter().copied().filter(|&p| p >= at).map(|p| p - at).collect();
            same(c, &x, at, &lo, fill, "split (front)")?;
            same(c, &y, len - at, &hi, fill, "split (back)")?;
        }
        // joining two halves
        let (x, y) = b.split_at((1 << 31) + 2).unwrap();
        let mut z = y.clone();
        let back = len - (1 << 31) - 2;
        z.extend_bitvec(&x);
        let joined = odd
            .iter()
            .map(|&p| if p >= (1 << 31) + 2 { p - (1 << 31) - 2 } else { p + back })
            .collect();
        same(c, &z, len, &joined, fill, "joining the halves the other way round")
    });
    r.finish()
}
