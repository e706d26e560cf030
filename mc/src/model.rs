//! Reference models: deliberately boring.
use vers_vecs::BitVec;

/// Plain bit string held in 64-bit words, bits past `len` are always zero.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BM {
    pub w: Vec<u64>,
    pub len: usize,
}
impl std::fmt::Debug for BM {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "len {} ", self.len)?;
        if self.len <= 200 {
            for i in 0..self.len {
                write!(f, "{}", self.get(i) as u8)?;
            }
            return Ok(());
        }
        // run-length form
        let mut i = 0;
        let mut runs = 0;
        while i < self.len {
            let b = self.get(i);
            let mut j = i;
            while j < self.len && self.get(j) == b {
                j += 1;
            }
            write!(f, "{}x{} ", b as u8, j - i)?;
            runs += 1;
            if runs > 60 {
                return write!(f, "...");
            }
            i = j;
        }
        Ok(())
    }
}
/// What the unused part of the last word holds; all of these are reachable through the public API.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dirt {
    Clean,
    Ones,
}
pub const DIRTS: [Dirt; 2] = [Dirt::Clean, Dirt::Ones];

impl BM {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn zeros(len: usize) -> Self {
        BM { w: vec![0; len.div_ceil(64)], len }
    }
    pub fn from_bools(b: &[bool]) -> Self {
        let mut s = Self::zeros(b.len());
        for (i, &x) in b.iter().enumerate() {
            if x {
                s.w[i / 64] |= 1 << (i % 64);
            }
        }
        s
    }
    /// the low `n` bits of `v`, least significant first
    pub fn from_int(v: u64, n: usize) -> Self {
        if n == 0 {
            return Self::new();
        }
        BM { w: vec![v & (u64::MAX >> (64 - n))], len: n }
    }
    #[inline]
    pub fn get(&self, i: usize) -> bool {
        (self.w[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn set(&mut self, i: usize, b: bool) {
        assert!(i < self.len);
        if b {
            self.w[i / 64] |= 1 << (i % 64);
        } else {
            self.w[i / 64] &= !(1 << (i % 64));
        }
    }
    pub fn push(&mut self, b: bool) {
        if self.len % 64 == 0 {
            self.w.push(0);
        }
        if b {
            self.w[self.len / 64] |= 1 << (self.len % 64);
        }
        self.len += 1;
    }
    pub fn run(&mut self, b: bool, n: usize) -> &mut Self {
        let mut n = n;
        while n > 0 && self.len % 64 != 0 {
            self.push(b);
            n -= 1;
        }
        while n >= 64 {
            self.w.push(if b { u64::MAX } else { 0 });
            self.len += 64;
            n -= 64;
        }
        for _ in 0..n {
            self.push(b);
        }
        self
    }
    pub fn extend(&mut self, o: &BM) -> &mut Self {
        if self.len % 64 == 0 {
            self.w.extend_from_slice(&o.w);
            self.len += o.len;
        } else {
            for i in 0..o.len {
                self.push(o.get(i));
            }
        }
        self
    }
    pub fn truncate(&mut self, n: usize) -> &mut Self {
        if n < self.len {
            self.len = n;
            self.w.truncate(n.div_ceil(64));
            if n % 64 != 0 {
                let l = self.w.len() - 1;
                self.w[l] &= u64::MAX >> (64 - n % 64);
            }
        }
        self
    }
    pub fn complement(&self) -> BM {
        let mut s = BM { w: self.w.iter().map(|x| !x).collect(), len: self.len };
        if s.len % 64 != 0 {
            let l = s.w.len() - 1;
            s.w[l] &= u64::MAX >> (64 - s.len % 64);
        }
        s
    }
    pub fn ones(&self) -> usize {
        self.w.iter().map(|x| x.count_ones() as usize).sum()
    }
    pub fn bools(&self) -> Vec<bool> {
        (0..self.len).map(|i| self.get(i)).collect()
    }
    /// positions of the ones (or zeros)
    pub fn positions(&self, bit: bool) -> Vec<usize> {
        (0..self.len).filter(|&i| self.get(i) == bit).collect()
    }
    /// window of up to 64 bits
    pub fn window(&self, pos: usize, len: usize) -> u64 {
        let mut r = 0;
        for k in 0..len {
            r |= (self.get(pos + k) as u64) << k;
        }
        r
    }
    /// The library's bit vector with this content. `Dirt::Ones` fills the unused part of the last word with
    /// ones, as truncating a longer vector does.
    pub fn bv(&self, d: Dirt) -> BitVec {
        let mut w = self.w.clone();
        let pad = w.len() * 64 - self.len;
        if pad > 0 && d == Dirt::Ones {
            let l = w.len() - 1;
            w[l] |= !(u64::MAX >> pad);
        }
        let mut b = BitVec::from_vec(w);
        if pad > 0 {
            b.drop_last(pad);
        }
        b
    }
    pub fn key(&self) -> u64 {
        crate::hash_of(self)
    }
}

/// A bit vector that some other structure handed out is an ordinary bit vector: as many words as its length needs,
/// and further edits work on exactly its bits. Only the last bits of the content are compared, after each edit.
pub fn editable(c: &mut crate::Ctx, b: &BitVec, m: &BM, what: &str) -> crate::R {
    crate::eq!(c, b.iter_limbs().count(), m.len.div_ceil(64), "{what}: number of words");
    let v = 0xdead_beef_f00d_cafdu64;
    for first in 0..5 {
        let mut x = b.clone();
        // the last up to 130 bits of the content are enough: nothing before them is touched
        let keep = m.len.min(64 + m.len % 64);
        let at = m.len - keep;
        let mut t = BM::new();
        for i in at..m.len {
            t.push(m.get(i));
        }
        let word = |t: &mut BM, n: usize| (0..n).for_each(|k| t.push((v >> k) & 1 == 1));
        for step in 0..3 {
            match (first + step) % 5 {
                0 => {
                    x.append_word(v);
                    word(&mut t, 64);
                }
                1 => {
                    x.append(false);
                    t.push(false);
                }
                2 => {
                    x.append_bits(v & 0x1fff, 13);
                    word(&mut t, 13);
                }
                3 => {
                    x.drop_last(1);
                    let n = t.len.saturating_sub(1);
                    t.truncate(n);
                }
                _ => {
                    x.extend_bitvec(&BitVec::from_vec(vec![v]));
                    word(&mut t, 64);
                }
            }
            crate::eq!(c, x.len(), at + t.len, "{what}: length after edit {first}+{step}");
            for i in 0..t.len {
                if x.get(at + i) != Some(t.get(i) as u64) {
                    return Err(format!(
                        "{what}: bit {} after edits {first}..={} is {:?}, expected {}",
                        at + i,
                        first + step,
                        x.get(at + i),
                        t.get(i)
                    ));
                }
            }
            crate::eq!(c, x.iter_limbs().count(), (at + t.len).div_ceil(64), "{what}: words after edit {first}+{step}");
            c.tick(t.len as u64);
        }
    }
    Ok(())
}

/// An iterator whose size hint is true, but not always exact.
#[derive(Clone)]
pub struct Hinted<I> {
    it: I,
    left: usize,
    kind: u64,
}
pub const HINTS: u64 = 7;
impl<I: Iterator> Hinted<I> {
    pub fn new(it: I, left: usize, kind: u64) -> Self {
        Self { it, left, kind }
    }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.left = self.left.saturating_sub(1);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        match self.kind {
            0 => (0, None),
            1 => (0, Some(n)),
            2 => (n, Some(n)),
            3 => (n / 2, None),
            4 => (n / 2, Some(2 * n + 1)),
            5 => (n.saturating_sub(1), Some(n + 1)),
            _ => (n.min(1), Some(usize::MAX)),
        }
    }
}
