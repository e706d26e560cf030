//! Parenthesis sequences and ordered trees: finite spaces, reference models, and block-size erased trees.
use crate::model::BM;
use crate::{gen, Dec};
use vers_vecs::trees::bp::{BpBuilder, BpTree};
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree, TreeBuilder};
use vers_vecs::{BitVec, RsVec};

type It<'a> = Box<dyn Iterator<Item = usize> + 'a>;

/// `BpTree<B>` for a block size known only at run time.
#[allow(clippy::wrong_self_convention)]
pub trait AnyBp {
    fn fwd(&self, i: usize, r: i64) -> Option<usize>;
    fn bwd(&self, i: usize, r: i64) -> Option<usize>;
    fn close(&self, i: usize) -> Option<usize>;
    fn open(&self, i: usize) -> Option<usize>;
    fn enclose(&self, i: usize) -> Option<usize>;
    fn excess(&self, i: usize) -> i64;
    fn root(&self) -> Option<usize>;
    fn parent(&self, n: usize) -> Option<usize>;
    fn first_child(&self, n: usize) -> Option<usize>;
    fn last_child(&self, n: usize) -> Option<usize>;
    fn next_sibling(&self, n: usize) -> Option<usize>;
    fn previous_sibling(&self, n: usize) -> Option<usize>;
    fn node_index(&self, n: usize) -> usize;
    fn node_handle(&self, i: usize) -> usize;
    fn is_leaf(&self, n: usize) -> bool;
    fn depth(&self, n: usize) -> u64;
    fn size(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_ancestor(&self, a: usize, d: usize) -> Option<bool>;
    fn level_ancestor(&self, n: usize, l: u64) -> Option<usize>;
    fn level_next(&self, n: usize) -> Option<usize>;
    fn level_prev(&self, n: usize) -> Option<usize>;
    fn level_leftmost(&self, l: u64) -> Option<usize>;
    fn level_rightmost(&self, l: u64) -> Option<usize>;
    fn subtree_size(&self, n: usize) -> Option<usize>;
    fn iter(&self) -> It<'_>;
    fn dfs_iter(&self) -> It<'_>;
    fn dfs_post_iter(&self) -> It<'_>;
    fn subtree_iter(&self, n: usize) -> It<'_>;
    fn subtree_post_iter(&self, n: usize) -> It<'_>;
    fn children(&self, n: usize) -> It<'_>;
    fn rev_children(&self, n: usize) -> It<'_>;
    fn owned_iter(&self) -> Vec<usize>;
    fn owned_rev(&self) -> Vec<usize>;
    fn to_rs(&self) -> RsVec;
    fn to_rs_from(&self) -> RsVec;
    fn to_bv(&self) -> BitVec;
    fn heap_size(&self) -> usize;
}
impl<const B: usize> AnyBp for BpTree<B> {
    fn fwd(&self, i: usize, r: i64) -> Option<usize> {
        self.fwd_search(i, r)
    }
    fn bwd(&self, i: usize, r: i64) -> Option<usize> {
        self.bwd_search(i, r)
    }
    fn close(&self, i: usize) -> Option<usize> {
        BpTree::close(self, i)
    }
    fn open(&self, i: usize) -> Option<usize> {
        BpTree::open(self, i)
    }
    fn enclose(&self, i: usize) -> Option<usize> {
        BpTree::enclose(self, i)
    }
    fn excess(&self, i: usize) -> i64 {
        BpTree::excess(self, i)
    }
    fn root(&self) -> Option<usize> {
        Tree::root(self)
    }
    fn parent(&self, n: usize) -> Option<usize> {
        Tree::parent(self, n)
    }
    fn first_child(&self, n: usize) -> Option<usize> {
        Tree::first_child(self, n)
    }
    fn last_child(&self, n: usize) -> Option<usize> {
        Tree::last_child(self, n)
    }
    fn next_sibling(&self, n: usize) -> Option<usize> {
        Tree::next_sibling(self, n)
    }
    fn previous_sibling(&self, n: usize) -> Option<usize> {
        Tree::previous_sibling(self, n)
    }
    fn node_index(&self, n: usize) -> usize {
        Tree::node_index(self, n)
    }
    fn node_handle(&self, i: usize) -> usize {
        Tree::node_handle(self, i)
    }
    fn is_leaf(&self, n: usize) -> bool {
        Tree::is_leaf(self, n)
    }
    fn depth(&self, n: usize) -> u64 {
        Tree::depth(self, n)
    }
    fn size(&self) -> usize {
        Tree::size(self)
    }
    fn is_empty(&self) -> bool {
        Tree::is_empty(self)
    }
    fn is_ancestor(&self, a: usize, d: usize) -> Option<bool> {
        IsAncestor::is_ancestor(self, a, d)
    }
    fn level_ancestor(&self, n: usize, l: u64) -> Option<usize> {
        LevelTree::level_ancestor(self, n, l)
    }
    fn level_next(&self, n: usize) -> Option<usize> {
        LevelTree::level_next(self, n)
    }
    fn level_prev(&self, n: usize) -> Option<usize> {
        LevelTree::level_prev(self, n)
    }
    fn level_leftmost(&self, l: u64) -> Option<usize> {
        LevelTree::level_leftmost(self, l)
    }
    fn level_rightmost(&self, l: u64) -> Option<usize> {
        LevelTree::level_rightmost(self, l)
    }
    fn subtree_size(&self, n: usize) -> Option<usize> {
        SubtreeSize::subtree_size(self, n)
    }
    fn iter(&self) -> It<'_> {
        Box::new(BpTree::iter(self))
    }
    fn dfs_iter(&self) -> It<'_> {
        Box::new(BpTree::dfs_iter(self))
    }
    fn dfs_post_iter(&self) -> It<'_> {
        Box::new(BpTree::dfs_post_iter(self))
    }
    fn subtree_iter(&self, n: usize) -> It<'_> {
        Box::new(BpTree::subtree_iter(self, n))
    }
    fn subtree_post_iter(&self, n: usize) -> It<'_> {
        Box::new(BpTree::subtree_post_iter(self, n))
    }
    fn children(&self, n: usize) -> It<'_> {
        Box::new(BpTree::children(self, n))
    }
    fn rev_children(&self, n: usize) -> It<'_> {
        Box::new(BpTree::rev_children(self, n))
    }
    fn owned_iter(&self) -> Vec<usize> {
        self.clone().into_iter().collect()
    }
    fn owned_rev(&self) -> Vec<usize> {
        self.clone().into_iter().rev().collect()
    }
    fn to_rs(&self) -> RsVec {
        self.clone().into_parentheses_vec()
    }
    fn to_rs_from(&self) -> RsVec {
        self.clone().into()
    }
    fn to_bv(&self) -> BitVec {
        self.clone().into()
    }
    fn heap_size(&self) -> usize {
        BpTree::heap_size(self)
    }
}
fn mk<const B: usize>(bv: BitVec) -> Box<dyn AnyBp> {
    Box::new(BpTree::<B>::from_bit_vector(bv))
}
fn mk_from<const B: usize>(bv: BitVec) -> Box<dyn AnyBp> {
    Box::new(BpTree::<B>::from(bv))
}
/// Drive a builder through a walk (true = enter); `how` selects the constructor.
fn bld<const B: usize>(walk: &[bool], how: u64) -> Result<Box<dyn AnyBp>, i64> {
    let mut b = match how {
        0 => BpBuilder::<B>::new(),
        1 => BpBuilder::<B>::with_capacity(walk.len() as u64 / 2),
        _ => BpBuilder::<B>::default(),
    };
    for &w in walk {
        if w {
            b.enter_node()
        } else {
            b.leave_node()
        }
    }
    b.build().map(|t| Box::new(t) as Box<dyn AnyBp>)
}
macro_rules! sizes {
    ($($b:literal),*) => {
        pub const BLOCKS: &[usize] = &[$($b),*];
        pub fn tree(bs: usize, bv: BitVec) -> Box<dyn AnyBp> {
            match bs { $($b => mk::<$b>(bv),)* _ => unreachable!() }
        }
        pub fn tree_from(bs: usize, bv: BitVec) -> Box<dyn AnyBp> {
            match bs { $($b => mk_from::<$b>(bv),)* _ => unreachable!() }
        }
        pub fn builder(bs: usize, walk: &[bool], how: u64) -> Result<Box<dyn AnyBp>, i64> {
            match bs { $($b => bld::<$b>(walk, how),)* _ => unreachable!() }
        }
    };
}
sizes!(1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 65, 100, 128, 512, 1024);

// ---------------------------------------------------------------- sequences
/// Prefix excesses of a parenthesis sequence and their positions.
pub struct Par {
    pub b: BM,
    pub bits: Vec<bool>,
    /// p[k] = excess of the first k parentheses
    pub p: Vec<i64>,
    lo: i64,
    pos: Vec<Vec<u32>>,
}
impl Par {
    pub fn new(b: BM) -> Par {
        let bits = b.bools();
        let mut p = vec![0i64];
        for &x in &bits {
            p.push(p.last().unwrap() + if x { 1 } else { -1 });
        }
        let lo = *p.iter().min().unwrap();
        let hi = *p.iter().max().unwrap();
        let mut pos = vec![vec![]; (hi - lo + 1) as usize];
        for (k, v) in p.iter().enumerate() {
            pos[(v - lo) as usize].push(k as u32);
        }
        Par { b, bits, p, lo, pos }
    }
    pub fn len(&self) -> usize {
        self.bits.len()
    }
    pub fn is_empty(&self) -> bool {
        self.bits.is_empty()
    }
    pub fn min(&self) -> i64 {
        self.lo
    }
    pub fn max(&self) -> i64 {
        self.lo + self.pos.len() as i64 - 1
    }
    fn at(&self, v: i64) -> &[u32] {
        let i = v.saturating_sub(self.lo);
        if i < 0 || i >= self.pos.len() as i64 {
            &[]
        } else {
            &self.pos[i as usize]
        }
    }
    /// smallest j > i such that the excess changes by r over (i, j]
    pub fn fwd(&self, i: usize, r: i64) -> Option<usize> {
        if i >= self.len() {
            return None;
        }
        let l = self.at(self.p[i + 1].saturating_add(r));
        let k = l.partition_point(|&k| k as usize <= i + 1);
        l.get(k).map(|&k| k as usize - 1)
    }
    /// largest j < i such that the excess changes by -r over [j, i)
    pub fn bwd(&self, i: usize, r: i64) -> Option<usize> {
        if i >= self.len() {
            return None;
        }
        let l = self.at(self.p[i].saturating_add(r));
        let k = l.partition_point(|&k| (k as usize) < i);
        (k > 0).then(|| l[k - 1] as usize)
    }
    pub fn balanced(&self) -> bool {
        self.lo == 0 && *self.p.last().unwrap() == 0
    }
}

// ---------------------------------------------------------------- ordered trees
const NONE: u32 = u32::MAX;
/// An ordered forest read off a balanced sequence with a stack; nodes are numbered in pre-order.
pub struct Model {
    pub len: usize,
    /// position of the opening / closing parenthesis
    pub open: Vec<usize>,
    pub close: Vec<usize>,
    parent: Vec<u32>,
    pub kids: Vec<Vec<u32>>,
    pub roots: Vec<u32>,
    pub depth: Vec<u32>,
    pub size: Vec<u32>,
    /// index among the siblings
    rank: Vec<u32>,
    pub post: Vec<u32>,
    pub levels: Vec<Vec<u32>>,
    lrank: Vec<u32>,
}
impl Model {
    pub fn new(bits: &[bool]) -> Model {
        let mut m = Model {
            len: bits.len(),
            open: vec![],
            close: vec![],
            parent: vec![],
            kids: vec![],
            roots: vec![],
            depth: vec![],
            size: vec![],
            rank: vec![],
            post: vec![],
            levels: vec![],
            lrank: vec![],
        };
        let mut st: Vec<u32> = vec![];
        for (i, &b) in bits.iter().enumerate() {
            if b {
                let n = m.open.len() as u32;
                m.open.push(i);
                m.close.push(0);
                m.kids.push(vec![]);
                m.depth.push(st.len() as u32);
                m.size.push(0);
                match st.last() {
                    Some(&p) => {
                        m.parent.push(p);
                        m.rank.push(m.kids[p as usize].len() as u32);
                        m.kids[p as usize].push(n);
                    }
                    None => {
                        m.parent.push(NONE);
                        m.rank.push(m.roots.len() as u32);
                        m.roots.push(n);
                    }
                }
                if m.levels.len() <= st.len() {
                    m.levels.push(vec![]);
                }
                m.lrank.push(m.levels[st.len()].len() as u32);
                m.levels[st.len()].push(n);
                st.push(n);
            } else {
                let n = st.pop().expect("unbalanced") as usize;
                m.close[n] = i;
                m.size[n] = (m.open.len() - n) as u32;
                m.post.push(n as u32);
            }
        }
        assert!(st.is_empty());
        m
    }
    pub fn n(&self) -> usize {
        self.open.len()
    }
    pub fn is_tree(&self) -> bool {
        self.roots.len() == 1
    }
    fn h(&self, n: u32) -> usize {
        self.open[n as usize]
    }
    pub fn parent(&self, n: usize) -> Option<usize> {
        (self.parent[n] != NONE).then(|| self.h(self.parent[n]))
    }
    pub fn parent_id(&self, n: usize) -> Option<usize> {
        (self.parent[n] != NONE).then(|| self.parent[n] as usize)
    }
    pub fn first(&self, n: usize) -> Option<usize> {
        self.kids[n].first().map(|&k| self.h(k))
    }
    pub fn last(&self, n: usize) -> Option<usize> {
        self.kids[n].last().map(|&k| self.h(k))
    }
    fn sibs(&self, n: usize) -> &[u32] {
        if self.parent[n] == NONE {
            &self.roots
        } else {
            &self.kids[self.parent[n] as usize]
        }
    }
    pub fn next(&self, n: usize) -> Option<usize> {
        self.sibs(n).get(self.rank[n] as usize + 1).map(|&k| self.h(k))
    }
    pub fn prev(&self, n: usize) -> Option<usize> {
        let r = self.rank[n] as usize;
        (r > 0).then(|| self.h(self.sibs(n)[r - 1]))
    }
    pub fn level_next(&self, n: usize) -> Option<usize> {
        self.levels[self.depth[n] as usize].get(self.lrank[n] as usize + 1).map(|&k| self.h(k))
    }
    pub fn level_prev(&self, n: usize) -> Option<usize> {
        let r = self.lrank[n] as usize;
        (r > 0).then(|| self.h(self.levels[self.depth[n] as usize][r - 1]))
    }
    pub fn leftmost(&self, l: usize) -> Option<usize> {
        self.levels.get(l).map(|v| self.h(v[0]))
    }
    pub fn rightmost(&self, l: usize) -> Option<usize> {
        self.levels.get(l).map(|v| self.h(*v.last().unwrap()))
    }
    /// by following parents
    pub fn ancestor(&self, n: usize, l: usize) -> Option<usize> {
        // the last node of that level that does not come after n in pre-order
        let d = (self.depth[n] as usize).checked_sub(l)?;
        let v = &self.levels[d];
        let k = v.partition_point(|&x| x as usize <= n);
        Some(self.h(v[k - 1]))
    }
    /// the pre-order interval test
    pub fn is_ancestor(&self, a: usize, d: usize) -> bool {
        a <= d && d < a + self.size[a] as usize
    }
}

// ---------------------------------------------------------------- spaces
/// All balanced sequences of at most `n` pairs.
pub struct Dyck {
    /// ways[k][e] = number of ways to finish with k parentheses left at excess e
    ways: Vec<Vec<u64>>,
    pub count: u64,
}
impl Dyck {
    pub fn new(n: usize) -> Dyck {
        let l = 2 * n;
        let mut ways = vec![vec![0u64; l + 2]; l + 1];
        ways[0][0] = 1;
        for k in 1..=l {
            for e in 0..=l {
                ways[k][e] = ways[k - 1][e + 1] + if e > 0 { ways[k - 1][e - 1] } else { 0 };
            }
        }
        let count = (0..=n).map(|i| ways[2 * i][0]).sum();
        Dyck { ways, count }
    }
    pub fn get(&self, mut idx: u64) -> BM {
        let mut pairs = 0;
        while idx >= self.ways[2 * pairs][0] {
            idx -= self.ways[2 * pairs][0];
            pairs += 1;
        }
        let mut b = BM::new();
        let mut e = 0;
        for k in (0..2 * pairs).rev() {
            let up = self.ways[k][e + 1];
            if idx < up {
                b.push(true);
                e += 1;
            } else {
                idx -= up;
                b.push(false);
                e -= 1;
            }
        }
        b
    }
}

/// Tree programs: start with nothing, apply operations, wrap in a root.
pub const GRAMMAR: u64 = 9;
pub fn grammar(mut prog: u64, steps: u32, k: usize) -> BM {
    let mut t = BM::new();
    let path = |n: usize| {
        let mut b = BM::new();
        b.run(true, n);
        b.run(false, n);
        b
    };
    let star = |n: usize| {
        let mut b = BM::new();
        for _ in 0..n {
            b.push(true);
            b.push(false);
        }
        b
    };
    let cat = |a: &BM, b: &BM| {
        let mut c = a.clone();
        c.extend(b);
        c
    };
    let wrap = |t: &BM, n: usize| {
        let mut b = BM::new();
        b.run(true, n);
        b.extend(t);
        b.run(false, n);
        b
    };
    for _ in 0..steps {
        let op = prog % GRAMMAR;
        prog /= GRAMMAR;
        t = match op {
            0 => t,
            1 => wrap(&t, 1),
            2 => wrap(&t, k),
            3 => cat(&t, &star(k)),
            4 => cat(&star(k), &t),
            5 => cat(&t, &path(k)),
            6 => cat(&path(k), &t),
            7 => cat(&t, &t),
            _ => cat(&t, &star(1)),
        };
    }
    wrap(&t, 1)
}
pub fn grammar_count(steps: u32) -> u64 {
    GRAMMAR.pow(steps)
}

/// Large trees of `n` nodes.
pub const SHAPES: u64 = 10;
pub fn shape(kind: u64, n: usize) -> BM {
    let mut b = BM::new();
    if n == 0 {
        return b;
    }
    match kind {
        0 => {
            b.run(true, n);
            b.run(false, n);
        }
        1 => {
            b.push(true);
            for _ in 1..n {
                b.push(true);
                b.push(false);
            }
            b.push(false);
        }
        2 => {
            // caterpillar: leaf before the spine child
            let s = n / 2;
            for _ in 0..s {
                b.push(true);
                b.push(true);
                b.push(false);
            }
            b.run(false, s);
            return wrap_rest(b, n);
        }
        3 => {
            // caterpillar: leaf after the spine child
            let s = n / 2;
            b.run(true, s);
            for _ in 0..s {
                b.push(true);
                b.push(false);
                b.push(false);
            }
            return wrap_rest(b, n);
        }
        4 => {
            // complete binary
            fn rec(b: &mut BM, n: usize) {
                if n == 0 {
                    return;
                }
                b.push(true);
                rec(b, (n - 1) / 2);
                rec(b, n - 1 - (n - 1) / 2);
                b.push(false);
            }
            rec(&mut b, n);
        }
        5 => {
            // star of paths of growing length
            b.push(true);
            let mut left = n - 1;
            let mut k = 1;
            while left > 0 {
                let m = k.min(left);
                b.run(true, m);
                b.run(false, m);
                left -= m;
                k += 1;
            }
            b.push(false);
        }
        6 => {
            // star of long paths
            b.push(true);
            let mut left = n - 1;
            while left > 0 {
                let m = left.min(n / 3 + 1);
                b.run(true, m);
                b.run(false, m);
                left -= m;
            }
            b.push(false);
        }
        7 => {
            // broom: a path ending in a star
            let s = n / 2;
            b.run(true, s);
            for _ in 0..n - s {
                b.push(true);
                b.push(false);
            }
            b.run(false, s);
            if s == 0 {
                return b;
            }
        }
        8 => {
            // deterministic zig-zag: depth follows a slowly drifting pattern
            let (mut e, mut opened, mut x) = (0usize, 0usize, 0x2545_f491_4f6c_dd1du64);
            b.push(true);
            opened += 1;
            while opened < n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                if e > 0 && x % 16 < 7 {
                    b.push(false);
                    e -= 1;
                } else {
                    b.push(true);
                    e += 1;
                    opened += 1;
                }
            }
            b.run(false, e + 1);
        }
        _ => {
            // a star, then a deep path, then a star
            b.push(true);
            let left = n - 1;
            let (a, p) = (left / 3, left / 3);
            for _ in 0..a {
                b.push(true);
                b.push(false);
            }
            b.run(true, p);
            b.run(false, p);
            for _ in 0..left - a - p {
                b.push(true);
                b.push(false);
            }
            b.push(false);
        }
    }
    b
}
fn wrap_rest(b: BM, n: usize) -> BM {
    // b holds 2*(n/2) nodes; add a root when n is odd
    if n % 2 == 0 {
        return b;
    }
    let mut r = BM::new();
    r.push(true);
    r.extend(&b);
    r.push(false);
    r
}

/// Unbalanced bricks for the search property.
pub const BRICKS: u64 = 8;
pub fn brick(kind: u64, n: usize) -> BM {
    let mut b = BM::new();
    match kind {
        0 => {
            b.run(true, n);
        }
        1 => {
            b.run(false, n);
        }
        2 => {
            for i in 0..n {
                b.push(i % 2 == 0);
            }
        }
        3 => {
            for i in 0..n {
                b.push(i % 2 == 1);
            }
        }
        4 => {
            b.run(true, n / 2);
            b.run(false, n - n / 2);
        }
        5 => {
            b.run(false, n / 2);
            b.run(true, n - n / 2);
        }
        6 => {
            for i in 0..n {
                b.push(i % 3 != 2);
            }
        }
        _ => {
            for i in 0..n {
                b.push(i % 3 == 2);
            }
        }
    }
    b
}
/// concatenation of `m` bricks of length about n
pub fn wall(d: &mut Dec, m: u32, n: usize) -> BM {
    let mut b = BM::new();
    for _ in 0..m {
        let k = d.take(BRICKS);
        b.extend(&brick(k, n));
    }
    b
}
/// a^i b^j a^k ... runs of alternating parentheses
pub fn runs(start: bool, lens: &[usize]) -> BM {
    let mut b = BM::new();
    let mut x = start;
    for &l in lens {
        b.run(x, l);
        x = !x;
    }
    b
}
pub fn string(i: u64) -> BM {
    gen::string(i)
}
