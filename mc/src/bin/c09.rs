//! C09: Elias-Fano element access, differences and iteration.
use mc::ef::seq_fams;
use mc::iterprog::{self, End, Op, ENDS, OPS};
use mc::*;
use vers_vecs::EliasFanoVec;

fn check(c: &mut Ctx, v: &[u64]) -> R {
    c.visit_global(hash_of(v));
    let e = EliasFanoVec::from_slice(v);
    eq!(c, e.len(), v.len(), "len");
    eq!(c, e.is_empty(), v.is_empty(), "is_empty");
    for (i, &x) in v.iter().enumerate() {
        eq!(c, e.get(i), Some(x), "get({i})");
        eq!(c, e.get_unchecked(i), x, "get_unchecked({i})");
        eq!(c, e.select(i), Some(x), "select({i})");
        let want = if i == 0 { x } else { x - v[i - 1] };
        eq!(c, e.delta(i), Some(want), "delta({i})");
    }
    for i in [v.len(), v.len() + 1, v.len() + 64, usize::MAX] {
        eq!(c, e.get(i), None, "get({i}) past the end");
        eq!(c, e.select(i), None, "select({i}) past the end");
        eq!(c, e.delta(i), None, "delta({i}) past the end");
    }
    eq!(c, e.iter().min(), v.first().copied(), "iter().min()");
    eq!(c, e.iter().max(), v.last().copied(), "iter().max()");
    eq!(c, e.iter().last(), v.last().copied(), "iter().last()");
    eq!(c, e.iter().count(), v.len(), "iter().count()");
    for end in [End::Collect, End::Rev, End::Zip] {
        iterprog::run(c, e.iter(), v, &[], end)?;
    }
    iterprog::run(c, e.iter(), v, &[Op::Nth(v.len() / 3), Op::Back, Op::NthBack(v.len() / 3)], End::Collect)?;
    iterprog::run(c, e.iter(), v, &[Op::NthBack(v.len() / 2), Op::Next], End::Rev)?;
    let mut it = e.iter();
    it.next();
    eq!(c, it.clone().min(), v.get(1).copied(), "min() after next()");
    it.next_back();
    let rest: &[u64] = if v.len() > 2 { &v[1..v.len() - 1] } else { &[] };
    eq!(c, it.clone().max(), rest.last().copied(), "max() after next(), next_back()");
    eq!(c, it.last(), rest.last().copied(), "last() after next(), next_back()");
    let w: Vec<u64> = (&e).into_iter().collect();
    ck!(c, w == v, "borrowed into_iter differs");
    iterprog::run(c, e.into_iter(), v, &[], End::Collect)
}

fn main() {
    let mut r = Runner::new("C09");
    let t = r.thorough;
    for f in seq_fams(t) {
        let g = f.f;
        r.family(f.name, f.count, move |i, c| {
            let v = g(i, t);
            c.note(|| format!("{v:?}"));
            check(c, &v)
        });
    }
    // every iterator program on representative sequences
    let seqs: Vec<Vec<u64>> = vec![
        vec![],
        vec![7],
        vec![u64::MAX],
        vec![5, 5],
        vec![0, 1, 2, 3, 4, 5, 6],
        vec![3, 3, 3, 9, 1000, 1001, 1 << 40],
        vec![1 << 62, (1 << 62) + 5, u64::MAX],
        (0..600).map(|x| 10 + x * 3).collect(),
        (0..9000u64).map(|x| x * x).collect(),
    ];
    let n = seqs.len() as u64;
    let depth = r.t(4u32, 5u32);
    let efs: Vec<EliasFanoVec> = seqs.iter().map(|s| EliasFanoVec::from_slice(s)).collect();
    r.family("programs", n * iterprog::programs(depth, &OPS, &ENDS), move |i, c| {
        let mut d = Dec(i);
        let s = d.take(n) as usize;
        let (prog, end) = iterprog::program(d.0, depth as usize, &OPS, &ENDS);
        c.note(|| format!("sequence {s} of length {}, {prog:?} then {end:?}", seqs[s].len()));
        // long sequences: only programs whose end does not walk the whole rest
        if seqs[s].len() > 100 && !matches!(end, End::Last | End::Count) {
            return Ok(());
        }
        c.visit(i);
        iterprog::run(c, efs[s].iter(), &seqs[s], &prog, end)
    });
    r.finish()
}
