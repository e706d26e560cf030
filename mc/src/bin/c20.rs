//! C20: the contract of element iterators, for every collection, in every interleaving of calls.
use mc::iterprog::{self, End, Op, ENDS, OPSX};
use mc::model::*;
use mc::wav::{self, Seq};
use mc::*;
use vers_vecs::{BitVec, EliasFanoVec, RsVec, WaveletMatrix};

const STRUCT: usize = 4;
fn bits(n: usize, kind: u64) -> BM {
    let mut b = BM::new();
    for i in 0..n as u64 {
        b.push(match kind {
            0 => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 63 == 1,
            _ => i == 0 || i + 1 == n as u64,
        });
    }
    b
}
fn seqs() -> Vec<Vec<u64>> {
    vec![
        vec![],
        vec![0],
        vec![7],
        vec![u64::MAX],
        vec![5, 5],
        vec![0, u64::MAX],
        vec![4, 4, 4, 4, 4, 4],
        vec![0, 1, 2, 3, 4, 5, 6],
        vec![3, 3, 3, 9, 1000, 1001, 1 << 40],
        vec![1 << 62, (1 << 62) + 5, u64::MAX],
        vec![100, 101, 103, 104, 109, 120, 121, 122, 130, 131],
        (0..70).map(|x| 1000 + x * 3 + x * x).collect(),
    ]
}
fn mats() -> Vec<Seq> {
    let mut r = vec![];
    for k in [1usize, 3, 8, 64, 65, 130] {
        for n in [0usize, 1, 2, 5, 9] {
            let v = (0..n as u64)
                .map(|i| {
                    let h = (i + 3).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                    if i == 3 {
                        wav::sym(k, 2)
                    } else {
                        wav::splat(k, h ^ (h >> 31))
                    }
                })
                .collect();
            r.push(Seq { k, v });
        }
    }
    r
}
/// mapped to the model's representation so that results compare and print uniformly
fn syms(v: &[wav::Sym]) -> Vec<BitVec> {
    v.iter().map(|s| s.bv(Dirt::Clean)).collect()
}

fn main() {
    let mut r = Runner::new("C20");
    let depth = r.t(4u32, 5u32);
    let per = iterprog::programs(depth, &OPSX, &ENDS);

    let lens = [0usize, 1, 2, 3, 6, 64, 65];
    let nb = lens.len() as u64 * 2;
    let bms: Vec<BM> = (0..nb).map(|i| bits(lens[i as usize % lens.len()], i / lens.len() as u64)).collect();
    let bvs: Vec<BitVec> = bms.iter().enumerate().map(|(i, b)| b.bv(DIRTS[i % 2])).collect();
    let rss: Vec<RsVec> = bvs.iter().map(|b| RsVec::from_bit_vec(b.clone())).collect();
    let mods: Vec<Vec<u64>> = bms.iter().map(|b| b.bools().iter().map(|&x| x as u64).collect()).collect();
    r.family("bits", per * nb, move |i, c| {
        let mut d = Dec(i);
        let s = d.take(nb) as usize;
        let (prog, end) = iterprog::program(d.0, depth as usize, &OPSX, &ENDS);
        let m = &mods[s];
        c.note(|| format!("{:?}: {prog:?} then {end:?}", bms[s]));
        c.visit(i);
        iterprog::run(c, bvs[s].iter(), m, &prog, end)?;
        iterprog::run(c, rss[s].iter(), m, &prog, end)?;
        match i % 6 {
            0 => iterprog::run(c, bvs[s].clone().into_iter(), m, &prog, end),
            1 => iterprog::run(c, rss[s].clone().into_iter(), m, &prog, end),
            2 => iterprog::run(c, (&bvs[s]).into_iter(), m, &prog, end),
            3 => iterprog::run(c, (&mut bvs[s].clone()).into_iter(), m, &prog, end),
            4 => iterprog::run(c, (&mut rss[s].clone()).into_iter(), m, &prog, end),
            _ => iterprog::minmax(c, bvs[s].iter(), m, &prog),
        }
    });

    let sq: &'static Vec<Vec<u64>> = Box::leak(Box::new(seqs()));
    let efs: Vec<EliasFanoVec> = sq.iter().map(|s| EliasFanoVec::from_slice(s)).collect();
    let ns = sq.len() as u64;
    r.family("eliasfano", per * ns, move |i, c| {
        let mut d = Dec(i);
        let s = d.take(ns) as usize;
        let (prog, end) = iterprog::program(d.0, depth as usize, &OPSX, &ENDS);
        let m = &sq[s];
        c.note(|| format!("{m:?}: {prog:?} then {end:?}"));
        c.visit(i);
        iterprog::run(c, efs[s].iter(), m, &prog, end)?;
        match i % 4 {
            0 => iterprog::run(c, efs[s].clone().into_iter(), m, &prog, end),
            1 => iterprog::minmax(c, efs[s].clone().into_iter(), m, &prog),
            2 => iterprog::run(c, (&mut efs[s].clone()).into_iter(), m, &prog, end),
            _ => iterprog::minmax(c, (&efs[s]).into_iter(), m, &prog),
        }
    });

    struct Mat {
        s: Seq,
        w: WaveletMatrix,
        nums: Vec<u64>,
        vals: Vec<BitVec>,
        snums: Vec<u64>,
        svals: Vec<BitVec>,
    }
    let ms: &'static Vec<Mat> = Box::leak(Box::new(
        mats()
            .into_iter()
            .map(|s| {
                let so = s.sorted(0, s.v.len());
                Mat {
                    w: WaveletMatrix::from_bit_vec(&s.packed().bv(Dirt::Ones), s.k as u16),
                    nums: s.nums(),
                    vals: syms(&s.v),
                    snums: so.iter().map(wav::num).collect(),
                    svals: syms(&so),
                    s,
                }
            })
            .collect(),
    ));
    let nm = ms.len() as u64;
    let wd = r.t(3u32, 4u32);
    let perw = iterprog::programs(wd, &OPSX, &ENDS);
    r.family("wavelet", perw * nm, move |i, c| {
        let mut d = Dec(i);
        let m = &ms[d.take(nm) as usize];
        let (prog, end) = iterprog::program(d.0, wd as usize, &OPSX, &ENDS);
        c.note(|| format!("{:?}: {prog:?} then {end:?}", m.s));
        c.visit(i);
        iterprog::run(c, m.w.iter(), &m.vals, &prog, end)?;
        iterprog::run(c, m.w.iter_sorted(), &m.svals, &prog, end)?;
        let fits = m.s.k <= 64;
        match (m.w.iter_u64(), m.w.iter_sorted_u64()) {
            (Some(a), Some(b)) => {
                ck!(c, fits, "64-bit iterators offered for {} bit symbols", m.s.k);
                if (i / nm) % 2 == 0 {
                    iterprog::minmax(c, a.clone(), &m.nums, &prog)?;
                    iterprog::minmax(c, b.clone(), &m.snums, &prog)?;
                }
                iterprog::run(c, a, &m.nums, &prog, end)?;
                iterprog::run(c, b, &m.snums, &prog, end)?;
            }
            (None, None) => ck!(c, !fits, "no 64-bit iterators for {} bit symbols", m.s.k),
            _ => return Err("only one of the 64-bit iterators is offered".into()),
        }
        match i / nm % 5 {
            0 => iterprog::run(c, m.w.clone().into_iter(), &m.vals, &prog, end)?,
            1 => iterprog::run(c, m.w.clone().into_iter_sorted(), &m.svals, &prog, end)?,
            2 => match m.w.clone().into_iter_u64() {
                Some(a) => iterprog::run(c, a, &m.nums, &prog, end)?,
                None => ck!(c, !fits, "no owned 64-bit iterator"),
            },
            3 => match m.w.clone().into_iter_sorted_u64() {
                Some(a) => iterprog::run(c, a, &m.snums, &prog, end)?,
                None => ck!(c, !fits, "no owned sorted 64-bit iterator"),
            },
            _ => iterprog::run(c, (&m.w).into_iter(), &m.vals, &prog, end)?,
        }
        Ok(())
    });

    // jumps to every distance from both ends over lengths that cross words and blocks
    let lens2 = [1usize, 63, 64, 65, 127, 128, 200, 513, 600];
    r.family("jumps", lens2.len() as u64 * STRUCT as u64, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&lens2);
        let kind = d.take(STRUCT as u64);
        c.note(|| format!("length {n}, collection {kind}"));
        c.visit(i);
        let b = bits(n, 0);
        let bv = b.bv(Dirt::Ones);
        let rs = RsVec::from_bit_vec(bv.clone());
        let m: Vec<u64> = b.bools().iter().map(|&x| x as u64).collect();
        let es: Vec<u64> = (0..n as u64).map(|x| 77 + x * 5 + x % 3).collect();
        let ef = EliasFanoVec::from_slice(&es);
        let ws: Vec<u64> = (0..n as u64).map(|x| x.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 57).collect();
        let w = WaveletMatrix::from_slice(&ws, 7);
        let mut sorted = ws.clone();
        sorted.sort_unstable();
        for k in 0..=n + 1 {
            for first in [Op::Nth(k), Op::NthBack(k)] {
                let prog = [first, Op::Back, Op::Next, Op::NthBack(k / 2), Op::Nth(k / 2)];
                for end in [End::Last, End::Count] {
                    match kind {
                        0 => iterprog::run(c, bv.iter(), &m, &prog, end)?,
                        1 => iterprog::run(c, rs.iter(), &m, &prog, end)?,
                        2 => iterprog::run(c, ef.iter(), &es, &prog, end)?,
                        _ => {
                            iterprog::run(c, w.iter_u64().unwrap(), &ws, &prog, end)?;
                            iterprog::run(c, w.iter_sorted_u64().unwrap(), &sorted, &prog, end)?;
                        }
                    }
                }
                if k < 3 || k + 3 > n {
                    match kind {
                        0 => iterprog::run(c, bv.iter(), &m, &prog, End::Collect)?,
                        1 => iterprog::run(c, rs.iter(), &m, &prog, End::Rev)?,
                        2 => iterprog::run(c, ef.iter(), &es, &prog, End::Zip)?,
                        _ => iterprog::run(c, w.iter_u64().unwrap(), &ws, &prog, End::Collect)?,
                    }
                }
            }
        }
        Ok(())
    });
    // far jumps in long collections
    r.family("farjumps", 2 * STRUCT as u64, move |i, c| {
        let mut d = Dec(i);
        let n = *d.pick(&[70_001usize, 300_003]);
        let kind = d.take(STRUCT as u64);
        c.note(|| format!("length {n}, collection {kind}"));
        c.visit(i);
        let b = gen::mixed(n, 20);
        let bv = b.bv(Dirt::Ones);
        let rs = RsVec::from_bit_vec(bv.clone());
        let m: Vec<u64> = b.bools().iter().map(|&x| x as u64).collect();
        let mut es: Vec<u64> = (0..n as u64).map(|x| 77 + x * 5 + gen::scramble(x) % 5).collect();
        es.sort_unstable();
        let ef = EliasFanoVec::from_slice(&es);
        let ws: Vec<u64> = (0..n as u64).map(|x| gen::scramble(x) >> 57).collect();
        let w = WaveletMatrix::from_slice(&ws, 7);
        let mut sorted = ws.clone();
        sorted.sort_unstable();
        let mut ks: Vec<usize> = vec![0, 1, n / 3, n / 2, n - 1, n, n + 1];
        for e in [10, 13, 15, 16, 17, 18] {
            ks.extend([(1usize << e) - 1, 1 << e, (1 << e) + 1]);
        }
        for &k in ks.iter().filter(|&&k| k <= n + 1) {
            for first in [Op::Nth(k), Op::NthBack(k)] {
                let prog = [first, Op::Back, Op::Next, Op::NthBack(k / 2), Op::Nth(k / 3), Op::Back, Op::Next];
                for end in [End::Last, End::Count] {
                    match kind {
                        0 => iterprog::run(c, bv.iter(), &m, &prog, end)?,
                        1 => iterprog::run(c, rs.iter(), &m, &prog, end)?,
                        2 => iterprog::run(c, ef.iter(), &es, &prog, end)?,
                        _ => {
                            iterprog::run(c, w.iter_u64().unwrap(), &ws, &prog, end)?;
                            iterprog::run(c, w.iter_sorted_u64().unwrap(), &sorted, &prog, end)?;
                        }
                    }
                }
                match kind {
                    0 => iterprog::run(c, bv.clone().into_iter(), &m, &prog, End::Collect)?,
                    1 => iterprog::run(c, rs.clone().into_iter(), &m, &prog, End::Rev)?,
                    2 => iterprog::run(c, ef.clone().into_iter(), &es, &prog, End::Zip)?,
                    _ => iterprog::run(c, w.iter_u64().unwrap(), &ws, &prog, End::Collect)?,
                }
            }
        }
        Ok(())
    });
    r.finish()
}
