//! Exhaustive call programs for double-ended iterators, compared with a slice model.
use crate::{ck, eq, Ctx, R};
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Collect,
    Rev,
    Last,
    Count,
    Fold,
    StepBy(usize),
    Skip(usize),
    /// alternate front and back
    Zip,
}
pub const OPS: [Op; 9] = [
    Op::Next,
    Op::Back,
    Op::Nth(0),
    Op::NthBack(0),
    Op::Nth(1),
    Op::NthBack(1),
    Op::Nth(3),
    Op::NthBack(3),
    Op::Nth(usize::MAX),
];
/// including skips far past the other end
pub const OPSX: [Op; 10] = [
    Op::Next,
    Op::Back,
    Op::Nth(0),
    Op::NthBack(0),
    Op::Nth(1),
    Op::NthBack(1),
    Op::Nth(3),
    Op::NthBack(3),
    Op::Nth(usize::MAX),
    Op::NthBack(usize::MAX),
];
pub const ENDS: [End; 8] =
    [End::Collect, End::Rev, End::Last, End::Count, End::Fold, End::StepBy(2), End::Skip(1), End::Zip];

/// Decode a program: up to `depth` operations (an index below the count for that depth), plus a final operation.
pub fn program(mut idx: u64, depth: usize, ops: &[Op], ends: &[End]) -> (Vec<Op>, End) {
    let end = ends[(idx % ends.len() as u64) as usize];
    idx /= ends.len() as u64;
    let mut v = vec![];
    for _ in 0..depth {
        v.push(ops[(idx % ops.len() as u64) as usize]);
        idx /= ops.len() as u64;
    }
    (v, end)
}
pub fn programs(depth: u32, ops: &[Op], ends: &[End]) -> u64 {
    (ops.len() as u64).pow(depth) * ends.len() as u64
}

/// Drive one iterator through one program. Every call's result, the remaining length and the size hint are
/// compared with the slice model after every step.
pub fn run<I, T>(c: &mut Ctx, mut it: I, model: &[T], prog: &[Op], end: End) -> R
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    T: PartialEq + Debug + Clone,
{
    let (lo, hi) = steps(c, &mut it, model, prog)?;
    finish(c, it, &model[lo..hi], prog, end)
}
/// The program without a final call; returns the range of elements that is left.
pub fn steps<I, T>(c: &mut Ctx, it: &mut I, model: &[T], prog: &[Op]) -> Result<(usize, usize), String>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    T: PartialEq + Debug + Clone,
{
    let (mut lo, mut hi) = (0usize, model.len());
    let lencheck = |it: &I, lo: usize, hi: usize, c: &mut Ctx, at: usize| -> R {
        eq!(c, it.len(), hi - lo, "len() after step {at} of {prog:?}");
        eq!(c, it.size_hint(), (hi - lo, Some(hi - lo)), "size_hint() after step {at} of {prog:?}");
        Ok(())
    };
    lencheck(it, lo, hi, c, 0)?;
    for (k, op) in prog.iter().enumerate() {
        let (got, want) = match *op {
            Op::Next => {
                let w = if lo < hi {
                    lo += 1;
                    Some(model[lo - 1].clone())
                } else {
                    None
                };
                (it.next(), w)
            }
            Op::Back => {
                let w = if lo < hi {
                    hi -= 1;
                    Some(model[hi].clone())
                } else {
                    None
                };
                (it.next_back(), w)
            }
            Op::Nth(n) => {
                let w = if n < hi - lo {
                    lo += n + 1;
                    Some(model[lo - 1].clone())
                } else {
                    lo = hi;
                    None
                };
                (it.nth(n), w)
            }
            Op::NthBack(n) => {
                let w = if n < hi - lo {
                    hi -= n + 1;
                    Some(model[hi].clone())
                } else {
                    hi = lo;
                    None
                };
                (it.nth_back(n), w)
            }
        };
        eq!(c, got, want, "step {} of {prog:?}", k + 1);
        lencheck(it, lo, hi, c, k + 1)?;
    }
    Ok((lo, hi))
}
/// min() and max() of what a program leaves, for ordered elements, through clones of the iterator.
pub fn minmax<I, T>(c: &mut Ctx, mut it: I, model: &[T], prog: &[Op]) -> R
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
    T: Ord + Debug + Clone,
{
    let (lo, hi) = steps(c, &mut it, model, prog)?;
    let rest = &model[lo..hi];
    eq!(c, it.clone().min(), rest.iter().min().cloned(), "min() after {prog:?}");
    eq!(c, it.clone().max(), rest.iter().max().cloned(), "max() after {prog:?}");
    let copy = it.clone();
    eq!(c, it.next(), rest.first().cloned(), "next() after {prog:?} and clone()");
    eq!(c, copy.len(), rest.len(), "length of a clone after {prog:?}");
    ck!(c, copy.eq(rest.iter().cloned()), "a clone taken after {prog:?} differs");
    Ok(())
}

fn finish<I, T>(c: &mut Ctx, mut it: I, rest: &[T], prog: &[Op], end: End) -> R
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    T: PartialEq + Debug + Clone,
{
    match end {
        End::Collect => {
            for (i, w) in rest.iter().enumerate() {
                eq!(c, it.next(), Some(w.clone()), "remaining item {i} after {prog:?}");
            }
            for _ in 0..3 {
                eq!(c, it.next(), None, "exhausted iterator after {prog:?}");
                eq!(c, it.next_back(), None, "exhausted iterator (back) after {prog:?}");
                eq!(c, it.len(), 0, "len of exhausted iterator after {prog:?}");
            }
            eq!(c, it.nth(0), None, "nth(0) of exhausted iterator after {prog:?}");
            eq!(c, it.nth_back(0), None, "nth_back(0) of exhausted iterator after {prog:?}");
        }
        End::Rev => {
            for (i, w) in rest.iter().enumerate().rev() {
                eq!(c, it.next_back(), Some(w.clone()), "remaining item {i} from the back after {prog:?}");
            }
            for _ in 0..3 {
                eq!(c, it.next_back(), None, "exhausted iterator (back) after {prog:?}");
                eq!(c, it.next(), None, "exhausted iterator after {prog:?}");
                eq!(c, it.len(), 0, "len of exhausted iterator after {prog:?}");
            }
            eq!(c, it.nth_back(2), None, "nth_back(2) of exhausted iterator after {prog:?}");
        }
        End::Last => eq!(c, it.last(), rest.last().cloned(), "last() after {prog:?}"),
        End::Count => eq!(c, it.count(), rest.len(), "count() after {prog:?}"),
        End::Fold => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            ck!(c, v == rest, "for_each after {prog:?}: got {v:?}, expected {rest:?}");
        }
        End::StepBy(n) => {
            let v: Vec<T> = it.step_by(n).collect();
            let w: Vec<T> = rest.iter().step_by(n).cloned().collect();
            ck!(c, v == w, "step_by({n}) after {prog:?}: got {v:?}, expected {w:?}");
        }
        End::Skip(n) => {
            let v: Vec<T> = it.skip(n).rev().collect();
            let w: Vec<T> = rest.iter().skip(n).rev().cloned().collect();
            ck!(c, v == w, "skip({n}).rev() after {prog:?}: got {v:?}, expected {w:?}");
        }
        End::Zip => {
            let (mut lo, mut hi) = (0, rest.len());
            let mut front = true;
            while lo < hi {
                if front {
                    eq!(c, it.next(), Some(rest[lo].clone()), "alternating front after {prog:?}");
                    lo += 1;
                } else {
                    hi -= 1;
                    eq!(c, it.next_back(), Some(rest[hi].clone()), "alternating back after {prog:?}");
                }
                front = !front;
            }
            eq!(c, it.next(), None, "exhausted after alternating {prog:?}");
            eq!(c, it.next_back(), None, "exhausted (back) after alternating {prog:?}");
        }
    }
    Ok(())
}
