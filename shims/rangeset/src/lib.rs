//! Stand-in for `rangeset` 0.4: sorted, disjoint, non-adjacent, non-empty ranges.
pub mod set {
    use serde::{Deserialize, Serialize};
    use std::ops::Range;

    #[derive(Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    #[serde(from = "Vec<Range<T>>", into = "Vec<Range<T>>", bound(serialize = "T: Serialize + Clone", deserialize = "T: Deserialize<'de> + Ord + Copy"))]
    pub struct RangeSet<T> {
        pub(crate) ranges: Vec<Range<T>>,
    }
    impl<T: std::fmt::Debug> std::fmt::Debug for RangeSet<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_set().entries(&self.ranges).finish()
        }
    }
    impl<T> Default for RangeSet<T> {
        fn default() -> Self {
            Self { ranges: vec![] }
        }
    }
    pub(crate) fn norm<T: Ord + Copy>(mut v: Vec<Range<T>>) -> RangeSet<T> {
        v.retain(|r| r.start < r.end);
        v.sort_by_key(|r| r.start);
        let mut out: Vec<Range<T>> = vec![];
        for r in v {
            match out.last_mut() {
                Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                _ => out.push(r),
            }
        }
        RangeSet { ranges: out }
    }
    impl<T: PartialEq> PartialEq<Range<T>> for RangeSet<T> {
        fn eq(&self, o: &Range<T>) -> bool {
            matches!(&self.ranges[..], [r] if r == o)
        }
    }
    impl<T: PartialEq> PartialEq<Range<T>> for &RangeSet<T> {
        fn eq(&self, o: &Range<T>) -> bool {
            **self == *o
        }
    }
    impl<T: Ord + Copy> From<Vec<Range<T>>> for RangeSet<T> {
        fn from(v: Vec<Range<T>>) -> Self {
            norm(v)
        }
    }
    impl<T: Ord + Copy, const N: usize> From<[Range<T>; N]> for RangeSet<T> {
        fn from(v: [Range<T>; N]) -> Self {
            norm(v.to_vec())
        }
    }
    impl<T: Ord + Copy> From<&[Range<T>]> for RangeSet<T> {
        fn from(v: &[Range<T>]) -> Self {
            norm(v.to_vec())
        }
    }
    impl<T: Ord + Copy> From<Range<T>> for RangeSet<T> {
        fn from(v: Range<T>) -> Self {
            norm(vec![v])
        }
    }
    impl<T> From<RangeSet<T>> for Vec<Range<T>> {
        fn from(s: RangeSet<T>) -> Self {
            s.ranges
        }
    }
    impl<T: Ord + Copy> RangeSet<T> {
        pub fn iter(&self) -> impl Iterator<Item = Range<T>> + Clone + '_ {
            self.ranges.iter().cloned()
        }
        pub fn is_empty(&self) -> bool {
            self.ranges.is_empty()
        }
        pub fn len_ranges(&self) -> usize {
            self.ranges.len()
        }
        pub fn min(&self) -> Option<T> {
            self.ranges.first().map(|r| r.start)
        }
        pub fn end(&self) -> Option<T> {
            self.ranges.last().map(|r| r.end)
        }
    }
    impl RangeSet<usize> {
        pub fn len(&self) -> usize {
            self.ranges.iter().map(|r| r.len()).sum()
        }
        pub fn iter_values(&self) -> impl Iterator<Item = usize> + '_ {
            self.ranges.iter().cloned().flatten()
        }
        pub fn contains(&self, v: &usize) -> bool {
            self.ranges.iter().any(|r| r.contains(v))
        }
    }
}

pub mod iter {
    use super::set::{norm, RangeSet};
    use std::ops::Range;

    /// Anything that yields ranges.
    pub trait IntoRangeIterator<T> {
        fn ranges(self) -> Vec<Range<T>>;
    }
    impl<T: Clone> IntoRangeIterator<T> for Range<T> {
        fn ranges(self) -> Vec<Range<T>> {
            vec![self]
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &Range<T> {
        fn ranges(self) -> Vec<Range<T>> {
            vec![self.clone()]
        }
    }
    impl<T> IntoRangeIterator<T> for RangeSet<T> {
        fn ranges(self) -> Vec<Range<T>> {
            self.ranges
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &RangeSet<T> {
        fn ranges(self) -> Vec<Range<T>> {
            self.ranges.clone()
        }
    }
    impl<T, const N: usize> IntoRangeIterator<T> for [Range<T>; N] {
        fn ranges(self) -> Vec<Range<T>> {
            self.into()
        }
    }
    impl<T> IntoRangeIterator<T> for Vec<Range<T>> {
        fn ranges(self) -> Vec<Range<T>> {
            self
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &[Range<T>] {
        fn ranges(self) -> Vec<Range<T>> {
            self.to_vec()
        }
    }
    impl<T> IntoRangeIterator<T> for Sorted<T> {
        fn ranges(self) -> Vec<Range<T>> {
            self.0.collect()
        }
    }
    pub trait FromRangeIterator<T>: Sized {
        fn from_range_iter(r: impl IntoRangeIterator<T>) -> Self;
    }
    impl<T: Ord + Copy> FromRangeIterator<T> for RangeSet<T> {
        fn from_range_iter(r: impl IntoRangeIterator<T>) -> Self {
            norm(r.ranges())
        }
    }
    /// Ordered ranges of a set operation.
    #[derive(Clone)]
    pub struct Sorted<T>(pub(crate) std::vec::IntoIter<Range<T>>);
    impl<T> Iterator for Sorted<T> {
        type Item = Range<T>;
        fn next(&mut self) -> Option<Range<T>> {
            self.0.next()
        }
    }
    pub trait RangeIterator<T> {
        fn into_set(self) -> RangeSet<T>;
    }
    impl<T: Ord + Copy> RangeIterator<T> for Sorted<T> {
        fn into_set(self) -> RangeSet<T> {
            norm(self.0.collect())
        }
    }
}

pub mod ops {
    use super::iter::{IntoRangeIterator, Sorted};
    use super::set::{norm, RangeSet};
    use std::ops::Range;

    pub trait Index {
        fn index(&self, s: &RangeSet<usize>) -> impl Iterator<Item = &[u8]>;
    }
    impl Index for Vec<u8> {
        fn index(&self, s: &RangeSet<usize>) -> impl Iterator<Item = &[u8]> {
            s.ranges.clone().into_iter().map(|r| &self[r])
        }
    }
    impl Index for [u8] {
        fn index(&self, s: &RangeSet<usize>) -> impl Iterator<Item = &[u8]> {
            s.ranges.clone().into_iter().map(|r| &self[r])
        }
    }
    fn diff<T: Ord + Copy>(a: &RangeSet<T>, b: &RangeSet<T>) -> Vec<Range<T>> {
        let mut out = vec![];
        for r in &a.ranges {
            let mut s = r.start;
            for c in b.ranges.iter().filter(|c| c.end > r.start && c.start < r.end) {
                if s < c.start {
                    out.push(s..c.start);
                }
                s = c.end;
            }
            if s < r.end {
                out.push(s..r.end);
            }
        }
        out
    }
    pub trait Set<T: Ord + Copy> {
        fn as_set(&self) -> RangeSet<T>;
        fn difference(&self, o: impl IntoRangeIterator<T>) -> Sorted<T> {
            Sorted(diff(&self.as_set(), &norm(o.ranges())).into_iter())
        }
        fn union(&self, o: impl IntoRangeIterator<T>) -> Sorted<T> {
            let mut v = self.as_set().ranges;
            v.extend(o.ranges());
            Sorted(norm(v).ranges.into_iter())
        }
        fn intersection(&self, o: impl IntoRangeIterator<T>) -> Sorted<T> {
            let a = self.as_set();
            let d = norm(diff(&a, &norm(o.ranges())));
            Sorted(diff(&a, &d).into_iter())
        }
        fn is_subset(&self, o: impl IntoRangeIterator<T>) -> bool {
            diff(&self.as_set(), &norm(o.ranges())).is_empty()
        }
        fn is_disjoint(&self, o: impl IntoRangeIterator<T>) -> bool {
            self.intersection(o).next().is_none()
        }
    }
    impl<T: Ord + Copy> Set<T> for RangeSet<T> {
        fn as_set(&self) -> RangeSet<T> {
            self.clone()
        }
    }
    impl<T: Ord + Copy> Set<T> for Range<T> {
        fn as_set(&self) -> RangeSet<T> {
            norm(vec![self.clone()])
        }
    }
    impl<T: Ord + Copy> RangeSet<T> {
        pub fn union_mut(&mut self, o: impl IntoRangeIterator<T>) {
            let mut v = std::mem::take(&mut self.ranges);
            v.extend(o.ranges());
            *self = norm(v);
        }
        pub fn difference_mut(&mut self, o: impl IntoRangeIterator<T>) {
            *self = norm(diff(self, &norm(o.ranges())));
        }
        pub fn subset_of(&self, o: &RangeSet<T>) -> bool {
            self.is_subset(o)
        }
    }
    /// Covering a set with sets that lie inside it, the largest gain first.
    pub trait Cover {
        fn cover_by<I, F>(&self, others: impl IntoIterator<Item = I>, f: F) -> (Vec<I>, RangeSet<usize>)
        where
            F: Fn(&I) -> &RangeSet<usize>;
    }
    impl Cover for RangeSet<usize> {
        fn cover_by<I, F>(&self, others: impl IntoIterator<Item = I>, f: F) -> (Vec<I>, RangeSet<usize>)
        where
            F: Fn(&I) -> &RangeSet<usize>,
        {
            let mut cand: Vec<I> = others.into_iter().filter(|o| f(o).is_subset(self)).collect();
            let mut left = self.clone();
            let mut used = vec![];
            while !left.is_empty() {
                let gain = |o: &I| left.intersection(f(o)).map(|r| r.len()).sum::<usize>();
                let Some(k) = (0..cand.len()).max_by_key(|k| (gain(&cand[*k]), usize::MAX - k)) else { break };
                if gain(&cand[k]) == 0 {
                    break;
                }
                let c = cand.remove(k);
                left.difference_mut(f(&c));
                used.push(c);
            }
            (used, left)
        }
    }
}

pub mod prelude {
    pub use super::{iter::*, ops::*, set::*};
}
