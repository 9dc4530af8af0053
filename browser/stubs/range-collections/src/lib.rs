//! Stand-in for range-collections: sets of numbers as sorted lists of disjoint, non-adjacent ranges
use std::{marker::PhantomData, ops::{Bound, Range}};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RangeSet<A>(Vec<Range<u64>>, PhantomData<A>);
pub type RangeSet2<T> = RangeSet<[T; 2]>;
pub trait AbstractRangeSet<T> {}
impl RangeSet<[u64; 2]> {
    pub fn empty() -> Self {
        Self(vec![], PhantomData)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn normal(mut v: Vec<Range<u64>>) -> Self {
        v.retain(|r| r.start < r.end);
        v.sort_by_key(|r| r.start);
        let mut res: Vec<Range<u64>> = vec![];
        for r in v {
            match res.last_mut() {
                Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                _ => res.push(r),
            }
        }
        Self(res, PhantomData)
    }
    pub fn union_with(&mut self, that: &Self) {
        *self = Self::normal(self.0.iter().chain(&that.0).cloned().collect());
    }
    pub fn iter(&self) -> Iter<'_> {
        Iter(&self.0)
    }
    pub fn is_disjoint(&self, that: &Self) -> bool {
        self.0.iter().all(|a| that.0.iter().all(|b| a.end <= b.start || b.end <= a.start))
    }
    pub fn difference(&self, that: &Self) -> Self {
        let mut v = self.0.clone();
        for b in &that.0 {
            v = v
                .into_iter()
                .flat_map(|a| [a.start..a.end.min(b.start), a.start.max(b.end)..a.end])
                .filter(|r| r.start < r.end)
                .collect();
        }
        Self::normal(v)
    }
    pub fn union(&self, that: &Self) -> Self {
        let mut r = self.clone();
        r.union_with(that);
        r
    }
    pub fn intersection(&self, that: &Self) -> Self {
        self.difference(&self.difference(that))
    }
    pub fn symmetric_difference(&self, that: &Self) -> Self {
        self.difference(that).union(&that.difference(self))
    }
    pub fn intersection_with(&mut self, that: &Self) {
        *self = self.intersection(that)
    }
    pub fn difference_with(&mut self, that: &Self) {
        *self = self.difference(that)
    }
    pub fn is_subset(&self, that: &Self) -> bool {
        self.difference(that).is_empty()
    }
    pub fn is_superset(&self, that: &Self) -> bool {
        that.is_subset(self)
    }
    pub fn intersects(&self, that: &Self) -> bool {
        !self.is_disjoint(that)
    }
    pub fn contains(&self, x: &u64) -> bool {
        self.0.iter().any(|r| r.contains(x))
    }
}
pub struct Iter<'a>(&'a [Range<u64>]);
impl<'a> Iterator for Iter<'a> {
    type Item = (Bound<&'a u64>, Bound<&'a u64>);
    fn next(&mut self) -> Option<Self::Item> {
        let (r, rest) = self.0.split_first()?;
        self.0 = rest;
        Some((Bound::Included(&r.start), Bound::Excluded(&r.end)))
    }
}
impl From<Range<u64>> for RangeSet<[u64; 2]> {
    fn from(r: Range<u64>) -> Self {
        Self::normal(vec![r])
    }
}
