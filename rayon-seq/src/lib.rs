// Sequential stand-in for rayon, used only when the code is compiled to IR for the symbolic
// executor.  Work items run one at a time in an order the harness chooses (ORDER), so that
// "no result depends on the schedule" can be checked; with the default order they run first
// to last.  The replay of a counterexample uses the real rayon.
use std::sync::atomic::{AtomicUsize, Ordering};
pub static ORDER: AtomicUsize = AtomicUsize::new(0);

// the order'th permutation of v (factorial number system), reduced modulo the number of permutations
fn permute<T>(v: Vec<T>) -> Vec<T> {
    let mut k = ORDER.load(Ordering::Relaxed);
    if k == 0 { return v }
    let mut rest: Vec<Option<T>> = v.into_iter().map(Some).collect();
    let mut out = Vec::with_capacity(rest.len());
    while !rest.is_empty() {
        let n = rest.len();
        let i = k % n; k /= n;
        out.push(rest.remove(i).unwrap());
    }
    out
}

pub struct Par<I>(pub I);
impl<I: Iterator> Par<I> {
    pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> { Par(self.0.enumerate()) }
    pub fn zip<J: iter::IntoParallelIterator>(self, j: J) -> Par<std::iter::Zip<I, J::SeqIter>> { Par(self.0.zip(j.into_par_iter().0)) }
    pub fn map<B, F: Fn(I::Item) -> B>(self, f: F) -> Par<std::iter::Map<I, F>> { Par(self.0.map(f)) }
    pub fn filter<F: Fn(&I::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<I, F>> { Par(self.0.filter(f)) }
    pub fn filter_map<B, F: Fn(I::Item) -> Option<B>>(self, f: F) -> Par<std::iter::FilterMap<I, F>> { Par(self.0.filter_map(f)) }
    pub fn flat_map<B: IntoIterator, F: Fn(I::Item) -> B>(self, f: F) -> Par<std::iter::FlatMap<I, B, F>> { Par(self.0.flat_map(f)) }
    pub fn chain<J: Iterator<Item = I::Item>>(self, j: Par<J>) -> Par<std::iter::Chain<I, J>> { Par(self.0.chain(j.0)) }
    pub fn skip(self, n: usize) -> Par<std::iter::Skip<I>> { Par(self.0.skip(n)) }
    pub fn take(self, n: usize) -> Par<std::iter::Take<I>> { Par(self.0.take(n)) }
    pub fn rev(self) -> Par<std::iter::Rev<I>> where I: DoubleEndedIterator { Par(self.0.rev()) }
    pub fn weight(self, _: f64) -> Self { self }
    pub fn weight_max(self) -> Self { self }
    pub fn with_min_len(self, _: usize) -> Self { self }
    pub fn with_max_len(self, _: usize) -> Self { self }
    pub fn for_each<F: Fn(I::Item)>(self, f: F) { for x in permute(self.0.collect::<Vec<_>>()) { f(x) } }
    pub fn for_each_with<T: Clone, F: Fn(&mut T, I::Item)>(self, mut t: T, f: F) { for x in permute(self.0.collect::<Vec<_>>()) { f(&mut t, x) } }
    pub fn collect<C: std::iter::FromIterator<I::Item>>(self) -> C { self.0.collect() }
    pub fn collect_into(self, v: &mut Vec<I::Item>) { *v = self.0.collect() }
    pub fn collect_into_vec(self, v: &mut Vec<I::Item>) { *v = self.0.collect() }
    pub fn count(self) -> usize { self.0.count() }
    pub fn sum<S: std::iter::Sum<I::Item>>(self) -> S { self.0.sum() }
    pub fn any<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool { self.0.any(f) }
    pub fn all<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool { self.0.all(f) }
    pub fn reduce<O: Fn(I::Item, I::Item) -> I::Item, D: Fn() -> I::Item>(self, d: D, o: O) -> I::Item { self.0.fold(d(), o) }
    pub fn max(self) -> Option<I::Item> where I::Item: Ord { self.0.max() }
    pub fn min(self) -> Option<I::Item> where I::Item: Ord { self.0.min() }
}
impl<'a, T: 'a + Clone, I: Iterator<Item = &'a T>> Par<I> { pub fn cloned(self) -> Par<std::iter::Cloned<I>> { Par(self.0.cloned()) } }

pub mod iter {
    use crate::Par;
    pub trait IntoParallelIterator { type SeqIter: Iterator; fn into_par_iter(self) -> Par<Self::SeqIter>; }
    impl<I: Iterator> IntoParallelIterator for Par<I> { type SeqIter = I; fn into_par_iter(self) -> Par<I> { self } }
    impl<T> IntoParallelIterator for Vec<T> { type SeqIter = std::vec::IntoIter<T>; fn into_par_iter(self) -> Par<Self::SeqIter> { Par(self.into_iter()) } }
    impl<'a, T> IntoParallelIterator for &'a [T] { type SeqIter = std::slice::Iter<'a, T>; fn into_par_iter(self) -> Par<Self::SeqIter> { Par(self.iter()) } }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> { type SeqIter = std::slice::Iter<'a, T>; fn into_par_iter(self) -> Par<Self::SeqIter> { Par(self.iter()) } }
    impl<'a, T> IntoParallelIterator for &'a mut [T] { type SeqIter = std::slice::IterMut<'a, T>; fn into_par_iter(self) -> Par<Self::SeqIter> { Par(self.iter_mut()) } }
    impl<'a, T> IntoParallelIterator for &'a mut Vec<T> { type SeqIter = std::slice::IterMut<'a, T>; fn into_par_iter(self) -> Par<Self::SeqIter> { Par(self.iter_mut()) } }
    impl<T> IntoParallelIterator for std::ops::Range<T> where std::ops::Range<T>: Iterator { type SeqIter = std::ops::Range<T>; fn into_par_iter(self) -> Par<Self::SeqIter> { Par(self) } }
    pub trait IntoParallelRefIterator<T> { fn par_iter(&self) -> Par<std::slice::Iter<'_, T>>; }
    impl<T> IntoParallelRefIterator<T> for [T] { fn par_iter(&self) -> Par<std::slice::Iter<'_, T>> { Par(self.iter()) } }
    pub trait IntoParallelRefMutIterator<T> { fn par_iter_mut(&mut self) -> Par<std::slice::IterMut<'_, T>>; }
    impl<T> IntoParallelRefMutIterator<T> for [T] { fn par_iter_mut(&mut self) -> Par<std::slice::IterMut<'_, T>> { Par(self.iter_mut()) } }
    pub trait ParallelIterator {}
    impl<I: Iterator> ParallelIterator for Par<I> {}
    pub trait IndexedParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
}
pub mod slice {
    use crate::Par;
    pub trait ParallelSlice<T> { fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>>; fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>>; }
    impl<T> ParallelSlice<T> for [T] { fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> { Par(self.chunks(n)) } fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> { Par(self.windows(n)) } }
    pub trait ParallelSliceMut<T> { fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>>; }
    impl<T> ParallelSliceMut<T> for [T] { fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> { Par(self.chunks_mut(n)) } }
}
pub mod prelude {
    pub use crate::iter::*;
    pub use crate::slice::*;
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA, B: FnOnce() -> RB {
    if ORDER.load(Ordering::Relaxed) % 2 == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}
pub fn current_num_threads() -> usize { 1 }
