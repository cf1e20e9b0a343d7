//! Stand-in for rayon: eager parallel iterators on scoped threads, keeping the order of the
//! items like rayon's indexed ones do.
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

fn run<T: Send, R: Send>(items: Vec<T>, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    let n = items.len();
    let threads = std::thread::available_parallelism().map_or(1, |n| n.get()).min(n).min(8);
    if threads <= 1 {
        return items.into_iter().map(f).collect();
    }
    let slots: Vec<Mutex<(Option<T>, Option<R>)>> =
        items.into_iter().map(|t| Mutex::new((Some(t), None))).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let t = slots[i].lock().unwrap().0.take().unwrap();
                        let r = f(t);
                        slots[i].lock().unwrap().1 = Some(r);
                    }
                })
            })
            .collect();
        for h in hs {
            if let Err(e) = h.join() {
                std::panic::resume_unwind(e);
            }
        }
    });
    slots.into_iter().map(|s| s.into_inner().unwrap().1.unwrap()).collect()
}

pub struct ParIter<T>(Vec<T>);
impl<T: Send> ParIter<T> {
    pub fn map<R: Send, F: Fn(T) -> R + Sync + Send>(self, f: F) -> ParIter<R> {
        ParIter(run(self.0, f))
    }
    pub fn filter_map<R: Send, F: Fn(T) -> Option<R> + Sync + Send>(self, f: F) -> ParIter<R> {
        ParIter(run(self.0, f).into_iter().flatten().collect())
    }
    pub fn flat_map<R: IntoIterator<Item: Send> + Send, F: Fn(T) -> R + Sync + Send>(self, f: F) -> ParIter<R::Item> {
        ParIter(run(self.0, f).into_iter().flatten().collect())
    }
    pub fn flat_map_iter<R: IntoIterator<Item: Send> + Send, F: Fn(T) -> R + Sync + Send>(self, f: F) -> ParIter<R::Item> {
        self.flat_map(f)
    }
    pub fn filter<F: Fn(&T) -> bool + Sync + Send>(self, f: F) -> ParIter<T> {
        self.filter_map(|t| f(&t).then_some(t))
    }
    pub fn enumerate(self) -> ParIter<(usize, T)> {
        ParIter(self.0.into_iter().enumerate().collect())
    }
    pub fn for_each<F: Fn(T) + Sync + Send>(self, f: F) {
        run(self.0, f);
    }
    pub fn any<F: Fn(T) -> bool + Sync + Send>(self, f: F) -> bool {
        run(self.0, f).into_iter().any(|b| b)
    }
    pub fn all<F: Fn(T) -> bool + Sync + Send>(self, f: F) -> bool {
        run(self.0, f).into_iter().all(|b| b)
    }
    pub fn count(self) -> usize {
        self.0.len()
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.0.into_iter().collect()
    }
    pub fn reduce<ID: Fn() -> T, F: Fn(T, T) -> T>(self, id: ID, f: F) -> T {
        self.0.into_iter().fold(id(), f)
    }
    pub fn try_for_each<E: Send, F: Fn(T) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
        run(self.0, f).into_iter().collect()
    }
    pub fn try_reduce<E: Send, U: Send, ID: Fn() -> U, F: Fn(U, U) -> Result<U, E>>(self, id: ID, f: F) -> Result<U, E>
    where
        T: Into<Result<U, E>>,
    {
        self.0.into_iter().try_fold(id(), |a, b| f(a, b.into()?))
    }
    pub fn reduce_with<F: Fn(T, T) -> T>(self, f: F) -> Option<T> {
        self.0.into_iter().reduce(f)
    }
    pub fn fold<A: Send, ID: Fn() -> A, F: Fn(A, T) -> A>(self, id: ID, f: F) -> ParIter<A> {
        ParIter(vec![self.0.into_iter().fold(id(), f)])
    }
    pub fn inspect<F: Fn(&T) + Sync + Send>(self, f: F) -> ParIter<T> {
        self.map(|t| {
            f(&t);
            t
        })
    }
    pub fn map_init<S, R: Send, I: Fn() -> S + Sync + Send, F: Fn(&mut S, T) -> R + Sync + Send>(self, i: I, f: F) -> ParIter<R> {
        self.map(|t| f(&mut i(), t))
    }
    pub fn flatten(self) -> ParIter<T::Item>
    where
        T: IntoIterator<Item: Send>,
    {
        ParIter(self.0.into_iter().flatten().collect())
    }
    pub fn flatten_iter(self) -> ParIter<T::Item>
    where
        T: IntoIterator<Item: Send>,
    {
        self.flatten()
    }
    pub fn chain<I: IntoParallelIterator<Item = T>>(mut self, other: I) -> ParIter<T> {
        self.0.extend(other.into_par_iter().0);
        self
    }
    pub fn zip<I: IntoParallelIterator>(self, other: I) -> ParIter<(T, I::Item)> {
        ParIter(self.0.into_iter().zip(other.into_par_iter().0).collect())
    }
    pub fn rev(mut self) -> ParIter<T> {
        self.0.reverse();
        self
    }
    pub fn find_any<F: Fn(&T) -> bool + Sync + Send>(self, f: F) -> Option<T> {
        self.0.into_iter().find(f)
    }
    pub fn find_first<F: Fn(&T) -> bool + Sync + Send>(self, f: F) -> Option<T> {
        self.0.into_iter().find(f)
    }
    pub fn find_map_any<R: Send, F: Fn(T) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
        self.0.into_iter().find_map(f)
    }
    pub fn partition<A: Default + Extend<T>, B: Default + Extend<T>, F: Fn(&T) -> bool>(self, f: F) -> (A, B) {
        let (mut a, mut b) = (A::default(), B::default());
        for t in self.0 {
            if f(&t) { a.extend([t]) } else { b.extend([t]) }
        }
        (a, b)
    }
    pub fn partition_map<A: Default + Extend<L>, B: Default + Extend<R>, L: Send, R: Send, F: Fn(T) -> iter::Either<L, R> + Sync + Send>(self, f: F) -> (A, B) {
        let (mut a, mut b) = (A::default(), B::default());
        for t in run(self.0, f) {
            match t {
                iter::Either::Left(t) => a.extend([t]),
                iter::Either::Right(t) => b.extend([t]),
            }
        }
        (a, b)
    }
    pub fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
    where
        T: Into<(A, B)>,
    {
        self.0.into_iter().map(Into::into).unzip()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.0.into_iter().sum()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().min()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().max()
    }
    pub fn collect_into_vec(self, to: &mut Vec<T>) {
        *to = self.0;
    }
    pub fn collect_vec_list(self) -> std::collections::LinkedList<Vec<T>> {
        std::collections::LinkedList::from([self.0])
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
}
impl<'a, T: Clone + Send + Sync + 'a> ParIter<&'a T> {
    pub fn cloned(self) -> ParIter<T> {
        ParIter(self.0.into_iter().cloned().collect())
    }
    pub fn copied(self) -> ParIter<T> {
        self.cloned()
    }
}
pub fn join<A: Send, B: Send>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    std::thread::scope(|s| {
        let h = s.spawn(b);
        let a = a();
        (a, h.join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
    })
}
pub fn current_num_threads() -> usize {
    std::thread::available_parallelism().map_or(1, |n| n.get()).min(8)
}
pub trait ParallelSliceMut<T> {
    fn as_mut(&mut self) -> &mut [T];
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.as_mut().sort()
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.as_mut().sort_unstable()
    }
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
        self.as_mut().sort_by(f)
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_mut().sort_by_key(f)
    }
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_mut().sort_unstable_by_key(f)
    }
}
impl<T> ParallelSliceMut<T> for [T] {
    fn as_mut(&mut self) -> &mut [T] {
        self
    }
}
pub trait IntoParallelRefMutIterator<'d> {
    type Item: Send + 'd;
    fn par_iter_mut(&'d mut self) -> ParIter<Self::Item>;
}
impl<'d, I: 'd + ?Sized> IntoParallelRefMutIterator<'d> for I
where
    &'d mut I: IntoIterator<Item: Send>,
{
    type Item = <&'d mut I as IntoIterator>::Item;
    fn par_iter_mut(&'d mut self) -> ParIter<Self::Item> {
        ParIter(self.into_iter().collect())
    }
}
/// Only there to be imported: the methods are those of ParIter.
pub trait ParallelIterator {}
impl<T> ParallelIterator for ParIter<T> {}
pub trait IndexedParallelIterator {}
impl<T> IndexedParallelIterator for ParIter<T> {}
pub trait IntoParallelIterator {
    type Item: Send;
    fn into_par_iter(self) -> ParIter<Self::Item>;
}
impl<I: IntoIterator<Item: Send>> IntoParallelIterator for I {
    type Item = I::Item;
    fn into_par_iter(self) -> ParIter<I::Item> {
        ParIter(self.into_iter().collect())
    }
}
pub trait IntoParallelRefIterator<'d> {
    type Item: Send + 'd;
    fn par_iter(&'d self) -> ParIter<Self::Item>;
}
impl<'d, I: 'd + ?Sized> IntoParallelRefIterator<'d> for I
where
    &'d I: IntoIterator<Item: Send>,
{
    type Item = <&'d I as IntoIterator>::Item;
    fn par_iter(&'d self) -> ParIter<Self::Item> {
        ParIter(self.into_iter().collect())
    }
}
pub mod prelude {
    pub use super::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParIter, ParallelIterator,
        ParallelSliceMut,
    };
}
pub mod slice {
    pub use super::ParallelSliceMut;
}
pub mod iter {
    pub use super::*;
    pub enum Either<L, R> {
        Left(L),
        Right(R),
    }
}
