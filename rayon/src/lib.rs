//! Stand-in for rayon with which the parallel code is encoded.  Tasks run one after another, whole, in an
//! order the harness chooses; results arrive where rayon's would.  (Safe Rust's tasks share only
//! immutable data and atomics, so a schedule is visible to them as an order at most.)
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static ORDER: AtomicUsize = AtomicUsize::new(0);
/// 0: in order, 1: backwards, 2: odd ones first
pub fn set_order(o: usize) {
    ORDER.store(o, SeqCst);
}
fn run<T, R>(tasks: Vec<T>, mut f: impl FnMut(T) -> R) -> Vec<R> {
    let n = tasks.len();
    let order = ORDER.load(SeqCst);
    if order == 0 {
        return tasks.into_iter().map(f).collect();
    }
    let mut tasks: Vec<Option<T>> = tasks.into_iter().map(Some).collect();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    if order == 1 {
        for i in (0..n).rev() {
            out[i] = Some(f(tasks[i].take().unwrap()));
        }
    } else {
        for first in [1, 0] {
            let mut i = first;
            while i < n {
                out[i] = Some(f(tasks[i].take().unwrap()));
                i += 2;
            }
        }
    }
    out.into_iter().map(|r| r.unwrap()).collect()
}

pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) {
    if ORDER.load(SeqCst) == 0 {
        let ra = a();
        (ra, b())
    } else {
        let rb = b();
        (a(), rb)
    }
}
pub struct Scope<'s>(std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) {
        self.0.borrow_mut().push(Box::new(f));
    }
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    let s = Scope(Default::default());
    let r = f(&s);
    loop {
        let v = std::mem::take(&mut *s.0.borrow_mut());
        if v.is_empty() {
            return r;
        }
        run(v, |t| t(&s));
    }
}
pub fn current_num_threads() -> usize {
    4
}
pub fn current_thread_index() -> Option<usize> {
    None
}

pub mod iter {
    pub use crate::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, Par, ParallelBridge, ParallelIterator,
    };
    pub fn once<T: Send>(t: T) -> Par<T> {
        Par(vec![t])
    }
    pub fn empty<T: Send>() -> Par<T> {
        Par(Vec::new())
    }
    pub fn repeatn<T: Send + Clone>(t: T, n: usize) -> Par<T> {
        Par(vec![t; n])
    }
    pub use repeatn as repeat_n;
}
pub mod slice {
    pub use crate::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
    pub use crate::iter::*;
    pub use crate::slice::*;
}

pub struct Par<T>(pub(crate) Vec<T>);

pub trait FromParallelIterator<T>: Sized {
    fn from_vec(v: Vec<T>) -> Self;
}
impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {
    fn from_vec(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}

pub trait ParallelIterator: Sized + Send {
    type Item: Send;
    fn items(self) -> Vec<Self::Item>;

    fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R> {
        Par(run(self.items(), |t| f(t)))
    }
    fn map_init<S, I: Fn() -> S + Sync + Send, R: Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, init: I, f: F) -> Par<R> {
        let mut s = init();
        Par(run(self.items(), |t| f(&mut s, t)))
    }
    fn map_with<S: Send + Clone, R: Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, mut s: S, f: F) -> Par<R> {
        Par(run(self.items(), |t| f(&mut s, t)))
    }
    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
        run(self.items(), |t| f(t));
    }
    fn for_each_with<S: Send + Clone, F: Fn(&mut S, Self::Item) + Sync + Send>(self, mut s: S, f: F) {
        run(self.items(), |t| f(&mut s, t));
    }
    fn for_each_init<S, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) + Sync + Send>(self, init: I, f: F) {
        let mut s = init();
        run(self.items(), |t| f(&mut s, t));
    }
    fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
        run(self.items(), |t| f(t)).into_iter().collect()
    }
    fn try_for_each_with<S: Send + Clone, E: Send, F: Fn(&mut S, Self::Item) -> Result<(), E> + Sync + Send>(self, mut s: S, f: F) -> Result<(), E> {
        run(self.items(), |t| f(&mut s, t)).into_iter().collect()
    }
    fn try_for_each_init<S, E: Send, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) -> Result<(), E> + Sync + Send>(self, init: I, f: F) -> Result<(), E> {
        let mut s = init();
        run(self.items(), |t| f(&mut s, t)).into_iter().collect()
    }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
        Par(self.items().into_iter().filter(|t| f(t)).collect())
    }
    fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Par<R> {
        Par(run(self.items(), |t| f(t)).into_iter().flatten().collect())
    }
    fn flat_map_iter<I: IntoIterator, F: Fn(Self::Item) -> I + Sync + Send>(self, f: F) -> Par<I::Item>
    where
        I::Item: Send,
    {
        Par(run(self.items(), |t| f(t).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect())
    }
    fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
        Par(self.items().into_iter().inspect(|t| f(t)).collect())
    }
    fn copied<'a, T: 'a + Copy + Send + Sync>(self) -> Par<T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Par(self.items().into_iter().copied().collect())
    }
    fn cloned<'a, T: 'a + Clone + Send + Sync>(self) -> Par<T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Par(self.items().into_iter().cloned().collect())
    }
    fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
        C::from_vec(self.items())
    }
    fn unzip<A: Send, B: Send, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
    where
        Self: ParallelIterator<Item = (A, B)>,
    {
        self.items().into_iter().unzip()
    }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
        self.items().into_iter().sum()
    }
    fn count(self) -> usize {
        self.items().len()
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.items().into_iter().min()
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.items().into_iter().max()
    }
    fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.items().into_iter().any(f)
    }
    fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.items().into_iter().all(f)
    }
    fn reduce<I: Fn() -> Self::Item + Sync + Send, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: I, f: F) -> Self::Item {
        self.items().into_iter().fold(id(), f)
    }
    fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.items().into_iter().reduce(f)
    }
}
pub trait IndexedParallelIterator: ParallelIterator {
    fn enumerate(self) -> Par<(usize, Self::Item)> {
        Par(self.items().into_iter().enumerate().collect())
    }
    fn zip<O: IntoParallelIterator>(self, o: O) -> Par<(Self::Item, O::Item)> {
        Par(self.items().into_iter().zip(o.into_par_iter().items()).collect())
    }
    fn zip_eq<O: IntoParallelIterator>(self, o: O) -> Par<(Self::Item, O::Item)> {
        let (a, b) = (self.items(), o.into_par_iter().items());
        assert_eq!(a.len(), b.len());
        Par(a.into_iter().zip(b).collect())
    }
    fn chain<O: IntoParallelIterator<Item = Self::Item>>(self, o: O) -> Par<Self::Item> {
        Par(self.items().into_iter().chain(o.into_par_iter().items()).collect())
    }
    fn with_min_len(self, _: usize) -> Self {
        self
    }
    fn with_max_len(self, _: usize) -> Self {
        self
    }
    fn rev(self) -> Par<Self::Item> {
        Par(self.items().into_iter().rev().collect())
    }
    fn skip(self, n: usize) -> Par<Self::Item> {
        Par(self.items().into_iter().skip(n).collect())
    }
    fn take(self, n: usize) -> Par<Self::Item> {
        Par(self.items().into_iter().take(n).collect())
    }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
        *v = self.items();
    }
}
impl<T: Send> ParallelIterator for Par<T> {
    type Item = T;
    fn items(self) -> Vec<T> {
        self.0
    }
}
impl<T: Send> IndexedParallelIterator for Par<T> {}
impl<T: Send> Par<T> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

pub trait IntoParallelIterator {
    type Item: Send;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn into_par_iter(self) -> Self::Iter;
}
impl<P: ParallelIterator> IntoParallelIterator for P {
    type Item = P::Item;
    type Iter = P;
    fn into_par_iter(self) -> P {
        self
    }
}
macro_rules! into {
    ($([$($g:tt)*] $t:ty, $i:ty;)*) => {$(
        impl<$($g)*> IntoParallelIterator for $t {
            type Item = $i;
            type Iter = Par<$i>;
            fn into_par_iter(self) -> Par<$i> {
                Par(self.into_iter().collect())
            }
        }
    )*};
}
into! {
    [T: Send] Vec<T>, T;
    ['a, T: Sync] &'a Vec<T>, &'a T;
    ['a, T: Send] &'a mut Vec<T>, &'a mut T;
    ['a, T: Sync] &'a [T], &'a T;
    ['a, T: Send] &'a mut [T], &'a mut T;
    [T: Send, const N: usize] [T; N], T;
    [T: Send] Option<T>, T;
    [] std::ops::Range<usize>, usize;
    [] std::ops::Range<u32>, u32;
    [] std::ops::Range<u64>, u64;
}
pub trait IntoParallelRefIterator<'a> {
    type Item: Send + 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter(&'a self) -> Self::Iter;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
where
    &'a I: IntoParallelIterator,
{
    type Item = <&'a I as IntoParallelIterator>::Item;
    type Iter = <&'a I as IntoParallelIterator>::Iter;
    fn par_iter(&'a self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: Send + 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter_mut(&'a mut self) -> Self::Iter;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I
where
    &'a mut I: IntoParallelIterator,
{
    type Item = <&'a mut I as IntoParallelIterator>::Item;
    type Iter = <&'a mut I as IntoParallelIterator>::Iter;
    fn par_iter_mut(&'a mut self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait ParallelSlice<T: Sync> {
    fn slice(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Par<&[T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Par(self.slice().chunks(n).collect())
    }
    fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Par(self.slice().chunks_exact(n).collect())
    }
    fn par_windows(&self, n: usize) -> Par<&[T]> {
        Par(self.slice().windows(n).collect())
    }
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn slice(&self) -> &[T] {
        self
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn slice_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Par(self.slice_mut().chunks_mut(n).collect())
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Par(self.slice_mut().chunks_exact_mut(n).collect())
    }
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn slice_mut(&mut self) -> &mut [T] {
        self
    }
}
pub trait ParallelBridge: Sized {
    type Item: Send;
    fn par_bridge(self) -> Par<Self::Item>;
}
impl<T: Iterator + Send> ParallelBridge for T
where
    T::Item: Send,
{
    type Item = T::Item;
    fn par_bridge(self) -> Par<T::Item> {
        Par(self.collect())
    }
}
