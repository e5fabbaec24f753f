//! Simulated pool (`threads` feature).

pub use simrt::{
    current_num_threads, current_thread_index, in_place_scope, join, scope, scope_fifo, Scope,
};
pub type ScopeFifo<'scope> = Scope<'scope>;

#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder(())
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, std::convert::Infallible> {
        Ok(ThreadPool(()))
    }
}
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        simrt::install(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}

pub mod iter {
    //! Parallel iterators over an eagerly collected sequence. Each adaptor
    //! that takes a closure runs it through the simulator's recursive join.

    /// A parallel sequence.
    pub struct Par<T>(pub(crate) Vec<T>);

    pub trait IntoParallelIterator {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: IntoIterator> IntoParallelIterator for I
    where
        I::Item: Send,
    {
        type Iter = Par<I::Item>;
        type Item = I::Item;
        fn into_par_iter(self) -> Par<I::Item> {
            Par(self.into_iter().collect())
        }
    }

    pub trait IntoParallelRefIterator<'d> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send + 'd;
        fn par_iter(&'d self) -> Self::Iter;
    }
    impl<'d, I: 'd + ?Sized> IntoParallelRefIterator<'d> for I
    where
        &'d I: IntoIterator,
        <&'d I as IntoIterator>::Item: Send,
    {
        type Iter = Par<<&'d I as IntoIterator>::Item>;
        type Item = <&'d I as IntoIterator>::Item;
        fn par_iter(&'d self) -> Self::Iter {
            Par(self.into_iter().collect())
        }
    }

    pub trait IntoParallelRefMutIterator<'d> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send + 'd;
        fn par_iter_mut(&'d mut self) -> Self::Iter;
    }
    impl<'d, I: 'd + ?Sized> IntoParallelRefMutIterator<'d> for I
    where
        &'d mut I: IntoIterator,
        <&'d mut I as IntoIterator>::Item: Send,
    {
        type Iter = Par<<&'d mut I as IntoIterator>::Item>;
        type Item = <&'d mut I as IntoIterator>::Item;
        fn par_iter_mut(&'d mut self) -> Self::Iter {
            Par(self.into_iter().collect())
        }
    }

    pub trait FromParallelIterator<T> {
        fn from_items(items: Vec<T>) -> Self;
    }
    impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {
        fn from_items(items: Vec<T>) -> Self {
            items.into_iter().collect()
        }
    }

    pub trait ParallelIterator: Sized {
        type Item: Send;
        fn items(self) -> Vec<Self::Item>;

        fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R> {
            Par(simrt::par_map(self.items(), &f))
        }
        fn map_with<T: Send + Clone + Sync, R: Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(
            self,
            t: T,
            f: F,
        ) -> Par<R> {
            Par(simrt::par_map(self.items(), &|i| f(&mut t.clone(), i)))
        }
        fn map_init<T, R: Send, I: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(
            self,
            init: I,
            f: F,
        ) -> Par<R> {
            Par(simrt::par_map(self.items(), &|i| f(&mut init(), i)))
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            simrt::par_map(self.items(), &f);
        }
        fn for_each_with<T: Send + Clone + Sync, F: Fn(&mut T, Self::Item) + Sync + Send>(self, t: T, f: F) {
            simrt::par_map(self.items(), &|i| f(&mut t.clone(), i));
        }
        fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
            simrt::par_map(self.items(), &f).into_iter().collect()
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par(self.map(|i| if f(&i) { Some(i) } else { None }).0.into_iter().flatten().collect())
        }
        fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Par<R> {
            Par(self.map(f).0.into_iter().flatten().collect())
        }
        fn flat_map<R: IntoParallelIterator, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R::Item> {
            Par(self
                .map(|i| f(i).into_par_iter().items())
                .0
                .into_iter()
                .flatten()
                .collect())
        }
        fn flat_map_iter<R: IntoIterator, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R::Item>
        where
            R::Item: Send,
        {
            Par(self
                .map(|i| f(i).into_iter().collect::<Vec<_>>())
                .0
                .into_iter()
                .flatten()
                .collect())
        }
        fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
            self.map(|i| {
                f(&i);
                i
            })
        }
        fn copied<'a, T: 'a + Copy + Send + Sync>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par(self.items().into_iter().copied().collect())
        }
        fn cloned<'a, T: 'a + Clone + Send + Sync>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par(self.items().into_iter().cloned().collect())
        }
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            Par(self.items().into_iter().enumerate().collect())
        }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            Par(self.items().into_iter().zip(z.into_par_iter().items()).collect())
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            let (a, b) = (self.items(), z.into_par_iter().items());
            assert_eq!(a.len(), b.len(), "iterators must have the same length");
            Par(a.into_iter().zip(b).collect())
        }
        fn chain<Z: IntoParallelIterator<Item = Self::Item>>(self, z: Z) -> Par<Self::Item> {
            let mut v = self.items();
            v.extend(z.into_par_iter().items());
            Par(v)
        }
        fn rev(self) -> Par<Self::Item> {
            let mut v = self.items();
            v.reverse();
            Par(v)
        }
        fn skip(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().skip(n).collect())
        }
        fn take(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().take(n).collect())
        }
        fn chunks(self, n: usize) -> Par<Vec<Self::Item>> {
            let mut out = Vec::new();
            let mut it = self.items().into_iter().peekable();
            while it.peek().is_some() {
                out.push(it.by_ref().take(n).collect());
            }
            Par(out)
        }
        fn with_min_len(self, _n: usize) -> Par<Self::Item> {
            Par(self.items())
        }
        fn with_max_len(self, _n: usize) -> Par<Self::Item> {
            Par(self.items())
        }
        fn fold<T: Send, ID: Fn() -> T + Sync + Send, F: Fn(T, Self::Item) -> T + Sync + Send>(
            self,
            id: ID,
            f: F,
        ) -> Par<T> {
            self.map(|i| f(id(), i))
        }
        fn reduce<ID: Fn() -> Self::Item + Sync + Send, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(
            self,
            id: ID,
            f: F,
        ) -> Self::Item {
            self.items().into_iter().fold(id(), f)
        }
        fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.items().into_iter().reduce(f)
        }
        fn sum<S: core::iter::Sum<Self::Item>>(self) -> S {
            self.items().into_iter().sum()
        }
        fn product<S: core::iter::Product<Self::Item>>(self) -> S {
            self.items().into_iter().product()
        }
        fn count(self) -> usize {
            self.items().len()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.items().into_iter().min()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.items().into_iter().max()
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.map(f).0.into_iter().all(|b| b)
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.map(f).0.into_iter().any(|b| b)
        }
        fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
        where
            Self: ParallelIterator<Item = (A, B)>,
        {
            self.items().into_iter().unzip()
        }
        fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
            C::from_items(self.items())
        }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
            *v = self.items();
        }
    }
    impl<T: Send> ParallelIterator for Par<T> {
        type Item = T;
        fn items(self) -> Vec<T> {
            self.0
        }
    }

    /// Indexed operations live on [`ParallelIterator`] here.
    pub trait IndexedParallelIterator: ParallelIterator {}
    impl<P: ParallelIterator> IndexedParallelIterator for P {}

    pub trait ParallelExtend<T: Send> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
    }
    impl<T: Send, E: Extend<T>> ParallelExtend<T> for E {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
            self.extend(i.into_par_iter().items())
        }
    }
}

pub mod slice {
    use crate::iter::Par;
    pub trait ParallelSlice<T: Sync> {
        fn as_par_slice(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<&[T]> {
            Par(self.as_par_slice().chunks(n).collect())
        }
        fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
            Par(self.as_par_slice().chunks_exact(n).collect())
        }
        fn par_windows(&self, n: usize) -> Par<&[T]> {
            Par(self.as_par_slice().windows(n).collect())
        }
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn as_par_slice(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn as_par_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.as_par_slice_mut().chunks_mut(n).collect())
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.as_par_slice_mut().chunks_exact_mut(n).collect())
        }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn as_par_slice_mut(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use crate::iter::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator,
        IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelExtend, ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}
