//! Sequential stand-in for rayon: the closures dd-sds hands to rayon touch disjoint entries,
//! so any sequential order is one of rayon's legal schedules.
pub mod prelude {
    pub trait ParIterMutShim<'a> {
        type I: Iterator;
        fn par_iter_mut(&'a mut self) -> Self::I;
    }
    impl<'a, T: 'a + ?Sized> ParIterMutShim<'a> for T
    where
        &'a mut T: IntoIterator,
    {
        type I = <&'a mut T as IntoIterator>::IntoIter;
        fn par_iter_mut(&'a mut self) -> Self::I { self.into_iter() }
    }
    pub trait ParIterShim<'a> {
        type I: Iterator;
        fn par_iter(&'a self) -> Self::I;
    }
    impl<'a, T: 'a + ?Sized> ParIterShim<'a> for T
    where
        &'a T: IntoIterator,
    {
        type I = <&'a T as IntoIterator>::IntoIter;
        fn par_iter(&'a self) -> Self::I { self.into_iter() }
    }
    pub trait IntoParIterShim {
        type I: Iterator;
        fn into_par_iter(self) -> Self::I;
    }
    impl<T: IntoIterator> IntoParIterShim for T {
        type I = T::IntoIter;
        fn into_par_iter(self) -> Self::I { self.into_iter() }
    }
}
