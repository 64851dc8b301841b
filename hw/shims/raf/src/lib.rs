//! Stand-in for the forked regex-automata `Pool` (git-only, unreachable offline).
//! Contract used by dd-sds: `get` hands out a value nobody else holds, created by the factory
//! when none is free; dropping the guard returns it to the pool.
pub mod util {
    pub mod pool {
        use std::ops::{Deref, DerefMut};
        use std::sync::Mutex;
        pub struct Pool<T, F, const MAX_POOL_STACKS: usize> {
            stack: Mutex<Vec<Box<T>>>,
            create: F,
        }
        impl<T: Send, F: Fn() -> T, const N: usize> Pool<T, F, N> {
            pub fn new(create: F) -> Self {
                Pool { stack: Mutex::new(Vec::new()), create }
            }
            pub fn get(&self) -> PoolGuard<'_, T, F, N> {
                let v = self.stack.lock().unwrap().pop();
                let v = match v {
                    Some(v) => v,
                    None => Box::new((self.create)()),
                };
                PoolGuard { pool: self, value: Some(v) }
            }
        }
        pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const N: usize> {
            pool: &'a Pool<T, F, N>,
            value: Option<Box<T>>,
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> Deref for PoolGuard<'a, T, F, N> {
            type Target = T;
            fn deref(&self) -> &T { self.value.as_ref().unwrap() }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> DerefMut for PoolGuard<'a, T, F, N> {
            fn deref_mut(&mut self) -> &mut T { self.value.as_mut().unwrap() }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> Drop for PoolGuard<'a, T, F, N> {
            fn drop(&mut self) {
                if let Some(v) = self.value.take() {
                    self.pool.stack.lock().unwrap().push(v);
                }
            }
        }
    }
}
