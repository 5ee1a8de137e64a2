//! Stand-in: the harness runs one process at a time, so that locks are always free.
use std::io;
use std::ops::{Deref, DerefMut};
pub struct RwLock<T>(T);
pub struct RwLockWriteGuard<'a, T>(&'a mut T);
pub struct RwLockReadGuard<'a, T>(&'a T);
impl<T> RwLock<T> {
    pub fn new(inner: T) -> Self { RwLock(inner) }
    pub fn write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> { Ok(RwLockWriteGuard(&mut self.0)) }
    pub fn try_write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> { self.write() }
    pub fn read(&self) -> io::Result<RwLockReadGuard<'_, T>> { Ok(RwLockReadGuard(&self.0)) }
    pub fn into_inner(self) -> T { self.0 }
}
impl<T> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.0 }
}
impl<T> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T { self.0 }
}
impl<T> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.0 }
}
