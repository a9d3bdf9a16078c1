//! Locks, condition variables and atomics routed through the scheduler.
use crate::mc::{self, Block, Op};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    poison: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { locked: Cell::new(false), poison: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
/// A thread that unwinds takes what it needs: the execution is over, and whoever holds the lock may
/// have been left where it stood.
fn stolen() -> bool {
    std::thread::panicking()
}
impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.locked as *const _ as usize
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard {
            lock: self,
            panicking: std::thread::panicking(),
            _not_send: std::marker::PhantomData,
        };
        if self.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn acquire(&self) {
        while self.locked.get() {
            if stolen() {
                break;
            }
            mc::block(Block::Lock(&self.locked as *const _), Op::obj(self.addr()));
        }
        self.locked.set(true);
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        mc::point(Op::obj(self.addr()));
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mc::point(Op::obj(self.addr()));
        if self.locked.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.locked.set(true);
        Ok(self.guard()?)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.get()
    }
    pub fn clear_poison(&self) {
        self.poison.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.get();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.locked.get() {
            f.write_str("Mutex { data: <locked> }")
        } else {
            f.debug_struct("Mutex").field("data", unsafe { &&*self.data.get() }).finish()
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() && !mc::dying() {
            self.lock.poison.set(true);
        }
        mc::point_in_drop(Op::obj(self.lock.addr()));
        self.lock.locked.set(false);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------- Condvar
#[derive(Default)]
pub struct Condvar {
    // Tickets of the threads waiting here, oldest first.
    waiters: UnsafeCell<Vec<*const Cell<bool>>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl std::panic::UnwindSafe for Condvar {}
impl std::panic::RefUnwindSafe for Condvar {}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: UnsafeCell::new(Vec::new()) }
    }
    fn q(&self) -> &mut Vec<*const Cell<bool>> {
        unsafe { &mut *self.waiters.get() }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn wait_on<'a, T: ?Sized>(
        &self,
        guard: MutexGuard<'a, T>,
        dur: Option<Duration>,
    ) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = guard.lock;
        std::mem::forget(guard);
        mc::point(Op::obj2(self.addr(), lock.addr()));
        // Atomically release the lock and enqueue.
        let signalled = Cell::new(false);
        let me = &signalled as *const Cell<bool>;
        self.q().push(me);
        struct Leave<'c>(&'c Condvar, *const Cell<bool>);
        impl Drop for Leave<'_> {
            fn drop(&mut self) {
                let me = self.1;
                self.0.q().retain(|&p| p != me);
            }
        }
        let leave = Leave(self, me);
        lock.locked.set(false);
        let deadline = dur.map(|d| mc::now().saturating_add(d.as_nanos()));
        mc::block(Block::Cond(me, deadline), Op::obj2(self.addr(), lock.addr()));
        drop(leave);
        let timed_out = !signalled.get() && deadline.map_or(false, |d| mc::now() >= d);
        // Reacquire.
        lock.acquire();
        (lock.guard(), timed_out)
    }
    pub fn wait<'a, T: ?Sized>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_on(guard, None).0
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut guard: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while cond(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout<'a, T: ?Sized>(
        &self,
        guard: MutexGuard<'a, T>,
        dur: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, t) = self.wait_on(guard, Some(dur));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut guard: MutexGuard<'a, T>,
        dur: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = mc::now().saturating_add(dur.as_nanos());
        loop {
            if !cond(&mut *guard) {
                return Ok((guard, WaitTimeoutResult(false)));
            }
            let n = mc::now();
            if n >= end {
                return Ok((guard, WaitTimeoutResult(true)));
            }
            let left = (end - n).min(u64::MAX as u128) as u64;
            guard = self.wait_timeout(guard, Duration::from_nanos(left))?.0;
        }
    }
    pub fn notify_one(&self) {
        mc::point(Op::obj(self.addr()));
        let live: Vec<_> = self.q().iter().copied().filter(|&p| unsafe { !(*p).get() }).collect();
        if live.is_empty() {
            return;
        }
        let i = if live.len() > 1 && mc::in_thread() { mc::choose(live.len()) } else { 0 };
        unsafe { (*live[i]).set(true) };
    }
    pub fn notify_all(&self) {
        mc::point(Op::obj(self.addr()));
        for &p in self.q().iter() {
            unsafe { (*p).set(true) };
        }
    }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    // -1: write-locked; n > 0: n readers.
    state: Cell<isize>,
    poison: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a>(&'a RwLock<T>, std::marker::PhantomData<*const ()>);
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a>(&'a RwLock<T>, bool, std::marker::PhantomData<*const ()>);
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { state: Cell::new(0), poison: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
        &self.state as *const _ as usize
    }
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let g = RwLockReadGuard(self, std::marker::PhantomData);
        if self.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let g = RwLockWriteGuard(self, std::thread::panicking(), std::marker::PhantomData);
        if self.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        mc::point(Op::obj(self.addr()));
        while self.state.get() < 0 {
            if stolen() {
                break;
            }
            mc::block(Block::RwRead(&self.state), Op::obj(self.addr()));
        }
        self.state.set(self.state.get() + 1);
        self.rguard()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        mc::point(Op::obj(self.addr()));
        while self.state.get() != 0 {
            if stolen() {
                break;
            }
            mc::block(Block::RwWrite(&self.state), Op::obj(self.addr()));
        }
        self.state.set(-1);
        self.wguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        mc::point(Op::obj(self.addr()));
        if self.state.get() < 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.set(self.state.get() + 1);
        Ok(self.rguard()?)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        mc::point(Op::obj(self.addr()));
        if self.state.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.set(-1);
        Ok(self.wguard()?)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.get()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("RwLock").field("data", unsafe { &&*self.data.get() }).finish()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        mc::point_in_drop(Op::obj(self.0.addr()));
        self.0.state.set(self.0.state.get() - 1);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && std::thread::panicking() && !mc::dying() {
            self.0.poison.set(true);
        }
        mc::point_in_drop(Op::obj(self.0.addr()));
        self.0.state.set(0);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    use super::mc::{self, Op};
    use std::sync::atomic as real;
    use std::sync::atomic::Ordering;

    pub fn fence(_: Ordering) {
        mc::point_atomic(Op::obj(usize::MAX));
    }

    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[repr(transparent)]
            pub struct $name(real::$name);
            impl $name {
                #[inline]
                fn p(&self) {
                    mc::point_atomic(Op::obj(self as *const _ as usize))
                }
                #[inline]
                fn pr(&self) {
                    mc::point_atomic(Op::read(self as *const _ as usize))
                }
                pub const fn new(v: $t) -> Self {
                    Self(real::$name::new(v))
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
                pub fn load(&self, _: Ordering) -> $t {
                    self.pr();
                    self.0.load(Ordering::SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    self.p();
                    self.0.store(v, Ordering::SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    self.p();
                    self.0.swap(v, Ordering::SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    self.p();
                    self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
                }
                pub fn compare_exchange_weak(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.compare_exchange(a, b, s, f)
                }
                #[allow(deprecated)]
                pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                    match self.compare_exchange(a, b, o, Ordering::SeqCst) {
                        Ok(v) | Err(v) => v,
                    }
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    l: Ordering,
                    mut f: F,
                ) -> Result<$t, $t> {
                    let mut prev = self.load(l);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange(prev, next, s, l) {
                            Ok(x) => return Ok(x),
                            Err(n) => prev = n,
                        }
                    }
                    Err(prev)
                }
            }
            impl std::fmt::Debug for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl Default for $name {
                fn default() -> Self {
                    Self(Default::default())
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl std::panic::RefUnwindSafe for $name {}
        };
    }
    macro_rules! ops {
        ($name:ident, $t:ty, $($m:ident),*) => {
            impl $name { $(
                pub fn $m(&self, v: $t, _: Ordering) -> $t {
                    self.p();
                    self.0.$m(v, Ordering::SeqCst)
                }
            )* }
        };
    }
    macro_rules! ints {
        ($($name:ident $t:ty),*) => { $(
            common!($name, $t);
            ops!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
        )* };
    }
    ints!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32,
          AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
    common!(AtomicBool, bool);
    ops!(AtomicBool, bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
    impl AtomicBool {
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.fetch_xor(true, o)
        }
    }
}
