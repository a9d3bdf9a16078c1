//! concurrent-queue as the IOCP backend uses it. The real one is lock-free and linearizable, so
//! each operation is one atomic step here (the atomic gives the scheduler its decision point).
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct ConcurrentQueue<T> {
    cap: Option<usize>,
    steps: AtomicUsize,
    q: UnsafeCell<VecDeque<T>>,
}
unsafe impl<T: Send> Send for ConcurrentQueue<T> {}
unsafe impl<T: Send> Sync for ConcurrentQueue<T> {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PopError {
    Empty,
    Closed,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum PushError<T> {
    Full(T),
    Closed(T),
}
impl<T> PushError<T> {
    pub fn into_inner(self) -> T {
        match self {
            PushError::Full(t) | PushError::Closed(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, PushError::Full(_))
    }
}
impl<T> std::fmt::Debug for PushError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("PushError")
    }
}
impl<T> ConcurrentQueue<T> {
    fn make(cap: Option<usize>) -> Self {
        ConcurrentQueue { cap, steps: AtomicUsize::new(0), q: UnsafeCell::new(VecDeque::new()) }
    }
    pub fn bounded(cap: usize) -> Self {
        assert!(cap > 0);
        Self::make(Some(cap))
    }
    pub fn unbounded() -> Self {
        Self::make(None)
    }
    #[allow(clippy::mut_from_ref)]
    fn step(&self) -> &mut VecDeque<T> {
        self.steps.fetch_add(1, Ordering::SeqCst);
        unsafe { &mut *self.q.get() }
    }
    pub fn push(&self, t: T) -> Result<(), PushError<T>> {
        let q = self.step();
        if self.cap.map_or(false, |c| q.len() >= c) {
            return Err(PushError::Full(t));
        }
        q.push_back(t);
        Ok(())
    }
    pub fn pop(&self) -> Result<T, PopError> {
        self.step().pop_front().ok_or(PopError::Empty)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn is_empty(&self) -> bool {
        self.step().is_empty()
    }
    pub fn is_full(&self) -> bool {
        let n = self.step().len();
        self.cap.map_or(false, |c| n >= c)
    }
    pub fn len(&self) -> usize {
        self.step().len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.cap
    }
}
impl<T> std::fmt::Debug for ConcurrentQueue<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ConcurrentQueue")
    }
}
pub struct TryIter<'a, T>(&'a ConcurrentQueue<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.pop().ok()
    }
}
