//! `mcstd`: what the polling crate sees as `std` when the checks build it.
//!
//! The crate is compiled unmodified from /repo; the build passes `--extern std=libmcstd.rlib` for
//! that one crate. Everything is the real std, except the items whose behaviour depends on other
//! threads or on hidden randomness: locks, condition variables, atomics, `thread::{sleep,yield}`,
//! spin hints, and hash iteration order. These go through the controlled scheduler in [`mc`].
#![allow(clippy::all)]

pub use std::*;

pub mod kq;
pub mod heap;
pub mod mc;
mod msync;
mod mcoll;
pub mod sysc;
pub mod win;

pub mod sync {
    pub use crate::msync::{
        Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard,
        WaitTimeoutResult,
    };
    pub use std::sync::*;

    pub mod atomic {
        pub use crate::msync::atomic::{fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize};
        pub use std::sync::atomic::*;
    }
}

pub mod thread {
    pub use std::thread::*;
    pub fn sleep(d: std::time::Duration) {
        crate::mc::sleep(d)
    }
    pub fn yield_now() {
        crate::mc::yield_now()
    }
}

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        crate::mc::yield_now()
    }
}

pub mod collections {
    pub use crate::mcoll::{HashMap, HashSet};
    pub use std::collections::*;
    pub mod hash_map {
        pub use crate::mcoll::HashMap;
        pub use std::collections::hash_map::*;
    }
    pub mod hash_set {
        pub use crate::mcoll::HashSet;
        pub use std::collections::hash_set::*;
    }
}

/// Names of std on Windows and Hermit, for the crate as it is compiled there.
pub mod os {
    pub use std::os::*;
    pub mod hermit {
        pub mod io {
            pub use std::os::fd::*;
        }
    }
    pub mod windows {
        pub mod io {
            use std::ffi::c_void;
            use std::marker::PhantomData;
            pub type RawHandle = *mut c_void;
            pub type RawSocket = u64;
            pub trait AsRawHandle {
                fn as_raw_handle(&self) -> RawHandle;
            }
            pub trait AsRawSocket {
                fn as_raw_socket(&self) -> RawSocket;
            }
            pub trait AsHandle {
                fn as_handle(&self) -> BorrowedHandle<'_>;
            }
            pub trait AsSocket {
                fn as_socket(&self) -> BorrowedSocket<'_>;
            }
            #[derive(Clone, Copy, Debug)]
            pub struct BorrowedHandle<'a>(RawHandle, PhantomData<&'a ()>);
            #[derive(Clone, Copy, Debug)]
            pub struct BorrowedSocket<'a>(RawSocket, PhantomData<&'a ()>);
            impl BorrowedHandle<'_> {
                pub const unsafe fn borrow_raw(h: RawHandle) -> Self {
                    Self(h, PhantomData)
                }
            }
            impl BorrowedSocket<'_> {
                pub const unsafe fn borrow_raw(s: RawSocket) -> Self {
                    Self(s, PhantomData)
                }
            }
            impl AsRawHandle for BorrowedHandle<'_> {
                fn as_raw_handle(&self) -> RawHandle {
                    self.0
                }
            }
            impl AsRawSocket for BorrowedSocket<'_> {
                fn as_raw_socket(&self) -> RawSocket {
                    self.0
                }
            }
            impl AsHandle for BorrowedHandle<'_> {
                fn as_handle(&self) -> BorrowedHandle<'_> {
                    *self
                }
            }
            impl AsSocket for BorrowedSocket<'_> {
                fn as_socket(&self) -> BorrowedSocket<'_> {
                    *self
                }
            }
            impl<T: AsRawHandle> AsRawHandle for &T {
                fn as_raw_handle(&self) -> RawHandle {
                    (*self).as_raw_handle()
                }
            }
            impl<T: AsHandle> AsHandle for &T {
                fn as_handle(&self) -> BorrowedHandle<'_> {
                    (*self).as_handle()
                }
            }
            impl<T: AsSocket> AsSocket for &T {
                fn as_socket(&self) -> BorrowedSocket<'_> {
                    (*self).as_socket()
                }
            }
        }
        pub mod prelude {
            pub use super::io::*;
        }
    }
}
