//! What `rustix` looks like to the crate on a BSD or illumos: the real one, plus the `kqueue` and
//! `port` modules (copied from rustix 0.38.44, src/event/{kqueue,port}.rs and
//! src/backend/libc/event/syscalls.rs, with FreeBSD's constants). The C functions they call are the
//! simulated ones of mcstd.
pub use real_rustix::*;
pub mod event {
    pub mod kqueue;
    pub mod port;
    pub use real_rustix::event::*;
}
