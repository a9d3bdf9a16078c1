//! An API for interfacing with `kqueue` (rustix 0.38.44, src/event/kqueue.rs).
#![allow(dead_code, unused_unsafe)]

use crate::fd::{AsFd, AsRawFd, FromRawFd, OwnedFd, RawFd};
use crate::io;
use crate::process::{Pid, Signal};

use c::{intptr_t, kevent as kevent_t, uintptr_t};

use core::mem::zeroed;
use core::time::Duration;

/// FreeBSD's.
#[allow(non_camel_case_types)]
mod c {
    pub type intptr_t = isize;
    pub type uintptr_t = usize;
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct kevent {
        pub ident: usize,
        pub filter: i16,
        pub flags: u16,
        pub fflags: u32,
        pub data: i64,
        pub udata: isize,
    }
    #[repr(C)]
    pub struct timespec {
        pub tv_sec: i64,
        pub tv_nsec: i64,
    }
    pub const EVFILT_READ: i16 = -1;
    pub const EVFILT_WRITE: i16 = -2;
    pub const EVFILT_VNODE: i16 = -4;
    pub const EVFILT_PROC: i16 = -5;
    pub const EVFILT_SIGNAL: i16 = -6;
    pub const EVFILT_TIMER: i16 = -7;
    pub const EVFILT_USER: i16 = -11;
    pub const EVFILT_EMPTY: i16 = -13;
    pub const EV_ADD: u16 = 1;
    pub const EV_DELETE: u16 = 2;
    pub const EV_ENABLE: u16 = 4;
    pub const EV_DISABLE: u16 = 8;
    pub const EV_ONESHOT: u16 = 0x10;
    pub const EV_CLEAR: u16 = 0x20;
    pub const EV_RECEIPT: u16 = 0x40;
    pub const EV_EOF: u16 = 0x8000;
    pub const EV_ERROR: u16 = 0x4000;
    pub const NOTE_SECONDS: u32 = 1;
    pub const NOTE_USECONDS: u32 = 4;
    pub const NOTE_NSECONDS: u32 = 8;
    pub const NOTE_DELETE: u32 = 1;
    pub const NOTE_WRITE: u32 = 2;
    pub const NOTE_EXTEND: u32 = 4;
    pub const NOTE_ATTRIB: u32 = 8;
    pub const NOTE_LINK: u32 = 0x10;
    pub const NOTE_RENAME: u32 = 0x20;
    pub const NOTE_REVOKE: u32 = 0x40;
    pub const NOTE_EXIT: u32 = 0x8000_0000;
    pub const NOTE_FORK: u32 = 0x4000_0000;
    pub const NOTE_EXEC: u32 = 0x2000_0000;
    pub const NOTE_TRACK: u32 = 1;
    pub const NOTE_TRACKERR: u32 = 2;
    pub const NOTE_FFNOP: u32 = 0;
    pub const NOTE_FFAND: u32 = 0x4000_0000;
    pub const NOTE_FFOR: u32 = 0x8000_0000;
    pub const NOTE_FFCOPY: u32 = 0xc000_0000;
    pub const NOTE_FFCTRLMASK: u32 = 0xc000_0000;
    pub const NOTE_FFLAGSMASK: u32 = 0x00ff_ffff;
    pub const NOTE_TRIGGER: u32 = 0x0100_0000;
    extern "C" {
        #[link_name = "kqueue"]
        pub fn kqueue_() -> i32;
        #[link_name = "kevent"]
        pub fn kevent_(kq: i32, ch: *const kevent, n: i32, ev: *mut kevent, m: i32, t: *const timespec) -> i32;
    }
}

#[repr(transparent)]
#[derive(Copy, Clone)]
pub struct Event {
    // The layout varies between BSDs and macOS.
    inner: kevent_t,
}

impl Event {
    #[allow(clippy::needless_update)]
    pub fn new(filter: EventFilter, flags: EventFlags, udata: isize) -> Event {
        let (ident, data, filter, fflags) = match filter {
            EventFilter::Read(fd) => (fd as uintptr_t, 0, c::EVFILT_READ, 0),
            EventFilter::Write(fd) => (fd as _, 0, c::EVFILT_WRITE, 0),
            #[cfg(all())]
            EventFilter::Empty(fd) => (fd as _, 0, c::EVFILT_EMPTY, 0),
            EventFilter::Vnode { vnode, flags } => (vnode as _, 0, c::EVFILT_VNODE, flags.bits()),
            EventFilter::Proc { pid, flags } => {
                (Pid::as_raw(Some(pid)) as _, 0, c::EVFILT_PROC, flags.bits())
            }
            EventFilter::Signal { signal, times: _ } => (signal as _, 0, c::EVFILT_SIGNAL, 0),
            EventFilter::Timer { ident, timer } => {
                #[cfg(all())]
                let (data, fflags) = match timer {
                    Some(timer) => {
                        if timer.subsec_millis() == 0 {
                            (timer.as_secs() as _, c::NOTE_SECONDS)
                        } else if timer.subsec_nanos() == 0 {
                            (timer.as_micros() as _, c::NOTE_USECONDS)
                        } else {
                            (timer.as_nanos() as _, c::NOTE_NSECONDS)
                        }
                    }
                    None => (intptr_t::MAX, c::NOTE_SECONDS),
                };
                #[cfg(any())]
                let (data, fflags) = match timer {
                    Some(timer) => (timer.as_millis() as _, 0),
                    None => (intptr_t::MAX, 0),
                };

                (ident as _, data, c::EVFILT_TIMER, fflags)
            }
            EventFilter::User {
                ident,
                flags,
                user_flags,
            } => (ident as _, 0, c::EVFILT_USER, flags.bits() | user_flags.0),
            EventFilter::Unknown => panic!("unknown filter"),
        };

        Event {
            inner: kevent_t {
                ident,
                filter: filter as _,
                flags: flags.bits() as _,
                fflags,
                data: {
                    // On OpenBSD, data is an `i64` and not an `isize`.
                    data as _
                },
                udata: {
                    // On NetBSD, udata is an `isize` and not a pointer.
                    // TODO: Strict provenance, prevent int-to-ptr cast.
                    udata as _
                },
                ..unsafe { zeroed() }
            },
        }
    }

    pub fn flags(&self) -> EventFlags {
        EventFlags::from_bits_retain(self.inner.flags as _)
    }

    pub fn udata(&self) -> isize {
        // On NetBSD, udata is an isize and not a pointer.
        // TODO: Strict provenance, prevent ptr-to-int cast.

        self.inner.udata as _
    }

    pub fn data(&self) -> i64 {
        // On some BSDs, data is an `isize` and not an `i64`.
        self.inner.data as _
    }

    pub fn filter(&self) -> EventFilter {
        match self.inner.filter as _ {
            c::EVFILT_READ => EventFilter::Read(self.inner.ident as _),
            c::EVFILT_WRITE => EventFilter::Write(self.inner.ident as _),
            #[cfg(all())]
            c::EVFILT_EMPTY => EventFilter::Empty(self.inner.ident as _),
            c::EVFILT_VNODE => EventFilter::Vnode {
                vnode: self.inner.ident as _,
                flags: VnodeEvents::from_bits_retain(self.inner.fflags),
            },
            c::EVFILT_PROC => EventFilter::Proc {
                pid: Pid::from_raw(self.inner.ident as _).unwrap(),
                flags: ProcessEvents::from_bits_retain(self.inner.fflags),
            },
            c::EVFILT_SIGNAL => EventFilter::Signal {
                signal: Signal::from_raw(self.inner.ident as _).unwrap(),
                times: self.inner.data as _,
            },
            c::EVFILT_TIMER => EventFilter::Timer {
                ident: self.inner.ident as _,
                timer: {
                    let (data, fflags) = (self.inner.data, self.inner.fflags);
                    #[cfg(any())]
                    let _ = fflags;
                    #[cfg(all())]
                    match fflags as _ {
                        c::NOTE_SECONDS => Some(Duration::from_secs(data as _)),
                        c::NOTE_USECONDS => Some(Duration::from_micros(data as _)),
                        c::NOTE_NSECONDS => Some(Duration::from_nanos(data as _)),
                        _ => {
                            // Unknown timer flags.
                            None
                        }
                    }
                    #[cfg(any())]
                    Some(Duration::from_millis(data as _))
                },
            },
            c::EVFILT_USER => EventFilter::User {
                ident: self.inner.ident as _,
                flags: UserFlags::from_bits_retain(self.inner.fflags),
                user_flags: UserDefinedFlags(self.inner.fflags & EVFILT_USER_FLAGS),
            },
            _ => EventFilter::Unknown,
        }
    }
}

const EVFILT_USER_FLAGS: u32 = 0x00ff_ffff;

#[repr(i16)]
#[non_exhaustive]
pub enum EventFilter {
    Read(RawFd),

    Write(RawFd),

    #[cfg(all())]
    Empty(RawFd),

    Vnode {
        vnode: RawFd,

        flags: VnodeEvents,
    },

    Proc {
        pid: Pid,

        flags: ProcessEvents,
    },

    Signal {
        signal: Signal,

        times: usize,
    },

    Timer {
        ident: intptr_t,

        timer: Option<Duration>,
    },

    User {
        ident: intptr_t,

        flags: UserFlags,

        user_flags: UserDefinedFlags,
    },

    Unknown,
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct EventFlags: u16 {
        const ADD = c::EV_ADD as _;

        const ENABLE = c::EV_ENABLE as _;

        const DISABLE = c::EV_DISABLE as _;

        const DELETE = c::EV_DELETE as _;

        const RECEIPT = c::EV_RECEIPT as _;

        const ONESHOT = c::EV_ONESHOT as _;

        const CLEAR = c::EV_CLEAR as _;

        const EOF = c::EV_EOF as _;

        const ERROR = c::EV_ERROR as _;

        const _ = !0;
    }
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct VnodeEvents: u32 {
        const DELETE = c::NOTE_DELETE;

        const WRITE = c::NOTE_WRITE;

        const EXTEND = c::NOTE_EXTEND;

        const ATTRIBUTES = c::NOTE_ATTRIB;

        const RENAME = c::NOTE_RENAME;

        const REVOKE = c::NOTE_REVOKE;

        const LINK = c::NOTE_LINK;

        const _ = !0;
    }
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct ProcessEvents: u32 {
        const EXIT = c::NOTE_EXIT;

        const FORK = c::NOTE_FORK;

        const EXEC = c::NOTE_EXEC;

        const TRACK = c::NOTE_TRACK;

        const TRACKERR = c::NOTE_TRACKERR;

        const _ = !0;
    }
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct UserFlags: u32 {
        const NOINPUT = c::NOTE_FFNOP;

        const AND = c::NOTE_FFAND;

        const OR = c::NOTE_FFOR;

        const COPY = c::NOTE_FFCOPY;

        const CTRLMASK = c::NOTE_FFCTRLMASK;

        const UDFMASK = c::NOTE_FFLAGSMASK;

        const TRIGGER = c::NOTE_TRIGGER;

        const _ = !0;
    }
}

#[repr(transparent)]
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct UserDefinedFlags(u32);

impl UserDefinedFlags {
    pub fn new(flags: u32) -> Self {
        Self(flags & EVFILT_USER_FLAGS)
    }

    pub fn get(self) -> u32 {
        self.0
    }
}

pub fn kqueue() -> io::Result<OwnedFd> {
    let r = unsafe { c::kqueue_() };
    if r < 0 {
        return Err(last());
    }
    Ok(unsafe { OwnedFd::from_raw_fd(r) })
}

pub unsafe fn kevent(
    kqueue: impl AsFd,
    changelist: &[Event],
    eventlist: &mut Vec<Event>,
    timeout: Option<Duration>,
) -> io::Result<usize> {
    let timeout = timeout.map(|timeout| c::timespec {
        tv_sec: timeout.as_secs() as _,
        tv_nsec: timeout.subsec_nanos() as _,
    });

    // Populate the event list with events.
    eventlist.set_len(0);
    let res = c::kevent_(
        kqueue.as_fd().as_raw_fd(),
        changelist.as_ptr().cast(),
        changelist.len().try_into().map_err(|_| io::Errno::OVERFLOW)?,
        eventlist.as_mut_ptr().cast(),
        eventlist.capacity().try_into().map_err(|_| io::Errno::OVERFLOW)?,
        timeout.as_ref().map_or(core::ptr::null(), |t| t as *const _),
    );
    if res < 0 {
        return Err(last());
    }

    // Update the event list.
    eventlist.set_len(res as usize);
    Ok(res as usize)
}
fn last() -> io::Errno {
    io::Errno::from_raw_os_error(std::io::Error::last_os_error().raw_os_error().unwrap())
}
