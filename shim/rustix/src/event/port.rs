//! Solaris/illumos event ports (rustix 0.38.44, src/event/port.rs).
use crate::event::PollFlags;
use crate::fd::{AsFd, AsRawFd, FromRawFd, OwnedFd};
use crate::io;
use core::ffi::c_void;
use core::time::Duration;

#[allow(non_camel_case_types)]
mod c {
    #[repr(C)]
    pub struct port_event {
        pub portev_events: i32,
        pub portev_source: u16,
        pub portev_pad: u16,
        pub portev_object: usize,
        pub portev_user: *mut core::ffi::c_void,
    }
    #[repr(C)]
    pub struct timespec {
        pub tv_sec: i64,
        pub tv_nsec: i64,
    }
    pub const PORT_SOURCE_FD: i32 = 4;
    extern "C" {
        pub fn port_create() -> i32;
        pub fn port_associate(p: i32, source: i32, object: usize, events: i32, user: *mut core::ffi::c_void) -> i32;
        pub fn port_dissociate(p: i32, source: i32, object: usize) -> i32;
        pub fn port_send(p: i32, events: i32, user: *mut core::ffi::c_void) -> i32;
        pub fn port_getn(p: i32, list: *mut port_event, max: u32, nget: *mut u32, t: *mut timespec) -> i32;
    }
}
fn ret(r: i32) -> io::Result<()> {
    if r < 0 {
        let e = std::io::Error::last_os_error().raw_os_error().unwrap();
        return Err(io::Errno::from_raw_os_error(e));
    }
    Ok(())
}

#[repr(transparent)]
pub struct Event(pub(crate) c::port_event);

impl Event {
    pub fn events(&self) -> i32 {
        self.0.portev_events
    }

    pub fn object(&self) -> usize {
        self.0.portev_object
    }

    pub fn userdata(&self) -> *mut c_void {
        self.0.portev_user
    }
}

pub fn port_create() -> io::Result<OwnedFd> {
    let r = unsafe { c::port_create() };
    ret(r)?;
    Ok(unsafe { OwnedFd::from_raw_fd(r) })
}

pub unsafe fn port_associate_fd(
    port: impl AsFd,
    object: impl AsRawFd,
    events: PollFlags,
    userdata: *mut c_void,
) -> io::Result<()> {
    ret(c::port_associate(
        port.as_fd().as_raw_fd(),
        c::PORT_SOURCE_FD,
        object.as_raw_fd() as _,
        events.bits() as _,
        userdata,
    ))
}

pub unsafe fn port_dissociate_fd(port: impl AsFd, object: impl AsRawFd) -> io::Result<()> {
    ret(c::port_dissociate(port.as_fd().as_raw_fd(), c::PORT_SOURCE_FD, object.as_raw_fd() as _))
}

pub fn port_getn(
    port: impl AsFd,
    events: &mut Vec<Event>,
    min_events: usize,
    timeout: Option<Duration>,
) -> io::Result<()> {
    events.clear();

    let mut timeout = timeout.map(|timeout| c::timespec {
        tv_sec: timeout.as_secs().try_into().unwrap(),
        tv_nsec: timeout.subsec_nanos() as _,
    });
    let mut nget: u32 = min_events.try_into().unwrap();
    if events.capacity() == 0 {
        return Ok(());
    }
    let timeout = timeout.as_mut().map_or(core::ptr::null_mut(), |t| t as *mut _);
    unsafe {
        ret(c::port_getn(
            port.as_fd().as_raw_fd(),
            events.as_mut_ptr().cast(),
            events.capacity().try_into().unwrap(),
            &mut nget,
            timeout,
        ))?;
    }
    // Update the vector length.
    unsafe {
        events.set_len(nget.try_into().unwrap());
    }
    Ok(())
}

pub fn port_send(port: impl AsFd, events: i32, userdata: *mut c_void) -> io::Result<()> {
    ret(unsafe { c::port_send(port.as_fd().as_raw_fd(), events, userdata) })
}
