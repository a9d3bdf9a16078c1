//! The C library's system-call wrappers, defined here so that the polling crate (through rustix and
//! std) calls into the scheduler. Kernel objects are real: epoll instances, pipes, eventfds and
//! sockets live in the kernel. What is replaced is blocking (the scheduler decides who runs), time
//! (virtual), timerfds (an eventfd bumped by the virtual clock), signals and injected faults.
#![allow(non_camel_case_types)]
use crate::mc::{self, Block, Op, PollReq};
use std::arch::asm;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sys {
    EpollCreate,
    EpollAdd,
    EpollMod,
    EpollDel,
    EpollWait,
    Poll,
    Read,
    Write,
    Eventfd,
    TimerCreate,
    TimerSet,
    Pipe,
    Pipe2,
    FcntlGetFd,
    FcntlSetFd,
    FcntlGetFl,
    FcntlSetFl,
    FcntlOther,
    Close,
    Kqueue,
    /// One change to a kqueue.
    KqChange,
    /// A call that changes a kqueue or a port.
    KqChanges,
    /// A call that waits for one.
    KqWait,
    /// A completion port: tie a device to it, open a device, post a packet.
    KqAssoc,
    KqDevice,
    KqPost,
}
impl Sys {
    /// The name of the counter.
    pub(crate) fn refused(self) -> &'static str {
        match self {
            Sys::EpollCreate => "refused EpollCreate",
            Sys::EpollAdd => "refused EpollAdd",
            Sys::EpollMod => "refused EpollMod",
            Sys::EpollDel => "refused EpollDel",
            Sys::EpollWait => "refused EpollWait",
            Sys::Poll => "refused Poll",
            Sys::Read => "refused Read",
            Sys::Write => "refused Write",
            Sys::Eventfd => "refused Eventfd",
            Sys::TimerCreate => "refused TimerCreate",
            Sys::TimerSet => "refused TimerSet",
            Sys::Pipe => "refused Pipe",
            Sys::Pipe2 => "refused Pipe2",
            Sys::FcntlGetFd => "refused FcntlGetFd",
            Sys::FcntlSetFd => "refused FcntlSetFd",
            Sys::FcntlGetFl => "refused FcntlGetFl",
            Sys::FcntlSetFl => "refused FcntlSetFl",
            Sys::FcntlOther => "refused FcntlOther",
            Sys::Close => "refused Close",
            Sys::Kqueue => "refused Kqueue",
            Sys::KqChange => "refused KqChange",
            Sys::KqChanges => "refused KqChanges",
            Sys::KqWait => "refused KqWait",
            Sys::KqAssoc => "refused KqAssoc",
            Sys::KqDevice => "refused KqDevice",
            Sys::KqPost => "refused KqPost",
        }
    }
}

pub const EINTR: i32 = 4;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EINVAL: i32 = 22;
pub const POLLIN: i16 = 1;
pub const POLLPRI: i16 = 2;
pub const POLLOUT: i16 = 4;
pub const POLLERR: i16 = 8;
pub const POLLHUP: i16 = 16;
pub const POLLNVAL: i16 = 32;
pub const POLLRDNORM: i16 = 0x40;
pub const POLLRDBAND: i16 = 0x80;
pub const POLLWRNORM: i16 = 0x100;
pub const POLLWRBAND: i16 = 0x200;
pub const POLLRDHUP: i16 = 0x2000;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct pollfd {
    pub fd: i32,
    pub events: i16,
    pub revents: i16,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct timespec {
    pub sec: i64,
    pub nsec: i64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct itimerspec {
    pub interval: timespec,
    pub value: timespec,
}
extern "C" {
    fn __errno_location() -> *mut i32;
}

/// Eventfds as ESP-IDF has them: they never block, an empty one reads as zero rather than failing
/// with EAGAIN, and they take neither flags nor fcntl.
pub static ESPIDF: AtomicBool = AtomicBool::new(false);
/// Pipes as Vita has them: what is written may become readable later (any call may be the moment;
/// before everybody sleeps, it has).
pub static VITA: AtomicBool = AtomicBool::new(false);

/// A raw system call: never scheduled, never failed on purpose.
#[inline]
pub fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
const R_READ: usize = 0;
const R_WRITE: usize = 1;
const R_CLOSE: usize = 3;
const R_POLL: usize = 7;
const R_PIPE: usize = 22;
const R_NANOSLEEP: usize = 35;
const R_FCNTL: usize = 72;
const R_CLOCK_GETTIME: usize = 228;
const R_CLOCK_NANOSLEEP: usize = 230;
const R_EPOLL_WAIT: usize = 232;
const R_EPOLL_CTL: usize = 233;
const R_PPOLL: usize = 271;
const R_EPOLL_PWAIT: usize = 281;
const R_TIMERFD_CREATE: usize = 283;
const R_TIMERFD_SETTIME: usize = 286;
const R_TIMERFD_GETTIME: usize = 287;
const R_EVENTFD2: usize = 290;
const R_EPOLL_CREATE1: usize = 291;
const R_PIPE2: usize = 293;
const R_CLOSE_RANGE: usize = 436;
const R_EPOLL_PWAIT2: usize = 441;

pub(crate) fn err(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}
pub(crate) fn ret(r: isize) -> i32 {
    if r < 0 {
        err((-r) as i32)
    } else {
        r as i32
    }
}
fn ret_l(r: isize) -> isize {
    if r < 0 {
        err((-r) as i32);
        -1
    } else {
        r
    }
}
/// Before each call made by explored code: a scheduling point, then maybe an injected failure.
pub(crate) fn enter(s: Sys, fd: i32) -> Result<(), i32> {
    if !mc::point_sys(Op::kernel()) {
        return Err(EBADF);
    }
    if matches!(s, Sys::Read | Sys::Write | Sys::Poll) {
        mc::late();
    }
    match mc::fault_for(s, fd) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
macro_rules! gate {
    ($s:expr, $fd:expr) => {
        if let Err(e) = enter($s, $fd) {
            return err(e) as _;
        }
    };
}

// ------------------------------------------------------------------ helpers for the engine and harnesses
pub fn raw_poll(p: &mut [pollfd]) -> isize {
    raw(R_POLL, p.as_mut_ptr() as usize, p.len(), 0, 0, 0, 0)
}
/// What the kernel says about one descriptor right now.
pub fn truth(fd: i32, events: i16) -> i16 {
    if crate::kq::is_sim(fd) {
        // A simulated poller: there is something to read if there is something to report.
        return if crate::kq::ready(fd) { events & POLLIN } else { 0 };
    }
    let mut p = [pollfd { fd, events, revents: 0 }];
    raw_poll(&mut p);
    p[0].revents
}
pub fn ready_now(reqs: &[PollReq]) -> bool {
    if let [r] = reqs {
        if crate::kq::is_sim(r.fd) {
            return crate::kq::ready(r.fd);
        }
        if crate::win::is_sim(r.fd) {
            return crate::win::ready(r.fd);
        }
    }
    let mut p: Vec<pollfd> =
        reqs.iter().map(|r| pollfd { fd: r.fd, events: r.events, revents: 0 }).collect();
    raw_poll(&mut p) > 0
}
pub fn raw_read(fd: i32, buf: &mut [u8]) -> isize {
    raw(R_READ, fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0)
}
pub fn raw_write(fd: i32, buf: &[u8]) -> isize {
    raw(R_WRITE, fd as usize, buf.as_ptr() as usize, buf.len(), 0, 0, 0)
}
pub fn raw_close(fd: i32) -> isize {
    raw(R_CLOSE, fd as usize, 0, 0, 0, 0, 0)
}
pub fn raw_fcntl(fd: i32, cmd: i32, arg: usize) -> isize {
    raw(R_FCNTL, fd as usize, cmd as usize, arg, 0, 0, 0)
}
pub fn raw_eventfd(v: u32, flags: i32) -> i32 {
    raw(R_EVENTFD2, v as usize, flags as usize, 0, 0, 0, 0) as i32
}
pub fn raw_pipe(flags: i32) -> (i32, i32) {
    let mut p = [0i32; 2];
    let r = raw(R_PIPE2, p.as_mut_ptr() as usize, flags as usize, 0, 0, 0, 0);
    assert!(r == 0, "pipe2: {r}");
    (p[0], p[1])
}
pub(crate) fn drain_eventfd(fd: i32) {
    let mut b = [0u8; 8];
    raw_read(fd, &mut b);
}
pub(crate) fn bump_eventfd(fd: i32) {
    raw_write(fd, &1u64.to_ne_bytes());
}
pub fn lowest_free_fd() -> i32 {
    let fd = raw_eventfd(0, 0);
    assert!(fd >= 0, "cannot open a descriptor: {fd}");
    raw_close(fd);
    fd
}
pub fn close_from(base: i32) {
    raw(R_CLOSE_RANGE, base as usize, u32::MAX as usize, 0, 0, 0, 0);
}
pub fn real_now() -> f64 {
    let mut t = timespec::default();
    raw(R_CLOCK_GETTIME, 1, &mut t as *mut _ as usize, 0, 0, 0, 0);
    t.sec as f64 + t.nsec as f64 * 1e-9
}
fn nonblocking(fd: i32) -> bool {
    let r = raw_fcntl(fd, 3, 0);
    r >= 0 && (r & 0o4000) != 0
}

// ------------------------------------------------------------------ epoll
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: i32) -> i32 {
    if mc::in_thread() {
        gate!(Sys::EpollCreate, -1);
    }
    ret(raw(R_EPOLL_CREATE1, flags as usize, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(_n: i32) -> i32 {
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut u8) -> i32 {
    if mc::in_thread() {
        let s = match op {
            1 => Sys::EpollAdd,
            2 => Sys::EpollDel,
            _ => Sys::EpollMod,
        };
        gate!(s, fd);
    }
    ret(raw(R_EPOLL_CTL, ep as usize, op as usize, fd as usize, ev as usize, 0, 0))
}
unsafe fn epoll_wait_mc(ep: i32, evs: *mut u8, max: i32, deadline: Option<u128>, zero: bool) -> i32 {
    gate!(Sys::EpollWait, ep);
    loop {
        let r = raw(R_EPOLL_WAIT, ep as usize, evs as usize, max as usize, 0, 0, 0);
        if r != 0 || zero {
            return ret(r);
        }
        if mc::take_eintr() {
            return err(EINTR);
        }
        if deadline.map_or(false, |d| mc::now() >= d) {
            return 0;
        }
        let b = Block::Kernel(vec![PollReq { fd: ep, events: POLLIN }], deadline, true);
        if !mc::block_sys(b) {
            return err(EBADF);
        }
    }
}
fn ms_deadline(ms: i32) -> Option<u128> {
    if ms < 0 {
        None
    } else {
        Some(mc::now() + ms as u128 * 1_000_000)
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: i32, evs: *mut u8, max: i32, ms: i32) -> i32 {
    if mc::in_thread() {
        return epoll_wait_mc(ep, evs, max, ms_deadline(ms), ms == 0);
    }
    ret(raw(R_EPOLL_WAIT, ep as usize, evs as usize, max as usize, ms as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: i32, evs: *mut u8, max: i32, ms: i32, set: *const u8) -> i32 {
    if mc::in_thread() {
        return epoll_wait_mc(ep, evs, max, ms_deadline(ms), ms == 0);
    }
    ret(raw(R_EPOLL_PWAIT, ep as usize, evs as usize, max as usize, ms as usize, set as usize, 8))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait2(
    ep: i32,
    evs: *mut u8,
    max: i32,
    ts: *const timespec,
    set: *const u8,
) -> i32 {
    if mc::in_thread() {
        let (d, z) = ts_deadline(ts);
        return epoll_wait_mc(ep, evs, max, d, z);
    }
    ret(raw(R_EPOLL_PWAIT2, ep as usize, evs as usize, max as usize, ts as usize, set as usize, 8))
}
pub(crate) unsafe fn ts_deadline(ts: *const timespec) -> (Option<u128>, bool) {
    if ts.is_null() {
        return (None, false);
    }
    let n = (*ts).sec as u128 * 1_000_000_000 + (*ts).nsec as u128;
    (Some(mc::now() + n), n == 0)
}

// ------------------------------------------------------------------ poll
unsafe fn poll_mc(p: *mut pollfd, n: u64, deadline: Option<u128>, zero: bool) -> i32 {
    gate!(Sys::Poll, -1);
    loop {
        let r = raw(R_POLL, p as usize, n as usize, 0, 0, 0, 0);
        if r != 0 || zero {
            return ret(r);
        }
        if mc::take_eintr() {
            return err(EINTR);
        }
        if deadline.map_or(false, |d| mc::now() >= d) {
            return 0;
        }
        let reqs = (0..n as usize)
            .map(|i| PollReq { fd: (*p.add(i)).fd, events: (*p.add(i)).events })
            .collect();
        if !mc::block_sys(Block::Kernel(reqs, deadline, true)) {
            return err(EBADF);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: u64, ms: i32) -> i32 {
    if mc::in_thread() {
        return poll_mc(p, n, ms_deadline(ms), ms == 0);
    }
    ret(raw(R_POLL, p as usize, n as usize, ms as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(p: *mut pollfd, n: u64, ts: *const timespec, set: *const u8) -> i32 {
    if mc::in_thread() {
        let (d, z) = ts_deadline(ts);
        return poll_mc(p, n, d, z);
    }
    let mut t = timespec::default();
    let tp = if ts.is_null() {
        0
    } else {
        t = *ts;
        &mut t as *mut _ as usize
    };
    ret(raw(R_PPOLL, p as usize, n as usize, tp, set as usize, 8, 0))
}

// ------------------------------------------------------------------ calls by number
/// rustix makes some calls this way (eventfd2 among them).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if mc::in_thread() {
        match n {
            R_READ => return read(a as i32, b as *mut u8, c),
            R_WRITE => return write(a as i32, b as *const u8, c),
            R_CLOSE => return close(a as i32) as isize,
            R_POLL => return poll(a as *mut pollfd, b as u64, c as i32) as isize,
            R_PPOLL => return ppoll(a as *mut pollfd, b as u64, c as *const timespec, d as *const u8) as isize,
            R_PIPE => return pipe(a as *mut i32) as isize,
            R_PIPE2 => return pipe2(a as *mut i32, b as i32) as isize,
            R_FCNTL => return fcntl_any(a as i32, b as i32, c) as isize,
            R_CLOCK_GETTIME => return clock_gettime(a as i32, b as *mut timespec) as isize,
            R_NANOSLEEP => return nanosleep(a as *const timespec, b as *mut timespec) as isize,
            R_EPOLL_WAIT => return epoll_wait(a as i32, b as *mut u8, c as i32, d as i32) as isize,
            R_EPOLL_PWAIT => return epoll_pwait(a as i32, b as *mut u8, c as i32, d as i32, e as *const u8) as isize,
            R_EPOLL_PWAIT2 => return epoll_pwait2(a as i32, b as *mut u8, c as i32, d as *const timespec, e as *const u8) as isize,
            R_EPOLL_CTL => return epoll_ctl(a as i32, b as i32, c as i32, d as *mut u8) as isize,
            R_EPOLL_CREATE1 => return epoll_create1(a as i32) as isize,
            R_EVENTFD2 => return eventfd(a as u32, b as i32) as isize,
            R_TIMERFD_CREATE => return timerfd_create(a as i32, b as i32) as isize,
            R_TIMERFD_SETTIME => return timerfd_settime(a as i32, b as i32, c as *const itimerspec, d as *mut itimerspec) as isize,
            R_TIMERFD_GETTIME => return timerfd_gettime(a as i32, b as *mut itimerspec) as isize,
            _ => {}
        }
    }
    ret_l(raw(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ read, write, close
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if mc::in_thread() {
        gate!(Sys::Read, fd);
        if !nonblocking(fd) {
            while truth(fd, POLLIN) == 0 {
                if mc::take_eintr() {
                    return err(EINTR) as isize;
                }
                let b = Block::Kernel(vec![PollReq { fd, events: POLLIN }], None, true);
                if !mc::block_sys(b) {
                    return err(EBADF) as isize;
                }
            }
        }
    }
    let r = raw(R_READ, fd as usize, buf as usize, n, 0, 0, 0);
    if r == -(EAGAIN as isize) && n == 8 && mc::in_thread() && ESPIDF.load(Relaxed) {
        std::ptr::write_bytes(buf, 0, n);
        return 8;
    }
    ret_l(r)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if mc::in_thread() {
        gate!(Sys::Write, fd);
        if !nonblocking(fd) {
            while truth(fd, POLLOUT) == 0 {
                if mc::take_eintr() {
                    return err(EINTR) as isize;
                }
                let b = Block::Kernel(vec![PollReq { fd, events: POLLOUT }], None, true);
                if !mc::block_sys(b) {
                    return err(EBADF) as isize;
                }
            }
        }
        if VITA.load(Relaxed) && n <= 64 && truth(fd, POLLOUT) & (POLLOUT | POLLERR) == POLLOUT {
            mc::send_late(fd, n);
            return n as isize;
        }
    }
    ret_l(raw(R_WRITE, fd as usize, buf as usize, n, 0, 0, 0))
}
/// Sockets: std's streams use these.
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut u8, n: usize, flags: i32) -> isize {
    if mc::in_thread() {
        gate!(Sys::Read, fd);
        // Explored code has no blocking sockets.
        return ret_l(raw(45, fd as usize, buf as usize, n, flags as usize | 0x40, 0, 0));
    }
    ret_l(raw(45, fd as usize, buf as usize, n, flags as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const u8, n: usize, flags: i32) -> isize {
    if mc::in_thread() {
        gate!(Sys::Write, fd);
        let r = raw(44, fd as usize, buf as usize, n, flags as usize | 0x40, 0, 0);
        return ret_l(r);
    }
    ret_l(raw(44, fd as usize, buf as usize, n, flags as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if mc::in_thread() {
        if !mc::point_sys(Op::kernel()) {
            return err(EBADF);
        }
        mc::note_close(fd);
        mc::forget_late(fd);
    }
    mc::timer_close(fd);
    crate::kq::closed(fd);
    let r = raw(R_CLOSE, fd as usize, 0, 0, 0, 0, 0);
    if r == -(EBADF as isize) && mc::in_thread() {
        mc::flag(format!("descriptor {fd} was closed though it was not open (closed twice?)"));
    }
    ret(r)
}

// ------------------------------------------------------------------ pipes, eventfd, fcntl
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut i32, flags: i32) -> i32 {
    if mc::in_thread() {
        gate!(Sys::Pipe2, -1);
    }
    ret(raw(R_PIPE2, p as usize, flags as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pipe(p: *mut i32) -> i32 {
    if mc::in_thread() {
        gate!(Sys::Pipe, -1);
    }
    ret(raw(R_PIPE, p as usize, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(v: u32, flags: i32) -> i32 {
    if mc::in_thread() {
        gate!(Sys::Eventfd, -1);
        if ESPIDF.load(Relaxed) {
            if flags != 0 {
                return err(EINVAL);
            }
            return ret(raw(R_EVENTFD2, v as usize, 0o2004000, 0, 0, 0, 0));
        }
    }
    ret(raw(R_EVENTFD2, v as usize, flags as usize, 0, 0, 0, 0))
}
unsafe fn fcntl_any(fd: i32, cmd: i32, arg: usize) -> i32 {
    if mc::in_thread() && cmd == 1 {
        // Looking at a descriptor's flags is not a scheduling point (std does so in every drop).
        if let Some(e) = mc::fault_for(Sys::FcntlGetFd, fd) {
            return err(e);
        }
    } else if mc::in_thread() {
        if ESPIDF.load(Relaxed) {
            return err(EINVAL);
        }
        let s = match cmd {
            2 => Sys::FcntlSetFd,
            3 => Sys::FcntlGetFl,
            4 => Sys::FcntlSetFl,
            _ => Sys::FcntlOther,
        };
        gate!(s, fd);
    }
    ret(raw_fcntl(fd, cmd, arg))
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl_any(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl_any(fd, cmd, arg)
}

// ------------------------------------------------------------------ timers and clocks
#[no_mangle]
pub unsafe extern "C" fn timerfd_create(clock: i32, flags: i32) -> i32 {
    if mc::in_thread() {
        gate!(Sys::TimerCreate, -1);
        let _ = clock;
        // Same flag values as eventfd's (O_CLOEXEC, O_NONBLOCK).
        let r = raw(R_EVENTFD2, 0, flags as usize, 0, 0, 0, 0);
        if r >= 0 {
            mc::timer_create(r as i32);
        }
        return ret(r);
    }
    ret(raw(R_TIMERFD_CREATE, clock as usize, flags as usize, 0, 0, 0, 0))
}
fn bad(t: &timespec) -> bool {
    t.sec < 0 || t.nsec < 0 || t.nsec > 999_999_999
}
fn ns(t: &timespec) -> u128 {
    t.sec as u128 * 1_000_000_000 + t.nsec as u128
}
fn mkts(n: u128) -> timespec {
    timespec { sec: (n / 1_000_000_000) as i64, nsec: (n % 1_000_000_000) as i64 }
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_settime(
    fd: i32,
    flags: i32,
    new: *const itimerspec,
    old: *mut itimerspec,
) -> i32 {
    if mc::in_thread() {
        gate!(Sys::TimerSet, fd);
        if !mc::timer_is(fd) {
            return err(EINVAL);
        }
        let v = &*new;
        if bad(&v.value) || bad(&v.interval) {
            return err(EINVAL);
        }
        if !old.is_null() {
            let (l, i) = mc::timer_get(fd);
            *old = itimerspec { interval: mkts(i), value: mkts(l) };
        }
        let n = ns(&v.value);
        let d = if n == 0 {
            None
        } else if flags & 1 != 0 {
            Some(n)
        } else {
            Some(mc::now() + n)
        };
        mc::timer_set(fd, d, ns(&v.interval));
        return 0;
    }
    ret(raw(R_TIMERFD_SETTIME, fd as usize, flags as usize, new as usize, old as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_gettime(fd: i32, cur: *mut itimerspec) -> i32 {
    if mc::in_thread() {
        gate!(Sys::TimerSet, fd);
        let (l, i) = mc::timer_get(fd);
        *cur = itimerspec { interval: mkts(i), value: mkts(l) };
        return 0;
    }
    ret(raw(R_TIMERFD_GETTIME, fd as usize, cur as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut timespec) -> i32 {
    if mc::in_thread() {
        *t = mkts(mc::now());
        return 0;
    }
    ret(raw(R_CLOCK_GETTIME, id as usize, t as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> i32 {
    if mc::in_thread() {
        mc::sleep(std::time::Duration::new((*req).sec as u64, (*req).nsec as u32));
        return 0;
    }
    ret(raw(R_NANOSLEEP, req as usize, rem as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32,
    flags: i32,
    req: *const timespec,
    rem: *mut timespec,
) -> i32 {
    if mc::in_thread() {
        let n = ns(&*req);
        let n = if flags & 1 != 0 { n.saturating_sub(mc::now()) } else { n };
        mc::sleep(std::time::Duration::from_nanos(n as u64));
        return 0;
    }
    let r = raw(R_CLOCK_NANOSLEEP, id as usize, flags as usize, req as usize, rem as usize, 0, 0);
    (-r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if mc::in_thread() {
        mc::yield_now();
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0);
    0
}

// ------------------------------------------------------------------ Hermit
/// The calls of Hermit the crate makes, by the names the hermit-abi crate links to. An eventfd blocks
/// there unless told otherwise, as on Linux; a failing call returns the negative error number.
unsafe fn hermit(r: isize) -> isize {
    if r < 0 {
        -(*__errno_location() as isize)
    } else {
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn sys_get_errno() -> i32 {
    *__errno_location()
}
#[no_mangle]
pub unsafe extern "C" fn sys_eventfd(v: u64, flags: i16) -> i32 {
    if mc::in_thread() {
        gate!(Sys::Eventfd, -1);
    }
    // Linux's numbers, except for close-on-exec.
    let known = (flags as i32 & 0o4001) as usize;
    hermit(ret(raw(R_EVENTFD2, v as usize, known | 0o2000000, 0, 0, 0, 0)) as isize) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sys_read(fd: i32, buf: *mut u8, n: usize) -> isize {
    hermit(read(fd, buf, n))
}
#[no_mangle]
pub unsafe extern "C" fn sys_write(fd: i32, buf: *const u8, n: usize) -> isize {
    hermit(write(fd, buf, n))
}
#[no_mangle]
pub unsafe extern "C" fn sys_poll(p: *mut pollfd, n: usize, ms: i32) -> i32 {
    hermit(poll(p, n as u64, ms) as isize) as i32
}
