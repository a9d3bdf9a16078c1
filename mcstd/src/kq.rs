//! Simulated kernels for the other platforms: BSD kqueue and illumos event ports, over real Linux
//! descriptors (whether one is readable or writable is the Linux kernel's word) and the virtual
//! clock. Blocking goes through the scheduler, like every other system call.
//!
//! kqueue follows the FreeBSD manual and kqueue_register/kqueue_scan: a knote per (ident, filter);
//! EV_ADD of an existing one replaces its data and udata (not EV_CLEAR/EV_ONESHOT, which are fixed
//! when it is made; the explored programs do not depend on that) and looks at the condition anew;
//! EV_ONESHOT removes a delivered knote; EV_CLEAR knotes report activity, not state; changes with
//! EV_RECEIPT come back as EV_ERROR entries.
//!
//! Event ports follow port_create(3C), port_associate(3C), port_get(3C), port_send(3C).
use crate::mc::{self, Block, Op, PollReq};
use crate::sysc::*;

pub const EVFILT_READ: i16 = -1;
pub const EVFILT_WRITE: i16 = -2;
pub const EVFILT_PROC: i16 = -5;
pub const EVFILT_SIGNAL: i16 = -6;
pub const EVFILT_TIMER: i16 = -7;
pub const EVFILT_USER: i16 = -11;
const EV_ADD: u16 = 1;
const EV_DELETE: u16 = 2;
const EV_ENABLE: u16 = 4;
const EV_DISABLE: u16 = 8;
const EV_ONESHOT: u16 = 0x10;
const EV_CLEAR: u16 = 0x20;
const EV_RECEIPT: u16 = 0x40;
const EV_EOF: u16 = 0x8000;
const EV_ERROR: u16 = 0x4000;
const NOTE_TRIGGER: u32 = 0x0100_0000;
const NOTE_SECONDS: u32 = 1;
const NOTE_USECONDS: u32 = 4;
const NOTE_NSECONDS: u32 = 8;
const ENOENT: i32 = 2;
const ESRCH: i32 = 3;
const EPIPE: i32 = 32;
const ETIME: i32 = 62;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Kev {
    pub ident: usize,
    pub filter: i16,
    pub flags: u16,
    pub fflags: u32,
    pub data: i64,
    pub udata: isize,
}
#[derive(Clone, Debug)]
struct Note {
    k: Kev,
    off: bool,
    /// EV_CLEAR: something happened since the last report.
    pending: bool,
    /// Signals received, what the process did.
    n: u32,
    /// The timer's hidden descriptor.
    timer: i32,
}
struct Kq {
    fd: i32,
    notes: Vec<Note>,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct PortEvent {
    pub events: i32,
    pub source: u16,
    pub pad: u16,
    pub object: usize,
    pub user: usize,
}
struct Assoc {
    fd: i32,
    events: i16,
    user: usize,
}
struct Port {
    fd: i32,
    assoc: Vec<Assoc>,
    sent: Vec<(i32, usize)>,
}
#[derive(Default)]
struct Sim {
    kqs: Vec<Kq>,
    ports: Vec<Port>,
    procs: Vec<usize>,
}
static mut SIM: Option<Sim> = None;
#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe { SIM.get_or_insert_with(Sim::default) }
}
pub(crate) fn reset() {
    *sim() = Sim::default();
}
pub(crate) fn closed(fd: i32) {
    let s = sim();
    s.kqs.retain(|k| k.fd != fd);
    s.ports.retain(|p| p.fd != fd);
    forget(fd);
}
/// This descriptor is closed: the kernel forgets it everywhere.
pub fn forget(fd: i32) {
    let s = sim();
    for k in &mut s.kqs {
        k.notes.retain(|n| n.k.ident != fd as usize || !matches!(n.k.filter, EVFILT_READ | EVFILT_WRITE));
    }
    for p in &mut s.ports {
        p.assoc.retain(|a| a.fd != fd);
    }
}
pub(crate) fn is_sim(fd: i32) -> bool {
    let s = sim();
    s.kqs.iter().any(|k| k.fd == fd) || s.ports.iter().any(|p| p.fd == fd)
}
/// Would a call that waits on this return?
pub(crate) fn ready(fd: i32) -> bool {
    let s = sim();
    if let Some(k) = s.kqs.iter().find(|k| k.fd == fd) {
        return k.notes.iter().any(|n| condition(n).is_some());
    }
    if let Some(p) = s.ports.iter().find(|p| p.fd == fd) {
        return !p.sent.is_empty() || p.assoc.iter().any(|a| port_state(a) != 0);
    }
    false
}
/// Something came in for this descriptor from the other side.
pub fn activity(fd: i32) {
    for k in &mut sim().kqs {
        for n in &mut k.notes {
            if n.k.ident == fd as usize && matches!(n.k.filter, EVFILT_READ | EVFILT_WRITE) && state(n).is_some() {
                n.pending = true;
            }
        }
    }
}
/// A signal arrives at the process.
pub fn signal(sig: usize) {
    for k in &mut sim().kqs {
        for n in &mut k.notes {
            if n.k.filter == EVFILT_SIGNAL && n.k.ident == sig {
                n.n += 1;
            }
        }
    }
}
pub fn process_start(pid: usize) {
    sim().procs.push(pid);
}
/// A process does something (NOTE_EXIT, NOTE_FORK, NOTE_EXEC).
pub fn process(pid: usize, what: u32) {
    const NOTE_EXIT: u32 = 0x8000_0000;
    if what == NOTE_EXIT {
        sim().procs.retain(|&p| p != pid);
    }
    for k in &mut sim().kqs {
        for n in &mut k.notes {
            if n.k.filter == EVFILT_PROC && n.k.ident == pid && n.k.fflags & what != 0 {
                n.n |= what;
            }
        }
    }
}

fn state(n: &Note) -> Option<(u16, i64)> {
    let fd = n.k.ident as i32;
    match n.k.filter {
        EVFILT_READ => {
            let m = truth(fd, POLLIN | POLLRDHUP);
            let eof = m & (POLLHUP | POLLERR | POLLRDHUP) != 0;
            (eof || m & POLLIN != 0).then_some((if eof { EV_EOF } else { 0 }, 1))
        }
        EVFILT_WRITE => {
            let m = truth(fd, POLLOUT);
            let eof = m & (POLLHUP | POLLERR) != 0;
            (eof || m & POLLOUT != 0).then_some((if eof { EV_EOF } else { 0 }, 1))
        }
        EVFILT_USER => n.pending.then_some((0, 0)),
        EVFILT_SIGNAL => (n.n > 0).then_some((0, n.n as i64)),
        EVFILT_PROC => (n.n > 0).then_some((if n.n >> 31 == 1 { EV_EOF | EV_ONESHOT } else { 0 }, 0)),
        EVFILT_TIMER => (truth(n.timer, POLLIN) & POLLIN != 0).then_some((0, 1)),
        _ => None,
    }
}
/// What the next scan reports for it.
fn condition(n: &Note) -> Option<(u16, i64)> {
    if n.off {
        return None;
    }
    let clear = n.k.flags & EV_CLEAR != 0 && matches!(n.k.filter, EVFILT_READ | EVFILT_WRITE);
    if clear && !n.pending {
        return None;
    }
    state(n)
}
fn hidden_timer() -> i32 {
    let fd = raw_eventfd(0, 0o4000);
    let h = raw_fcntl(fd, 0, 3000) as i32;
    assert!(h >= 3000);
    raw_close(fd);
    mc::timer_create(h);
    h
}
fn set_timer(n: &Note) {
    let mul: u128 = match n.k.fflags {
        NOTE_SECONDS => 1_000_000_000,
        NOTE_USECONDS => 1000,
        NOTE_NSECONDS => 1,
        _ => 1_000_000,
    };
    let every = (n.k.data.max(1) as u128).saturating_mul(mul);
    let rep = if n.k.flags & EV_ONESHOT != 0 { 0 } else { every };
    mc::timer_set(n.timer, Some(mc::now().saturating_add(every)), rep);
}
fn is_fifo(fd: i32) -> bool {
    let mut st = [0u64; 18];
    raw(5, fd as usize, st.as_mut_ptr() as usize, 0, 0, 0, 0);
    (st[3] as u32 & 0o170000) == 0o010000
}
impl Kq {
    fn change(&mut self, c: &Kev) -> Result<(), i32> {
        let fdf = matches!(c.filter, EVFILT_READ | EVFILT_WRITE);
        // Removal needs no memory.
        if c.flags & EV_DELETE == 0 {
            if let Some(e) = mc::fault_for(Sys::KqChange, if fdf { c.ident as i32 } else { -1 }) {
                return Err(e);
            }
        }
        if fdf && raw_fcntl(c.ident as i32, 1, 0) < 0 {
            return Err(EBADF);
        }
        let at = self.notes.iter().position(|n| n.k.ident == c.ident && n.k.filter == c.filter);
        let at = match at {
            None if c.flags & EV_ADD != 0 => {
                if c.filter == EVFILT_WRITE && is_fifo(c.ident as i32) && truth(c.ident as i32, 0) & POLLERR != 0 {
                    return Err(EPIPE);
                }
                if c.filter == EVFILT_PROC && !sim().procs.contains(&c.ident) {
                    return Err(ESRCH);
                }
                let mut k = *c;
                k.flags &= EV_ONESHOT | EV_CLEAR;
                k.fflags &= !NOTE_TRIGGER;
                let timer = if c.filter == EVFILT_TIMER { hidden_timer() } else { -1 };
                self.notes.push(Note { k, off: false, pending: false, n: 0, timer });
                self.notes.len() - 1
            }
            None => return Err(ENOENT),
            Some(i) => i,
        };
        if c.flags & EV_DELETE != 0 {
            let n = self.notes.remove(at);
            if n.timer >= 0 {
                mc::timer_close(n.timer);
                raw_close(n.timer);
            }
            return Ok(());
        }
        let n = &mut self.notes[at];
        n.k.udata = c.udata;
        if c.flags & EV_ENABLE != 0 {
            n.off = false;
        }
        if c.flags & EV_DISABLE != 0 {
            n.off = true;
        }
        match c.filter {
            EVFILT_USER => n.pending |= c.fflags & NOTE_TRIGGER != 0,
            EVFILT_TIMER => {
                n.k.data = c.data;
                n.k.fflags = c.fflags;
                set_timer(n);
            }
            EVFILT_READ | EVFILT_WRITE => n.pending |= state(n).is_some(),
            _ => n.k.fflags = c.fflags,
        }
        Ok(())
    }
    /// Report in the order of the queue; what stays goes to its end.
    fn scan(&mut self, max: usize) -> Vec<Kev> {
        let mut out = vec![];
        let mut i = 0;
        let mut left = self.notes.len();
        while left > 0 && out.len() < max {
            left -= 1;
            let (flags, data) = match condition(&self.notes[i]) {
                Some(x) => x,
                None => {
                    i += 1;
                    continue;
                }
            };
            let mut n = self.notes.remove(i);
            let mut e = n.k;
            e.data = data;
            e.flags = n.k.flags | flags;
            if n.k.filter == EVFILT_PROC {
                e.fflags = n.n;
            }
            out.push(e);
            if e.flags & EV_ONESHOT != 0 {
                if n.timer >= 0 {
                    mc::timer_close(n.timer);
                    raw_close(n.timer);
                }
                continue;
            }
            match n.k.filter {
                EVFILT_USER if n.k.flags & EV_CLEAR == 0 => {}
                EVFILT_TIMER => drain_eventfd(n.timer),
                _ => {
                    n.pending = false;
                    n.n = 0;
                }
            }
            self.notes.push(n);
        }
        out
    }
}

#[no_mangle]
pub unsafe extern "C" fn kqueue() -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::Kqueue, -1) {
        return err(e);
    }
    let fd = raw_eventfd(0, 0);
    if fd < 0 {
        return ret(fd as isize);
    }
    sim().kqs.push(Kq { fd, notes: vec![] });
    fd
}
#[no_mangle]
pub unsafe extern "C" fn kevent(
    kq: i32,
    changes: *const Kev,
    nchanges: i32,
    out: *mut Kev,
    nout: i32,
    ts: *const timespec,
) -> i32 {
    let _o = crate::heap::outside();
    let s = if nchanges > 0 { Sys::KqChanges } else { Sys::KqWait };
    if let Err(e) = enter(s, kq) {
        return err(e);
    }
    if !sim().kqs.iter().any(|k| k.fd == kq) {
        return err(EBADF);
    }
    if !ts.is_null() && ((*ts).sec < 0 || (*ts).nsec < 0 || (*ts).nsec > 999_999_999) {
        return err(EINVAL);
    }
    let k = || sim().kqs.iter_mut().find(|k| k.fd == kq);
    let mut n = 0usize;
    for i in 0..nchanges as usize {
        let c = *changes.add(i);
        // Each change is made by itself; others may come between.
        if i > 0 && !mc::point_sys(Op::kernel()) {
            return err(EBADF);
        }
        let r = k().unwrap().change(&c);
        if r.is_err() || c.flags & EV_RECEIPT != 0 {
            let e = r.err().unwrap_or(0);
            if n < nout as usize {
                *out.add(n) = Kev { flags: EV_ERROR, data: e as i64, ..c };
                n += 1;
            } else if e != 0 {
                return err(e);
            }
        }
    }
    if n > 0 || nout == 0 {
        return n as i32;
    }
    let (deadline, zero) = ts_deadline(ts);
    loop {
        let evs = match k() {
            Some(k) => k.scan(nout as usize),
            None => return err(EBADF),
        };
        if !evs.is_empty() {
            for (i, e) in evs.iter().enumerate() {
                *out.add(i) = *e;
            }
            return evs.len() as i32;
        }
        if zero {
            return 0;
        }
        if mc::take_eintr() {
            return err(EINTR);
        }
        if deadline.map_or(false, |d| mc::now() >= d) {
            return 0;
        }
        if !mc::block_sys(Block::Kernel(vec![PollReq { fd: kq, events: 0 }], deadline, true)) {
            return err(EBADF);
        }
    }
}

// ------------------------------------------------------------------ event ports
fn port_state(a: &Assoc) -> i16 {
    truth(a.fd, a.events) & (a.events | POLLERR | POLLHUP)
}
#[no_mangle]
pub unsafe extern "C" fn port_create() -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::Kqueue, -1) {
        return err(e);
    }
    let fd = raw_eventfd(0, 0);
    if fd >= 0 {
        sim().ports.push(Port { fd, assoc: vec![], sent: vec![] });
    }
    ret(fd as isize)
}
fn port(fd: i32) -> Option<&'static mut Port> {
    sim().ports.iter_mut().find(|p| p.fd == fd)
}
const PORT_SOURCE_FD: i32 = 4;
const PORT_SOURCE_USER: u16 = 3;
#[no_mangle]
pub unsafe extern "C" fn port_associate(p: i32, source: i32, object: usize, events: i32, user: usize) -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::KqChanges, object as i32) {
        return err(e);
    }
    let p = match port(p) {
        Some(p) => p,
        None => return err(EBADF),
    };
    if source != PORT_SOURCE_FD {
        return err(EINVAL);
    }
    if raw_fcntl(object as i32, 1, 0) < 0 {
        return err(EBADF);
    }
    let a = Assoc { fd: object as i32, events: events as i16, user };
    match p.assoc.iter_mut().find(|a| a.fd == object as i32) {
        Some(x) => *x = a,
        None => p.assoc.push(a),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn port_dissociate(p: i32, source: i32, object: usize) -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::KqChanges, object as i32) {
        return err(e);
    }
    let p = match port(p) {
        Some(p) => p,
        None => return err(EBADF),
    };
    if source != PORT_SOURCE_FD {
        return err(EINVAL);
    }
    match p.assoc.iter().position(|a| a.fd == object as i32) {
        Some(i) => {
            p.assoc.remove(i);
            0
        }
        None => err(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn port_send(p: i32, events: i32, user: usize) -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::KqPost, -1) {
        return err(e);
    }
    match port(p) {
        Some(p) => {
            p.sent.push((events, user));
            0
        }
        None => err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn port_getn(p: i32, list: *mut PortEvent, max: u32, nget: *mut u32, ts: *const timespec) -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::KqWait, p) {
        return err(e);
    }
    if !ts.is_null() && ((*ts).sec < 0 || (*ts).nsec < 0 || (*ts).nsec > 999_999_999) {
        return err(EINVAL);
    }
    let want = *nget as usize;
    if want > max as usize {
        return err(EINVAL);
    }
    let (deadline, zero) = ts_deadline(ts);
    loop {
        let pt = match port(p) {
            Some(p) => p,
            None => return err(EBADF),
        };
        let avail = pt.sent.len() + pt.assoc.iter().filter(|a| port_state(a) != 0).count();
        let now_due = zero || deadline.map_or(false, |d| mc::now() >= d);
        if avail >= want.max(1) || now_due && avail > 0 {
            let mut n = 0;
            while n < max as usize && !pt.sent.is_empty() {
                let (e, u) = pt.sent.remove(0);
                *list.add(n) = PortEvent { events: e, source: PORT_SOURCE_USER, pad: 0, object: 0, user: u };
                n += 1;
            }
            let mut i = 0;
            while n < max as usize && i < pt.assoc.len() {
                let st = port_state(&pt.assoc[i]);
                if st == 0 {
                    i += 1;
                    continue;
                }
                let a = pt.assoc.remove(i);
                *list.add(n) = PortEvent { events: st as i32, source: 4, pad: 0, object: a.fd as usize, user: a.user };
                n += 1;
            }
            *nget = n as u32;
            return 0;
        }
        if now_due {
            *nget = 0;
            return err(ETIME);
        }
        if mc::take_eintr() {
            *nget = 0;
            return err(EINTR);
        }
        if !mc::block_sys(Block::Kernel(vec![PollReq { fd: p, events: 0 }], deadline, true)) {
            return err(EBADF);
        }
    }
}
