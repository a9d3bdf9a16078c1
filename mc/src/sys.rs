//! Sources (real descriptors), the truth about them, and the system variants.
use mcstd::mc;
use mcstd::sysc::{self, Sys};
pub use mcstd::sysc::{POLLERR, POLLHUP, POLLIN, POLLOUT, POLLPRI, POLLRDHUP};
use polling::{Event, PollMode, Poller};
#[cfg(not(mcbk = "windows"))]
use std::os::fd::BorrowedFd;

pub const POLL_BACKEND: bool = cfg!(any(polling_test_poll_backend, mcbk = "espidf", mcbk = "hermit", mcbk = "vita", mcbk = "haiku"));
/// poll() with an eventfd to wake it: one that never blocks and reads as zero, and one that may block.
pub const ESPIDF: bool = cfg!(mcbk = "espidf");
pub const HERMIT: bool = cfg!(mcbk = "hermit");
/// poll() with a pipe whose data may be seen late, and with a pipe made without pipe2.
pub const VITA: bool = cfg!(mcbk = "vita");
pub const HAIKU: bool = cfg!(mcbk = "haiku");
/// epoll without eventfd and timerfd.
pub const REDOX: bool = cfg!(mcbk = "redox");
pub const EPOLL_PIPE: bool = cfg!(any(polling_test_epoll_pipe, mcbk = "redox"));
/// The simulated systems (mcstd's kq.rs): kqueue with EVFILT_USER, kqueue without, event ports.
pub const FREEBSD: bool = cfg!(mcbk = "freebsd");
pub const NETBSD: bool = cfg!(mcbk = "netbsd");
pub const PORTS: bool = cfg!(mcbk = "illumos");
pub const KQ: bool = FREEBSD || NETBSD;
/// Completion ports (mcstd's win.rs).
pub const WIN: bool = cfg!(mcbk = "windows");
pub const SIM: bool = KQ || PORTS || WIN;

pub const ENOSYS: i32 = 38;
pub const EAGAIN: i32 = 11;
pub const EINTR: i32 = 4;
pub const ENOSPC: i32 = 28;
pub const ENOMEM: i32 = 12;
pub const EMFILE: i32 = 24;
pub const EPERM: i32 = 1;
pub const EINVAL: i32 = 22;

/// What the kernel lacks: each variant drives the code through other paths.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Variant {
    Plain,
    /// eventfd() is not there: notifications go through a pipe.
    NoEventfd,
    /// timerfd_create() is not there: timeouts are whole milliseconds.
    NoTimerfd,
    NoEventfdTimerfd,
    /// pipe2() is not there either.
    NoPipe2,
    /// None of eventfd, timerfd, pipe2.
    Bare,
}
use Variant::*;
impl Variant {
    pub fn all() -> Vec<Variant> {
        if SIM || ESPIDF || HERMIT || VITA || HAIKU {
            vec![Plain]
        } else if POLL_BACKEND {
            vec![Plain, NoPipe2]
        } else if REDOX {
            vec![Plain, NoPipe2]
        } else if EPOLL_PIPE {
            vec![Plain, NoTimerfd, NoPipe2]
        } else {
            vec![Plain, NoEventfd, NoTimerfd, NoEventfdTimerfd, Bare]
        }
    }
    /// The ones worth running every harness on.
    pub fn main() -> Vec<Variant> {
        if POLL_BACKEND || EPOLL_PIPE || SIM {
            vec![Plain]
        } else {
            vec![Plain, NoEventfdTimerfd]
        }
    }
    pub fn lacks_timerfd(self) -> bool {
        REDOX || self.denies(Sys::TimerCreate)
    }
    pub fn denies(self, s: Sys) -> bool {
        match self {
            Plain => false,
            NoEventfd => s == Sys::Eventfd,
            NoTimerfd => s == Sys::TimerCreate,
            NoEventfdTimerfd => matches!(s, Sys::Eventfd | Sys::TimerCreate),
            NoPipe2 => s == Sys::Pipe2,
            Bare => matches!(s, Sys::Eventfd | Sys::TimerCreate | Sys::Pipe2),
        }
    }
}
pub fn cfg_name() -> &'static str {
    if FREEBSD {
        "freebsd"
    } else if NETBSD {
        "netbsd"
    } else if PORTS {
        "illumos"
    } else if WIN {
        "windows"
    } else if ESPIDF {
        "espidf"
    } else if HERMIT {
        "hermit"
    } else if VITA {
        "vita"
    } else if HAIKU {
        "haiku"
    } else if REDOX {
        "redox"
    } else if POLL_BACKEND {
        "poll"
    } else if EPOLL_PIPE {
        "epoll-pipe"
    } else {
        "epoll"
    }
}
pub fn new_poller(v: Variant) -> Poller {
    mc::set_fault(Some(Box::new(move |s, _| if v.denies(s) { Some(ENOSYS) } else { None })));
    let r = Poller::new();
    mc::set_fault(None);
    match r {
        Ok(p) => p,
        Err(e) => mc::fail(format!("Poller::new failed under {v:?}: {e}")),
    }
}
/// Where the poller goes through a hash table of sources: forwards or backwards.
pub fn order_of_tables(sources: usize) {
    if POLL_BACKEND && sources > 1 {
        mc::set_hash_order(mc::choose(2) as u64);
    }
}
/// One more than the highest descriptor number this process may use.
pub fn fd_limit() -> i32 {
    let mut r = [0u64; 2];
    sysc::raw(97, 7, r.as_mut_ptr() as usize, 0, 0, 0, 0);
    r[0].clamp(64, 1 << 20) as i32
}
#[cfg(not(mcbk = "windows"))]
pub fn bfd(fd: i32) -> BorrowedFd<'static> {
    unsafe { BorrowedFd::borrow_raw(fd) }
}
/// What add() takes.
#[cfg(not(mcbk = "windows"))]
pub fn rfd(fd: i32) -> i32 {
    fd
}
#[cfg(mcbk = "windows")]
pub use mcstd::os::windows::io::BorrowedSocket;
#[cfg(mcbk = "windows")]
pub fn bfd(fd: i32) -> BorrowedSocket<'static> {
    unsafe { BorrowedSocket::borrow_raw(fd as u64) }
}
#[cfg(mcbk = "windows")]
pub fn rfd(fd: i32) -> u64 {
    fd as u64
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// The read end of a pipe.
    PipeR,
    /// The write end of a pipe.
    PipeW,
    /// One end of a stream socket pair.
    Sock,
    Evt,
    /// One end of a TCP connection over loopback (urgent data).
    Tcp,
    /// One end of a datagram socket pair.
    Dgram,
    /// A listening socket.
    Listen,
    /// A TCP socket that is not connected yet.
    Conn,
    /// A regular file: epoll does not take these, for poll they are always ready.
    File,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    /// Make it readable (one unit of data from the other side).
    Feed,
    /// Read everything.
    Drain,
    /// Write until it would block.
    Fill,
    /// The other side reads everything.
    Unfill,
    /// The other side closes.
    Hangup,
    /// The other side shuts down its sending half.
    Shut,
    /// Urgent data.
    Urgent,
    /// Consume the urgent data.
    TakeUrgent,
    /// The other side resets the connection: an error and a hang-up.
    Reset,
    /// Read one unit: a byte, a datagram, a connection.
    Take,
    /// Connect it to somebody who listens.
    Connect,
    /// Connect it to somebody who does not.
    Refuse,
    /// Ask for the error it has.
    AskError,
}
impl Act {
    /// What the owner of the source does: nothing arrives.
    pub fn is_own(self) -> bool {
        matches!(self, Act::Drain | Act::Fill | Act::TakeUrgent | Act::Take | Act::AskError)
    }
}
#[derive(Clone, Debug)]
pub struct Source {
    pub kind: Kind,
    pub fd: i32,
    pub peer: i32,
    /// Sources with equal `file` share an open file description.
    pub file: usize,
}
pub const NB: i32 = 0o4000;
pub const CLOEXEC: i32 = 0o2000000;

fn sock(domain: i32, ty: i32) -> i32 {
    let r = sysc::raw(41, domain as usize, ty as usize, 0, 0, 0, 0);
    assert!(r >= 0, "socket: {r}");
    r as i32
}
/// A TCP socket bound to a port of the loopback interface.
fn bound() -> i32 {
    // sockaddr_in 127.0.0.1:0
    let mut a = [0u8; 16];
    a[0] = 2;
    a[4..8].copy_from_slice(&[127, 0, 0, 1]);
    let l = sock(2, 1 | CLOEXEC);
    let r = sysc::raw(49, l as usize, a.as_ptr() as usize, 16, 0, 0, 0);
    assert!(r == 0, "bind: {r}");
    l
}
fn listen(l: i32, n: usize) {
    let r = sysc::raw(50, l as usize, n, 0, 0, 0, 0);
    assert!(r == 0, "listen: {r}");
}
/// The address a socket is bound to, and its length.
fn address(l: i32) -> ([u8; 112], usize) {
    let mut a = [0u8; 112];
    let mut len = 112u32;
    sysc::raw(51, l as usize, a.as_mut_ptr() as usize, &mut len as *mut _ as usize, 0, 0, 0);
    (a, len as usize)
}
fn connect(c: i32, to: i32) -> isize {
    let (a, n) = address(to);
    sysc::raw(42, c as usize, a.as_ptr() as usize, n, 0, 0, 0)
}
fn tcp_pair() -> (i32, i32) {
    let l = bound();
    listen(l, 1);
    let c = sock(2, 1);
    let r = connect(c, l);
    assert!(r == 0, "connect: {r}");
    let s = sysc::raw(288, l as usize, 0, 0, 0, 0, 0);
    assert!(s >= 0, "accept: {s}");
    sysc::raw_close(l);
    for fd in [c, s as i32] {
        sysc::raw_fcntl(fd, 4, NB as usize);
        // SO_LINGER 0: close resets the connection and leaves nothing behind.
        let l = [1i32, 0];
        sysc::raw(54, fd as usize, 1, 13, l.as_ptr() as usize, 8, 0);
    }
    (c, s as i32)
}
impl Source {
    pub fn new(kind: Kind) -> Source {
        let (fd, peer) = match kind {
            Kind::PipeR | Kind::PipeW => {
                let (r, w) = sysc::raw_pipe(NB | CLOEXEC);
                sysc::raw_fcntl(w, 1031, 4096);
                if kind == Kind::PipeR {
                    (r, w)
                } else {
                    (w, r)
                }
            }
            Kind::Sock => {
                let mut p = [0i32; 2];
                let r = sysc::raw(53, 1, (1 | NB | CLOEXEC) as usize, 0, p.as_mut_ptr() as usize, 0, 0);
                assert!(r == 0, "socketpair: {r}");
                for fd in p {
                    let v = 1i32;
                    // SO_SNDBUF as small as possible
                    sysc::raw(54, fd as usize, 1, 7, &v as *const _ as usize, 4, 0);
                }
                (p[0], p[1])
            }
            Kind::Evt => (sysc::raw_eventfd(0, NB | CLOEXEC), -1),
            Kind::Tcp => tcp_pair(),
            Kind::Dgram => {
                let mut p = [0i32; 2];
                let r = sysc::raw(53, 1, (2 | NB | CLOEXEC) as usize, 0, p.as_mut_ptr() as usize, 0, 0);
                assert!(r == 0, "socketpair: {r}");
                (p[0], p[1])
            }
            Kind::Listen => {
                let l = sock(1, 1 | NB | CLOEXEC);
                let a = [1u8, 0];
                let r = sysc::raw(49, l as usize, a.as_ptr() as usize, 2, 0, 0, 0);
                assert!(r == 0, "bind: {r}");
                listen(l, 4);
                (l, -1)
            }
            Kind::Conn => {
                let c = sock(2, 1 | NB | CLOEXEC);
                let l = [1i32, 0];
                sysc::raw(54, c as usize, 1, 13, l.as_ptr() as usize, 8, 0);
                (c, -1)
            }
            Kind::File => {
                let r = sysc::raw(319, c"file".as_ptr() as usize, 1, 0, 0, 0, 0);
                assert!(r >= 0, "memfd_create: {r}");
                (r as i32, -1)
            }
        };
        Source { kind, fd, peer, file: fd as usize }
    }
    pub fn mask(&self) -> i16 {
        sysc::truth(self.fd, POLLIN | POLLPRI | POLLOUT | POLLRDHUP)
    }
    fn write_all_ways(fd: i32) {
        let b = [7u8; 1024];
        while sysc::raw_write(fd, &b) > 0 {}
        while sysc::raw_write(fd, &b[..1]) > 0 {}
    }
    fn read_all(fd: i32) {
        // The source may be a blocking one.
        let mut b = [0u8; 8192];
        while sysc::truth(fd, POLLIN) & POLLIN != 0 && sysc::raw_read(fd, &mut b) > 0 {}
    }
    /// Change the world. False: this kind cannot do it (or it is already so).
    pub fn act(&mut self, a: Act) -> bool {
        let did = self.act_quietly(a);
        if did && (self.kind == Kind::Evt || !a.is_own()) {
            mcstd::kq::activity(self.fd);
        }
        if WIN {
            mcstd::win::sweep();
        }
        did
    }
    fn act_quietly(&mut self, a: Act) -> bool {
        let before = self.mask();
        match (self.kind, a) {
            (Kind::PipeR | Kind::Sock | Kind::Tcp | Kind::Dgram, Act::Feed) if self.peer >= 0 => {
                if sysc::raw_write(self.peer, &[1]) != 1 {
                    return false;
                }
                self.settle(POLLIN);
                true
            }
            (Kind::Evt, Act::Feed) => sysc::raw_write(self.fd, &1u64.to_ne_bytes()) == 8,
            (Kind::PipeR | Kind::Sock | Kind::Evt | Kind::Tcp | Kind::Dgram, Act::Drain) => {
                if before & POLLIN == 0 {
                    return false;
                }
                Self::read_all(self.fd);
                true
            }
            (Kind::PipeR | Kind::Sock | Kind::Tcp | Kind::Dgram, Act::Take) => {
                before & POLLIN != 0 && sysc::raw_read(self.fd, &mut [0]) > 0
            }
            (Kind::Listen, Act::Feed) => {
                let c = sock(1, 1 | NB | CLOEXEC);
                let r = connect(c, self.fd);
                sysc::raw_close(c);
                r == 0
            }
            (Kind::Listen, Act::Drain | Act::Take) => {
                if before & POLLIN == 0 {
                    return false;
                }
                loop {
                    sysc::raw_close(sysc::raw(288, self.fd as usize, 0, 0, 0, 0, 0) as i32);
                    if a == Act::Take || self.mask() & POLLIN == 0 {
                        break;
                    }
                }
                true
            }
            (Kind::Conn, Act::Connect | Act::Refuse) if self.peer == -1 => {
                let l = bound();
                if a == Act::Connect {
                    listen(l, 1);
                }
                let r = connect(self.fd, l);
                if !matches!(r, 0 | -115 | -111) {
                    mc::fail(format!("connect: {r}"));
                }
                let t0 = sysc::real_now();
                loop {
                    let m = self.mask();
                    if m & (POLLOUT | POLLHUP) == POLLOUT && a == Act::Connect || m & POLLERR != 0 || r == -111 {
                        break;
                    }
                    if sysc::real_now() - t0 > 5.0 {
                        mc::fail(format!("{a:?}: still {m:#x}"));
                    }
                }
                if a == Act::Connect {
                    self.peer = l;
                } else {
                    sysc::raw_close(l);
                    self.peer = -2;
                }
                true
            }
            (Kind::Conn, Act::AskError) => {
                let mut e = [0i32];
                let mut len = 4u32;
                sysc::raw(55, self.fd as usize, 1, 4, e.as_mut_ptr() as usize, &mut len as *mut _ as usize, 0);
                e[0] != 0
            }
            (Kind::PipeW | Kind::Sock | Kind::Dgram, Act::Fill) if self.peer >= 0 => {
                if before & POLLOUT == 0 {
                    return false;
                }
                Self::write_all_ways(self.fd);
                true
            }
            (Kind::Evt, Act::Fill) => {
                if before & POLLOUT == 0 {
                    return false;
                }
                Self::read_all(self.fd);
                sysc::raw_write(self.fd, &(u64::MAX - 1).to_ne_bytes());
                true
            }
            (Kind::PipeW | Kind::Sock | Kind::Dgram, Act::Unfill) if self.peer >= 0 => {
                if before & POLLOUT != 0 {
                    return false;
                }
                Self::read_all(self.peer);
                true
            }
            (Kind::PipeR | Kind::PipeW | Kind::Sock, Act::Hangup) if self.peer >= 0 => {
                sysc::raw_close(self.peer);
                self.peer = -1;
                true
            }
            (Kind::Sock | Kind::Tcp, Act::Shut) if self.peer >= 0 => {
                if before & POLLRDHUP != 0 {
                    return false;
                }
                sysc::raw(48, self.peer as usize, 1, 0, 0, 0, 0);
                self.settle(POLLRDHUP);
                true
            }
            (Kind::Tcp, Act::Reset) if self.peer >= 0 => {
                sysc::raw_close(self.peer);
                self.peer = -1;
                self.settle(POLLHUP);
                true
            }
            (Kind::Tcp, Act::Urgent) if self.peer >= 0 => {
                if before & POLLPRI != 0 {
                    return false;
                }
                let b = [9u8];
                if sysc::raw(44, self.peer as usize, b.as_ptr() as usize, 1, 1, 0, 0) != 1 {
                    return false;
                }
                self.settle(POLLPRI);
                true
            }
            (Kind::Tcp, Act::TakeUrgent) => {
                if before & POLLPRI == 0 {
                    return false;
                }
                let mut b = [0u8];
                sysc::raw(45, self.fd as usize, b.as_mut_ptr() as usize, 1, 1, 0, 0);
                Self::read_all(self.fd);
                true
            }
            _ => false,
        }
    }
    /// Loopback TCP may deliver a moment later.
    fn settle(&self, bit: i16) {
        let t0 = sysc::real_now();
        while self.mask() & bit == 0 && sysc::real_now() - t0 < 5.0 {
            std::hint::spin_loop();
        }
    }
    /// An ordinary descriptor: blocking and inherited by children.
    pub fn plain(&mut self) {
        sysc::raw_fcntl(self.fd, 2, 0);
        let fl = sysc::raw_fcntl(self.fd, 3, 0) as usize;
        sysc::raw_fcntl(self.fd, 4, fl & !(NB as usize));
    }
    pub fn close(&self) {
        mcstd::kq::forget(self.fd);
        if self.fd <= 2 {
            // Standard descriptors stay occupied.
            sysc::raw(33, 2, self.fd as usize, 0, 0, 0, 0);
        } else {
            sysc::raw_close(self.fd);
        }
        if self.peer >= 0 {
            sysc::raw_close(self.peer);
        }
    }
    pub fn flags(&self) -> (isize, isize) {
        (sysc::raw_fcntl(self.fd, 1, 0), sysc::raw_fcntl(self.fd, 3, 0))
    }
    /// A second descriptor for the same open file.
    pub fn dup(&self) -> Source {
        let fd = sysc::raw_fcntl(self.fd, 1030, 0) as i32;
        assert!(fd >= 0);
        Source { kind: self.kind, fd, peer: self.peer, file: self.file }
    }
    /// The same file under a chosen descriptor number.
    pub fn move_to(&mut self, fd: i32) {
        let r = sysc::raw(33, self.fd as usize, fd as usize, 0, 0, 0, 0);
        assert!(r == fd as isize, "dup2 to {fd}: {r}");
        sysc::raw_close(self.fd);
        self.fd = fd;
    }
}

/// The new events of a wait that said there are n, in a container that had some before: the
/// crate's documentation has them appended, but replacing the old ones is fine, too.
pub fn new_events(old: &[Event], now: Vec<Event>, n: usize) -> Vec<Event> {
    if n == now.len() {
        now
    } else if now.len() == old.len() + n && now.starts_with(old) {
        now[old.len()..].to_vec()
    } else {
        mc::fail(format!("wait returned {n}; the container had {old:?} and has {now:?}"))
    }
}

/// A poller that watches another one's descriptor.
#[cfg(not(any(polling_test_poll_backend, mcbk = "espidf", mcbk = "hermit", mcbk = "vita", mcbk = "haiku", mcbk = "windows")))]
pub fn watched(v: Variant, inner: &Poller, key: usize, mode: PollMode) -> Poller {
    use std::os::fd::{AsFd, AsRawFd};
    let o = new_poller(v);
    if let Err(e) = unsafe { o.add_with_mode(inner, Event::readable(key), mode) } {
        mc::fail(format!("a poller cannot be added to another one: {e}"));
    }
    if inner.as_raw_fd() != inner.as_fd().as_raw_fd() {
        mc::fail("a poller has two descriptors");
    }
    o
}
#[cfg(not(any(polling_test_poll_backend, mcbk = "espidf", mcbk = "hermit", mcbk = "vita", mcbk = "haiku", mcbk = "windows")))]
pub fn watch_on(o: &Poller, inner: &Poller, key: usize) {
    if let Err(e) = o.modify(inner, Event::readable(key)) {
        mc::fail(format!("the outer poller cannot watch on: {e}"));
    }
}
#[cfg(any(polling_test_poll_backend, mcbk = "espidf", mcbk = "hermit", mcbk = "vita", mcbk = "haiku", mcbk = "windows"))]
pub fn watch_on(_: &Poller, _: &Poller, _: usize) {
    unreachable!()
}
#[cfg(any(polling_test_poll_backend, mcbk = "espidf", mcbk = "hermit", mcbk = "vita", mcbk = "haiku", mcbk = "windows"))]
pub fn watched(_: Variant, _: &Poller, _: usize, _: PollMode) -> Poller {
    unreachable!()
}
