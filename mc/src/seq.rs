//! Operation sequences: one thread, every sequence over an alphabet up to a depth, on the real
//! crate, against a reference model of registrations and the kernel's own word about the sources.
use crate::sys::*;
use mcstd::mc;
use mcstd::sysc::Sys;
use polling::{Event, Events, PollMode, Poller};
use std::io::ErrorKind;
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Int {
    pub r: bool,
    pub w: bool,
    pub pri: bool,
    pub hup: bool,
}
pub const R: Int = Int { r: true, w: false, pri: false, hup: false };
pub const W: Int = Int { r: false, w: true, pri: false, hup: false };
pub const RW: Int = Int { r: true, w: true, pri: false, hup: false };
pub const NO: Int = Int { r: false, w: false, pri: false, hup: false };
pub const PRI: Int = Int { r: false, w: false, pri: true, hup: false };
pub const HUP: Int = Int { r: false, w: false, pri: false, hup: true };
pub const WPRI: Int = Int { r: false, w: true, pri: true, hup: false };
pub const RHUP: Int = Int { r: true, w: false, pri: false, hup: true };
impl Int {
    pub fn event(self, key: usize) -> Event {
        let mut e = Event::new(key, self.r, self.w);
        if self.pri {
            e.set_priority(true);
        }
        if self.hup {
            e.set_interrupt(true);
        }
        e
    }
    /// Which of the two directions must be reported for a source in this state.
    pub fn must(self, m: i16) -> (bool, bool) {
        if KQ {
            return self.filters(m);
        }
        let r = self.r && m & (POLLIN | POLLPRI | POLLHUP | POLLERR) != 0
            || self.pri && m & POLLPRI != 0
            || self.hup && m & POLLHUP != 0;
        let w = self.w && m & (POLLOUT | POLLHUP | POLLERR) != 0 || self.hup && m & POLLHUP != 0;
        (r, w)
    }
    /// kqueue: which of the two filters has something to report.
    fn filters(self, m: i16) -> (bool, bool) {
        let r = self.r && m & (POLLIN | POLLRDHUP | POLLHUP | POLLERR) != 0;
        let w = self.w && m & (POLLOUT | POLLHUP | POLLERR) != 0;
        (r, w)
    }
    /// What of it this system looks at.
    fn known(self) -> Int {
        if SIM {
            Int { pri: false, hup: false, ..self }
        } else {
            self
        }
    }
    /// Which may. Errors and hang-ups are reported whatever the interest.
    pub fn may(self, m: i16) -> (bool, bool) {
        if KQ {
            return self.filters(m);
        }
        let bad = m & (POLLHUP | POLLERR) != 0;
        let r = self.r && m & (POLLIN | POLLPRI) != 0 || self.pri && m & POLLPRI != 0 || bad;
        let w = self.w && m & POLLOUT != 0 || bad;
        (r, w)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Zero,
    Ns(u64),
    /// The longest there is. If nothing is due to end it, a notification comes after `LONG`.
    Max,
    /// Without a timeout, likewise.
    Inf,
}
/// How long nothing happens (ns).
const LONG: u64 = 500 * 365 * 86_400 * 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// poller, source, key, interest, mode
    Add(usize, usize, usize, Int, PollMode),
    /// add() or modify() without naming a mode: oneshot
    AddD(usize, usize, usize, Int),
    ModD(usize, usize, usize, Int),
    Mod(usize, usize, usize, Int, PollMode),
    Del(usize, usize),
    Act(usize, Act),
    Wait(usize, T),
    Notify(usize),
    /// Close the (deregistered) source and open a new one of that kind under the same number.
    Reopen(usize),
    /// Add by a reference to an object instead of a raw descriptor.
    AddRef(usize, usize, usize, Int),
    /// The poller is dropped and a new one made.
    Renew(usize),
    /// add_with_mode() while the kernel refuses with this errno (epoll only).
    AddErr(usize, usize, usize, Int, PollMode, i32),
    ModErr(usize, usize, usize, Int, PollMode, i32),
    DelErr(usize, usize, i32),
    /// wait(0) while the kernel refuses with this errno.
    WaitErr(usize, i32),
    /// While the kernel cannot take a notification.
    NotifyErr(usize, i32),
    /// Another poller watches this one's descriptor: what does it say? (epoll only)
    Outer(usize),
    /// These steps, this many times over.
    Rep(&'static [Op], usize),
    /// For all the sources, every `1`th of them from `0` on; source `i` gets the key `1000 + i`.
    All(Each, usize, usize),
    /// Look at every source: wait without blocking, as often as the container needs.
    Sweep(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Each {
    Add(Int, PollMode),
    Mod(Int, PollMode),
    Del,
    Act(Act),
}

#[derive(Clone, Debug)]
struct Reg {
    key: usize,
    int: Int,
    mode: PollMode,
    /// By direction. Everywhere but with kqueue the two go together.
    armed: [bool; 2],
    fresh: [bool; 2],
    owed: [bool; 2],
    /// A pipe whose reader is gone has no write filter with kqueue.
    dead: bool,
    missed: u32,
}
impl Reg {
    fn edge(&self) -> bool {
        matches!(self.mode, PollMode::Edge | PollMode::EdgeOneshot)
    }
    fn oneshot(&self) -> bool {
        matches!(self.mode, PollMode::Oneshot | PollMode::EdgeOneshot)
    }
    fn must(&self, m: i16) -> (bool, bool) {
        let (r, w) = self.int.must(m);
        let on = |d: usize| self.armed[d] && (!self.edge() || self.owed[d]);
        (r && on(0), w && on(1) && !self.dead)
    }
    fn may(&self, m: i16) -> (bool, bool) {
        let (r, w) = self.int.may(m);
        let on = |d: usize| self.armed[d] && (!self.edge() || self.fresh[d]);
        (r && on(0), w && on(1))
    }
    /// Reported, in this direction.
    fn took(&mut self, d: usize) {
        self.fresh[d] = false;
        self.owed[d] = false;
        self.missed = 0;
        if self.oneshot() {
            self.armed[d] = false;
        }
    }
    /// kqueue: a filter is there, and its mode is fixed.
    fn alive(&self) -> bool {
        self.armed[0] && self.int.r || self.armed[1] && self.int.w
    }
}

pub struct PModel {
    pub poller: Option<Rc<Poller>>,
    events: Events,
    cap: usize,
    regs: Vec<Option<Reg>>,
    notified: bool,
    /// The container was full of other events when a notification was pending: it may still be
    /// there (simulated systems, where it is an event among the others).
    left: bool,
}
#[derive(Clone)]
pub struct Setup {
    pub variant: Variant,
    pub kinds: Vec<Kind>,
    /// Sources that are a second descriptor for an earlier one.
    pub dups: Vec<usize>,
    /// (source, descriptor number): where to put it.
    pub at: Vec<(usize, i32)>,
    /// Sources are blocking and not close-on-exec.
    pub plain: bool,
    pub pollers: usize,
    /// Watch each poller's descriptor from another poller.
    pub nested: bool,
    pub cap: usize,
    /// Nobody empties the containers.
    pub dirty: bool,
    /// Steps taken first in every sequence.
    pub pre: Vec<Op>,
    /// Steps taken last.
    pub post: Vec<Op>,
}
impl Setup {
    pub fn new(variant: Variant, kinds: &[Kind]) -> Setup {
        Setup {
            variant,
            kinds: kinds.to_vec(),
            dups: vec![],
            at: vec![],
            plain: false,
            pollers: 1,
            nested: false,
            cap: 64,
            dirty: false,
            pre: vec![],
            post: vec![Op::Wait(0, T::Zero), Op::Wait(0, T::Zero)],
        }
    }
}
pub struct World {
    setup: Setup,
    src: Vec<Source>,
    flags: Vec<(isize, isize)>,
    ps: Vec<PModel>,
    waits: u64,
    reported: u64,
    /// Everything observable, for comparing runs.
    pub trace: Vec<Obs>,
    fds: u64,
    outer: Vec<Poller>,
    cur: Op,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    Did(Op, Option<ErrorKind>),
    /// The events in order of key, and the elapsed time in whole milliseconds (rounded up).
    Waited(Op, Vec<(usize, bool, bool, bool, bool, bool)>, u128),
}
/// Which of the low descriptor numbers are open.
pub fn open_fds() -> u64 {
    (0..64).filter(|&fd| mcstd::sysc::raw_fcntl(fd, 1, 0) >= 0).fold(0, |a, fd| a | 1 << fd)
}

/// A container of this capacity; 0: as big as they come by default.
fn container(cap: usize) -> Events {
    match NonZeroUsize::new(cap) {
        Some(c) => Events::with_capacity(c),
        None => Events::new(),
    }
}

pub const MAXKEY: usize = usize::MAX;

fn kind_ok(e: &std::io::Error, want: &[ErrorKind]) -> bool {
    want.contains(&e.kind())
}

fn outers(setup: &Setup, ps: &[PModel]) -> Vec<Poller> {
    if !setup.nested {
        return vec![];
    }
    let mode = if PORTS { PollMode::Oneshot } else { PollMode::Level };
    ps.iter().enumerate().map(|(i, p)| watched(setup.variant, p.poller.as_ref().unwrap(), 900 + i, mode)).collect()
}

impl World {
    pub fn new(setup: &Setup) -> World {
        let fds = open_fds();
        let mut src: Vec<Source> = setup.kinds.iter().map(|&k| Source::new(k)).collect();
        for &d in &setup.dups {
            let s = src[d].dup();
            src.push(s);
        }
        for &(i, fd) in &setup.at {
            src[i].move_to(fd);
        }
        if setup.plain {
            src.iter_mut().for_each(|s| s.plain());
        }
        let ps: Vec<PModel> = (0..setup.pollers)
            .map(|_| PModel {
                poller: Some(Rc::new(new_poller(setup.variant))),
                events: container(setup.cap),
                cap: container(setup.cap).capacity().get(),
                regs: src.iter().map(|_| None).collect(),
                notified: false,
                left: false,
            })
            .collect();
        let flags = src.iter().map(|s| s.flags()).collect();
        let outer = outers(setup, &ps);
        World { setup: setup.clone(), src, flags, ps, waits: 0, reported: 0, trace: vec![], fds, outer, cur: Op::Notify(0) }
    }
    fn supports(&self, m: PollMode) -> bool {
        match m {
            PollMode::Edge | PollMode::EdgeOneshot => !POLL_BACKEND && !PORTS && !WIN,
            PollMode::Level => !PORTS,
            _ => true,
        }
    }
    fn armed(&self, i: usize, key: usize, int: Int, mode: PollMode) -> Reg {
        let m = self.src[i].mask();
        let (r, w) = int.must(m);
        let dead = KQ && self.src[i].kind == Kind::PipeW && m & POLLERR != 0;
        Reg { key, int: int.known(), mode, armed: [true; 2], fresh: [true; 2], owed: [r, w], dead, missed: 0 }
    }
    /// False: this step makes no sense here.
    pub fn step(&mut self, op: Op) -> bool {
        mc::log(|| format!("{op:?}"));
        self.cur = op;
        match op {
            Op::AddD(p, i, key, int) => self.add(p, i, key, int, PollMode::Oneshot, 1),
            Op::AddRef(p, i, key, int) => self.add(p, i, key, int, PollMode::Oneshot, 2),
            Op::Add(p, i, key, int, mode) => self.add(p, i, key, int, mode, 0),
            Op::ModD(p, i, key, int) => self.modify(p, i, key, int, PollMode::Oneshot, true),
            Op::Mod(p, i, key, int, mode) => self.modify(p, i, key, int, mode, false),
            Op::Del(p, i) => self.delete(p, i),
            Op::Act(i, a) => self.act(i, a),
            Op::Notify(p) => {
                if let Err(e) = self.ps[p].poller.as_ref().unwrap().notify() {
                    mc::fail(format!("notify failed: {e}"));
                }
                self.ps[p].notified = true;
                true
            }
            Op::Wait(p, t) => self.wait(p, t),
            Op::Reopen(i) => {
                if self.ps.iter().any(|p| p.regs[i].is_some()) {
                    return false;
                }
                let fd = self.src[i].fd;
                let kind = self.src[i].kind;
                mcstd::kq::forget(fd);
                mcstd::sysc::raw_close(fd);
                if self.src[i].peer >= 0 {
                    mcstd::sysc::raw_close(self.src[i].peer);
                }
                let mut s = Source::new(kind);
                if s.fd != fd {
                    if s.peer == fd {
                        let p2 = mcstd::sysc::raw_fcntl(s.peer, 1030, 0) as i32;
                        mcstd::sysc::raw_close(s.peer);
                        s.peer = p2;
                    }
                    s.move_to(fd);
                }
                self.src[i] = s;
                self.flags[i] = self.src[i].flags();
                true
            }
            Op::Renew(p) => {
                let pm = &mut self.ps[p];
                drop(pm.poller.take());
                pm.regs.iter_mut().for_each(|r| *r = None);
                pm.notified = false;
                pm.left = false;
                pm.poller = Some(Rc::new(new_poller(self.setup.variant)));
                true
            }
            Op::AddErr(p, i, key, int, mode, errno) => self.refused(p, i, key, int, mode, errno, true),
            Op::DelErr(p, i, errno) => self.delete_refused(p, i, errno),
            Op::ModErr(p, i, key, int, mode, errno) => self.refused(p, i, key, int, mode, errno, false),
            Op::WaitErr(p, errno) => self.wait_refused(p, errno),
            Op::NotifyErr(p, errno) => {
                mc::set_fault(Some(Box::new(move |s, _| matches!(s, Sys::KqPost | Sys::Write).then_some(errno))));
                let r = self.ps[p].poller.as_ref().unwrap().notify();
                mc::set_fault(None);
                mc::log(|| format!("  -> {r:?}"));
                match r {
                    Err(e) if e.raw_os_error() == Some(errno) => true,
                    // One that is pending already is enough.
                    Ok(()) if self.ps[p].notified => true,
                    r => mc::fail(format!("the kernel refused the notification with errno {errno}, the result is {r:?}")),
                }
            }
            Op::Outer(p) => self.look_from_outside(p),
            Op::Rep(ops, n) => (0..n).all(|_| ops.iter().all(|&o| self.step(o))),
            Op::All(e, from, by) => {
                for i in (from..self.src.len()).step_by(by) {
                    self.step(match e {
                        Each::Add(int, m) => Op::Add(0, i, 1000 + i, int, m),
                        Each::Mod(int, m) => Op::Mod(0, i, 1000 + i, int, m),
                        Each::Del => Op::Del(0, i),
                        Each::Act(a) => Op::Act(i, a),
                    });
                }
                true
            }
            Op::Sweep(p) => {
                let n = self.src.len().div_ceil(self.ps[p].cap) + 1;
                (0..n).all(|_| self.wait(p, T::Zero))
            }
        }
    }
    fn refused(&mut self, p: usize, i: usize, key: usize, int: Int, mode: PollMode, errno: i32, add: bool) -> bool {
        if POLL_BACKEND || self.ps[p].regs[i].is_some() == add || self.fixed(p, i, mode) {
            return false;
        }
        let fd = self.src[i].fd;
        let hit = Rc::new(std::cell::Cell::new(false));
        let h = hit.clone();
        mc::set_fault(Some(Box::new(move |s, f| {
            if matches!(s, Sys::EpollAdd | Sys::EpollMod | Sys::KqChange | Sys::KqChanges) && f == fd {
                // A new registration may fail half-way.
                if KQ && add && mc::choose(2) == 0 {
                    return None;
                }
                h.set(true);
                Some(errno)
            } else {
                None
            }
        })));
        let po = self.ps[p].poller.as_ref().unwrap();
        let r = if add {
            unsafe { po.add_with_mode(rfd(fd), int.event(key), mode) }
        } else {
            po.modify_with_mode(bfd(fd), int.event(key), mode)
        };
        mc::set_fault(None);
        mc::log(|| format!("  -> {r:?}"));
        match r {
            // One filter may have changed and the other not, but it can be put right.
            Err(e) if e.raw_os_error() == Some(errno) && KQ && !add => self.modify(p, i, key, int, mode, false),
            Err(e) if e.raw_os_error() == Some(errno) => true,
            // It needed no new registration in the kernel.
            Ok(()) if !hit.get() => {
                self.ps[p].regs[i] = Some(self.armed(i, key, int, mode));
                true
            }
            r => mc::fail(format!("the kernel refused the call with errno {errno}, the result is {r:?}")),
        }
    }
    /// The source stays what it is.
    fn delete_refused(&mut self, p: usize, i: usize, errno: i32) -> bool {
        if POLL_BACKEND || self.ps[p].regs[i].is_none() {
            return false;
        }
        let fd = self.src[i].fd;
        mc::set_fault(Some(Box::new(move |s, f| {
            if matches!(s, Sys::EpollDel | Sys::KqChanges) && (KQ || f == fd) {
                Some(errno)
            } else {
                None
            }
        })));
        let r = self.ps[p].poller.as_ref().unwrap().delete(bfd(fd));
        mc::set_fault(None);
        mc::log(|| format!("  -> {r:?}"));
        match r {
            Err(e) if e.raw_os_error() == Some(errno) => true,
            r => mc::fail(format!("the kernel refused to delete with errno {errno}, the result is {r:?}")),
        }
    }
    fn wait_refused(&mut self, p: usize, errno: i32) -> bool {
        let hit = Rc::new(std::cell::Cell::new(false));
        let h = hit.clone();
        mc::set_fault(Some(Box::new(move |s, _| {
            if matches!(s, Sys::EpollWait | Sys::Poll | Sys::KqWait) {
                h.set(true);
                Some(errno)
            } else {
                None
            }
        })));
        let pm = &mut self.ps[p];
        pm.events.clear();
        let r = pm.poller.as_ref().unwrap().wait(&mut pm.events, Some(Duration::ZERO));
        mc::set_fault(None);
        mc::log(|| format!("  -> {r:?}"));
        match r {
            Err(e) if hit.get() && e.raw_os_error() == Some(errno) => true,
            // Notified: it did not get as far as asking the kernel.
            Ok(0) if !hit.get() && pm.notified => {
                pm.notified = false;
                true
            }
            r => mc::fail(format!("the kernel refused to wait with errno {errno}, the result is {r:?}")),
        }
    }
    fn look_from_outside(&mut self, p: usize) -> bool {
        if self.outer.is_empty() {
            return false;
        }
        let pm = &self.ps[p];
        let due = pm.notified
            || (0..self.src.len()).any(|i| {
                let (r, w) = pm.regs[i].as_ref().map_or((false, false), |r| r.must(self.src[i].mask()));
                r || w
            });
        let mut ev = Events::with_capacity(NonZeroUsize::new(4).unwrap());
        let r = self.outer[p].wait(&mut ev, Some(Duration::ZERO));
        let n = match r {
            Ok(n) => n,
            Err(e) => mc::fail(format!("wait on the outer poller failed: {e}")),
        };
        let evs: Vec<Event> = ev.iter().collect();
        mc::log(|| format!("  -> {evs:?}"));
        if n != evs.len() || evs.iter().any(|e| e.key != 900 + p || !e.readable) {
            mc::fail(format!("the outer poller reported {evs:?}"));
        }
        if PORTS && n > 0 {
            watch_on(&self.outer[p], pm.poller.as_ref().unwrap(), 900 + p);
        }
        if due && n == 0 {
            mc::fail("the poller has something to report, but its descriptor is not readable");
        }
        let may = pm.notified
            || (0..self.src.len()).any(|i| {
                let (r, w) = pm.regs[i].as_ref().map_or((false, false), |r| r.may(self.src[i].mask()));
                r || w
            });
        if n > 0 && !may {
            mc::fail("the poller has nothing to report, yet its descriptor is readable");
        }
        self.reported += n as u64;
        true
    }
    /// With kqueue the mode of a registration that is armed cannot be changed.
    fn fixed(&self, p: usize, i: usize, mode: PollMode) -> bool {
        KQ && self.ps[p].regs[i].as_ref().map_or(false, |r| r.mode != mode && r.alive())
    }
    /// Files that epoll does not take.
    fn refuses(&self, i: usize, want: &mut Vec<ErrorKind>) {
        if self.src[i].kind == Kind::File && !POLL_BACKEND {
            want.push(ErrorKind::PermissionDenied);
        }
    }
    fn add(&mut self, p: usize, i: usize, key: usize, int: Int, mode: PollMode, how: u8) -> bool {
        let fd = self.src[i].fd;
        let po = self.ps[p].poller.as_ref().unwrap();
        let r = unsafe {
            match how {
                1 => po.add(rfd(fd), int.event(key)),
                2 => po.add(&bfd(fd), int.event(key)),
                _ => po.add_with_mode(rfd(fd), int.event(key), mode),
            }
        };
        let had = self.ps[p].regs[i].is_some();
        let mut want = vec![];
        if key == MAXKEY {
            want.push(ErrorKind::InvalidInput);
        }
        if had && !PORTS {
            want.push(ErrorKind::AlreadyExists);
        }
        if !self.supports(mode) {
            want.push(ErrorKind::Unsupported);
        }
        self.refuses(i, &mut want);
        self.verdict("add", i, r, &want);
        if want.is_empty() {
            self.ps[p].regs[i] = Some(self.armed(i, key, int, mode));
        }
        true
    }
    fn modify(&mut self, p: usize, i: usize, key: usize, int: Int, mode: PollMode, dflt: bool) -> bool {
        if self.fixed(p, i, mode) {
            return false;
        }
        let fd = bfd(self.src[i].fd);
        let po = self.ps[p].poller.as_ref().unwrap();
        let r = if dflt {
            po.modify(fd, int.event(key))
        } else {
            po.modify_with_mode(fd, int.event(key), mode)
        };
        let had = self.ps[p].regs[i].is_some();
        let mut want = vec![];
        if key == MAXKEY {
            want.push(ErrorKind::InvalidInput);
        }
        if !had && !PORTS {
            want.push(ErrorKind::NotFound);
        }
        if !self.supports(mode) {
            want.push(ErrorKind::Unsupported);
        }
        self.refuses(i, &mut want);
        self.verdict("modify", i, r, &want);
        if want.is_empty() {
            self.ps[p].regs[i] = Some(self.armed(i, key, int, mode));
        }
        true
    }
    fn delete(&mut self, p: usize, i: usize) -> bool {
        let r = self.ps[p].poller.as_ref().unwrap().delete(bfd(self.src[i].fd));
        let had = self.ps[p].regs[i].is_some();
        let mut want = if had || PORTS { vec![] } else { vec![ErrorKind::NotFound] };
        self.refuses(i, &mut want);
        self.verdict("delete", i, r, &want);
        self.ps[p].regs[i] = None;
        true
    }
    fn verdict(&mut self, what: &str, i: usize, r: std::io::Result<()>, want: &[ErrorKind]) {
        mc::log(|| format!("  -> {r:?}"));
        self.trace.push(Obs::Did(self.cur, r.as_ref().err().map(|e| e.kind())));
        match r {
            Ok(()) if want.is_empty() => {}
            Err(e) if kind_ok(&e, want) => {}
            Ok(()) => mc::fail(format!("{what} of source {i} succeeded; expected {want:?}")),
            Err(e) if want.is_empty() => mc::fail(format!("{what} of source {i} failed: {e}")),
            Err(e) => mc::fail(format!("{what} of source {i} failed with {:?} ({e}); expected {want:?}", e.kind())),
        }
    }
    fn act(&mut self, i: usize, a: Act) -> bool {
        let file = self.src[i].file;
        let before = self.src[i].mask();
        if !self.src[i].act(a) {
            return false;
        }
        let after = self.src[i].mask();
        for (j, s) in self.src.iter().enumerate() {
            if j != i && s.file == file && !a.is_own() {
                mcstd::kq::activity(s.fd);
            }
        }
        for p in &mut self.ps {
            for (j, r) in p.regs.iter_mut().enumerate() {
                if let Some(r) = r {
                    if self.src[j].file == file {
                        r.fresh = [true; 2];
                        let (br, bw) = r.int.must(before);
                        let (ar, aw) = r.int.must(after);
                        r.owed = [ar && (r.owed[0] || !br), aw && (r.owed[1] || !bw)];
                    }
                }
            }
        }
        true
    }
    fn wait(&mut self, p: usize, t: T) -> bool {
        let masks: Vec<i16> = self.src.iter().map(|s| s.mask()).collect();
        let pm = &mut self.ps[p];
        let must: Vec<(bool, bool)> = (0..masks.len())
            .map(|i| pm.regs[i].as_ref().map_or((false, false), |r| r.must(masks[i])))
            .collect();
        let may: Vec<(bool, bool)> = (0..masks.len())
            .map(|i| pm.regs[i].as_ref().map_or((false, false), |r| r.may(masks[i])))
            .collect();
        let any_must = must.iter().any(|m| m.0 || m.1);
        let any_may = may.iter().any(|m| m.0 || m.1);
        let mut alarm = None;
        let to = match t {
            T::Zero => Some(Duration::ZERO),
            T::Ns(n) => Some(Duration::from_nanos(n)),
            T::Inf | T::Max => {
                if !any_must && !pm.notified {
                    if any_may {
                        return false;
                    }
                    let po = pm.poller.clone().unwrap();
                    alarm = Some(mc::spawn("alarm", move || {
                        mc::sleep(Duration::from_nanos(LONG));
                        if let Err(e) = po.notify() {
                            mc::fail(format!("notify failed: {e}"));
                        }
                    }));
                }
                if t == T::Max {
                    Some(Duration::MAX)
                } else {
                    None
                }
            }
        };
        let mut old = vec![];
        if self.setup.dirty {
            old = pm.events.iter().collect();
        } else {
            pm.events.clear();
            if pm.events.iter().next().is_some() || pm.events.len() != 0 || !pm.events.is_empty() {
                mc::fail("the container is not empty after clear()");
            }
        }
        let t0 = mc::now();
        let n = match pm.poller.as_ref().unwrap().wait(&mut pm.events, to) {
            Ok(n) => n,
            Err(e) => mc::fail(format!("wait failed: {e}")),
        };
        let el = mc::now() - t0;
        if let Some(a) = alarm {
            mc::join(a);
        }
        let left = std::mem::take(&mut pm.left);
        self.waits += 1;
        let mut evs: Vec<Event> = pm.events.iter().collect();
        mc::log(|| format!("  -> {n} after {el} ns: {evs:?}"));
        if evs.len() != pm.events.len() || evs.is_empty() != pm.events.is_empty() {
            mc::fail("the container does not know how many events it has");
        }
        if self.setup.dirty {
            evs = new_events(&old, evs, n);
        }
        if n != evs.len() {
            mc::fail(format!(
                "wait returned {n}, the container has {} events (len {}, is_empty {})",
                evs.len(),
                pm.events.len(),
                pm.events.is_empty()
            ));
        }
        if pm.events.capacity().get() < pm.cap {
            mc::fail(format!("the container's capacity shrank to {}", pm.events.capacity()));
        }
        let mut seen: Vec<_> = evs
            .iter()
            .map(|e| (e.key, e.readable, e.writable, e.is_priority(), e.is_interrupt(), e.is_err() == Some(true)))
            .collect();
        seen.sort();
        self.trace.push(Obs::Waited(self.cur, seen, (el + 999_999) / 1_000_000));
        for e in &evs {
            let mut c = *e;
            c.clear_extra();
            if c != Event::new(e.key, e.readable, e.writable) || e.with_no_extra() != c || c.is_err() == Some(true) || c.is_interrupt() || c.is_priority() {
                mc::fail(format!("{e:?} without its extra information is {c:?} or {:?}", e.with_no_extra()));
            }
            #[allow(deprecated)]
            let failed = e.is_connect_failed();
            let both = e.is_err() == Some(true) && e.is_interrupt();
            let none = e.is_err() == Some(false) && !e.is_interrupt();
            if both && failed == Some(false) || none && failed == Some(true) {
                mc::fail(format!("{e:?}: is_connect_failed() is {failed:?}, error {:?}, interrupt {}", e.is_err(), e.is_interrupt()));
            }
        }
        // Time.
        let was_notified = pm.notified;
        if any_must || was_notified {
            if el != 0 {
                mc::fail(format!(
                    "wait returned only after {el} ns though {}",
                    if was_notified { "it was notified" } else { "a source was ready" }
                ));
            }
        } else if n == 0 && !any_may {
            let want = if alarm.is_some() { LONG as u128 } else { to.unwrap().as_nanos() };
            // Millisecond time-outs cannot express more than 2^31-1 ms (but infinity), and a wait
            // may end spuriously (documented).
            let int_ms = !SIM && (POLL_BACKEND || self.setup.variant.lacks_timerfd());
            let floor = if alarm.is_some() || !int_ms { want } else { want.min(i32::MAX as u128 * 1_000_000) };
            if el < floor && !left {
                mc::fail(format!("wait({want} ns) returned after {el} ns with nothing to report and no notification"));
            }
            if el > want + if alarm.is_some() { 0 } else { 1_000_000 } {
                mc::fail(format!("wait({want} ns) returned only after {el} ns"));
            }
        }
        // An alarm that rang for nobody is pending now.
        pm.notified = left && alarm.is_some() && el < LONG as u128;
        pm.left = SIM && was_notified && n >= pm.cap;
        // Events.
        let mut hit = vec![[false; 2]; masks.len()];
        for e in &evs {
            self.reported += 1;
            // Which filter says so: read events have an end-of-file mark that counts as writable.
            let d = if KQ { !e.readable as usize } else { 0 };
            let cands: Vec<usize> = (0..masks.len())
                .filter(|&i| !hit[i][d] && pm.regs[i].as_ref().map_or(false, |r| r.key == e.key))
                .collect();
            if cands.is_empty() {
                mc::fail(format!("event {e:?} has a key nobody is registered under (or twice in one wait)"));
            }
            let fits = |i: usize| {
                let (mr, mw) = may[i];
                let (dr, dw) = must[i];
                let m = masks[i];
                let reg = pm.regs[i].as_ref().unwrap();
                if KQ {
                    let end = m & (POLLHUP | POLLERR | POLLRDHUP) != 0;
                    return if e.readable { mr && e.writable == end } else { e.writable && mw }
                        && e.is_err().is_none()
                        && !e.is_interrupt()
                        && !e.is_priority();
                }
                (e.readable || e.writable)
                    && (mr || mw)
                    && (!e.readable || mr)
                    && (!e.writable || mw)
                    && (!dr || e.readable)
                    && (!dw || e.writable)
                    && (!e.is_priority() || m & POLLPRI != 0 && (reg.int.r || reg.int.pri))
                    && (m & POLLPRI == 0 || !(reg.int.r || reg.int.pri) || e.is_priority())
                    && e.is_interrupt() == (m & POLLHUP != 0)
                    && e.is_err() == Some(m & POLLERR != 0)
            };
            match cands.iter().copied().find(|&i| fits(i)) {
                Some(i) => {
                    hit[i][d] = true;
                    let r = pm.regs[i].as_mut().unwrap();
                    r.took(d);
                    if !KQ {
                        hit[i][1] = true;
                        r.took(1);
                    }
                }
                None => {
                    let i = cands[0];
                    mc::fail(format!(
                        "event {e:?} (priority {}, interrupt {}, error {:?}) does not fit source {i}: registered {:?}, kernel says {:#x}, must report (read, write) {:?}, may report {:?}",
                        e.is_priority(), e.is_interrupt(), e.is_err(), pm.regs[i], masks[i], must[i], may[i]
                    ));
                }
            }
        }
        let missing: Vec<usize> =
            (0..masks.len()).filter(|&i| must[i].0 && !hit[i][0] || must[i].1 && !hit[i][1]).collect();
        if !missing.is_empty() {
            // A notification may end the wait before anything else is looked at.
            // On the simulated systems it stays in the queue when it was not among the events taken,
            // and takes up room later.
            let full = !POLL_BACKEND && n + (was_notified || SIM) as usize >= pm.cap || was_notified && n == 0;
            let total = masks.len() as u32 * if KQ { 2 } else { 1 };
            for &i in &missing {
                let r = pm.regs[i].as_mut().unwrap();
                r.missed += !was_notified as u32;
                if !full || r.missed > total + 2 {
                    let miss = r.missed;
                    mc::fail(format!(
                        "source {i} ({:?}) is ready ({:#x}) but was not reported ({n} events in a container of {}, {miss} waits)",
                        pm.regs[i], masks[i], pm.cap
                    ));
                }
            }
        }
        true
    }
    pub fn finish(mut self) -> Vec<Obs> {
        for op in self.setup.post.clone() {
            self.step(op);
        }
        // Nobody's flags were touched.
        for i in 0..self.src.len() {
            if self.src[i].flags() != self.flags[i] {
                mc::fail(format!("flags of source {i} changed: {:?} -> {:?}", self.flags[i], self.src[i].flags()));
            }
        }
        // Deregister in every way: half by delete, then drop.
        for p in 0..self.ps.len() {
            for i in 0..self.src.len() {
                if self.ps[p].regs[i].is_some() && !self.delete(p, i) {
                    mc::fail("delete");
                }
            }
            // Nothing left: the poller is quiet.
            let pm = &mut self.ps[p];
            pm.events.clear();
            match pm.poller.as_ref().unwrap().wait(&mut pm.events, Some(Duration::ZERO)) {
                Ok(0) => {}
                r => mc::fail(format!("after deleting everything, wait gave {r:?}")),
            }
        }
        self.outer.clear();
        for p in &mut self.ps {
            drop(p.poller.take());
        }
        // Each source is still open, and once they are closed nothing is left.
        for s in &self.src {
            if mcstd::sysc::raw_fcntl(s.fd, 1, 0) < 0 {
                mc::fail(format!("the poller closed source descriptor {}", s.fd));
            }
        }
        for i in 0..self.src.len() {
            self.src[i].close();
        }
        let now = open_fds();
        if now != self.fds {
            mc::fail(format!("descriptors left open (or closed) after the poller was dropped: bits {:#x}", now ^ self.fds));
        }
        if self.reported > 0 {
            mc::nontrivial();
        }
        mc::count("waits", self.waits);
        mc::count("events", self.reported);
        self.trace
    }
}

/// Every sequence of `depth` steps over the alphabet.
pub fn sequences(setup: &Setup, alphabet: &[Op], depth: usize) {
    order_of_tables(setup.kinds.len() + setup.dups.len());
    let mut w = World::new(setup);
    for op in setup.pre.clone() {
        if !w.step(op) {
            mc::fail(format!("harness: setup step {op:?} not applicable"));
        }
    }
    for _ in 0..depth {
        let op = alphabet[mc::choose(alphabet.len())];
        if !w.step(op) {
            mc::abandon();
        }
    }
    w.finish();
}

/// Every sequence, once on each setup: nothing observable may differ.
pub fn same_everywhere(setups: &[Setup], alphabet: &[Op], depth: usize) {
    let ops: Vec<Op> = (0..depth).map(|_| alphabet[mc::choose(alphabet.len())]).collect();
    let mut first: Option<(Variant, Vec<Obs>)> = None;
    for s in setups {
        mc::log(|| format!("---- {:?}", s.variant));
        let mut w = World::new(s);
        for op in s.pre.clone() {
            w.step(op);
        }
        for &op in &ops {
            if !w.step(op) {
                mc::abandon();
            }
        }
        let t = w.finish();
        match &first {
            None => first = Some((s.variant, t)),
            Some((v, f)) => {
                if *f != t {
                    let i = f.iter().zip(&t).position(|(a, b)| a != b).unwrap_or(f.len().min(t.len()));
                    mc::fail(format!("{v:?} and {:?} differ: {:?} / {:?}", s.variant, f.get(i), t.get(i)));
                }
            }
        }
    }
}

/// Every pair of keys: registered with the one, changed to the other; both come back as they were.
pub fn keys(setup: &Setup, keys: &[usize]) {
    let a = keys[mc::choose(keys.len())];
    let b = keys[mc::choose(keys.len())];
    let mut w = World::new(setup);
    for op in [
        Op::Act(0, Act::Feed),
        Op::Add(0, 0, a, R, PollMode::Oneshot),
        Op::AddD(0, 1, b, W),
        Op::Wait(0, T::Inf),
        Op::Wait(0, T::Zero),
        Op::ModD(0, 0, b, R),
        Op::Mod(0, 1, a, W, PollMode::Level),
        Op::Wait(0, T::Zero),
        Op::Wait(0, T::Zero),
    ] {
        w.step(op);
    }
    w.finish();
}
/// 0, 1, every power of two, its neighbours, and the complements of all these.
pub fn all_keys() -> Vec<usize> {
    let mut v = vec![];
    for k in 0..usize::BITS {
        let p = 1usize << k;
        for x in [p - 1, p, p + 1] {
            v.extend([x, !x]);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|&k| k != MAXKEY);
    v
}
/// The poller says which modes it has; add and modify accept exactly these.
pub fn announced(setup: &Setup) {
    let m = [PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot][mc::choose(4)];
    let int = [NO, R, W, RW][mc::choose(4)];
    let modify = mc::choose(2) == 1;
    let w = World::new(setup);
    let fd = w.src[0].fd;
    for round in 0..2 {
        let po = w.ps[0].poller.as_ref().unwrap();
        let has = match m {
            PollMode::Oneshot => true,
            PollMode::Level => po.supports_level(),
            _ => po.supports_edge(),
        };
        let first = if modify { PollMode::Oneshot } else { m };
        let mut r = unsafe { po.add_with_mode(rfd(fd), int.event(1), first) };
        if modify {
            if let Err(e) = &r {
                mc::fail(format!("add(Oneshot) failed: {e}"));
            }
            r = po.modify_with_mode(bfd(fd), int.event(2), m);
        }
        mc::log(|| format!("{m:?} {int:?} {r:?}"));
        let ok = match &r {
            Ok(()) => has,
            Err(e) => !has && e.kind() == ErrorKind::Unsupported,
        };
        if !ok {
            mc::fail(format!("{m:?} is said to be supported: {has}; {} (round {round}) returned {r:?}", if modify { "modify_with_mode" } else { "add_with_mode" }));
        }
        if modify || has {
            if let Err(e) = po.delete(bfd(fd)) {
                mc::fail(format!("delete failed: {e}"));
            }
        }
    }
    mc::nontrivial();
    w.finish();
}
