//! Completion ports: every sequence of operations over an alphabet — sockets, waitable objects,
//! posted packets, notifications, refusals of the system — against a model of what is registered
//! and what has happened. The system is the simulated one (mcstd's win.rs).
//!
//! The model does not know how the crate drives the port. A poll of the system may complete, and a
//! callback run, some time before the wait that reports it; what is reported must therefore have
//! been so at some moment since nothing was on its way (`had`), and what is so now must be reported
//! by the next wait that may sleep.
use crate::seq::{open_fds, Int, NO};
use crate::sys::*;
use mcstd::os::windows::io::BorrowedHandle;
use mcstd::sysc::Sys;
use mcstd::{mc, win};
use polling::os::iocp::{CompletionPacket, PollerIocpExt};
use polling::{Event, Events, PollMode, Poller};
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind};
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// Source, key.
    Add(usize, usize, Int, PollMode),
    Mod(usize, usize, Int, PollMode),
    Del(usize),
    Act(usize, Act),
    /// Object, key.
    AddH(usize, usize, Int, PollMode),
    ModH(usize, usize, Int, PollMode),
    DelH(usize),
    Set(usize),
    Unset(usize),
    /// The thread pool does what is due.
    Pool,
    Post(usize),
    /// The packet posted last, once more.
    Again,
    Notify,
    /// At most this long (ns).
    Wait(u64),
    /// Without a limit; only where something ends it.
    Forever,
    /// While the system refuses this.
    AddErr(usize, usize, Int, Sys),
    AddHErr(usize, usize, Int),
    WaitErr(Sys),
    NotifyErr,
    PostErr(usize),
    /// Close this source and open another, under the same number.
    Renew(usize),
    /// The poller is dropped and another one made.
    Fresh,
    /// The first operation n times, with other sources: add all, delete all.
    Many(usize),
}
#[derive(Clone)]
pub struct Setup {
    pub kinds: Vec<Kind>,
    /// Waitable objects: does a wait take the signal?
    pub objects: Vec<bool>,
    pub cap: usize,
    pub layered: bool,
    /// Nobody empties the container.
    pub dirty: bool,
    pub pre: Vec<Op>,
}
impl Setup {
    pub fn new(kinds: &[Kind], objects: &[bool]) -> Setup {
        Setup { kinds: kinds.to_vec(), objects: objects.to_vec(), cap: 32, layered: false, dirty: false, pre: vec![] }
    }
}

/// A registered socket.
#[derive(Clone, Debug)]
struct Reg {
    key: usize,
    int: Int,
    mode: PollMode,
    armed: bool,
    /// States it was in, and masks that may have been asked for, while something may be on its way.
    had: Vec<i16>,
    asked: Vec<u32>,
    /// Waits that may skip it, and did.
    grace: usize,
    missed: usize,
}
const READ: u32 = win::RECEIVE | win::RECEIVE_EXPEDITED | win::DISCONNECT | win::ABORT;
const WRITE: u32 = win::SEND | win::ABORT;
fn mask(i: Int) -> u32 {
    let mut m = 0;
    if i.r {
        m |= READ;
    }
    if i.w {
        m |= WRITE;
    }
    if i.pri {
        m |= win::RECEIVE_EXPEDITED;
    }
    if i.hup {
        m |= win::ABORT;
    }
    m
}
/// What is reported (readable, writable, priority, interrupt) for these flags.
fn seen(i: Int, f: u32) -> Option<(bool, bool, bool, bool)> {
    let (r, w) = (i.r && f & READ != 0, i.w && f & WRITE != 0);
    let (p, h) = (f & win::RECEIVE_EXPEDITED != 0, f & win::ABORT != 0);
    (r || w || i.pri && p || i.hup && h).then_some((r, w, p, h))
}
impl Reg {
    fn new(key: usize, int: Int, mode: PollMode, m: i16) -> Reg {
        Reg { key, int, mode, armed: true, had: vec![m], asked: vec![mask(int)], grace: 0, missed: 0 }
    }
    fn due(&self, m: i16) -> bool {
        self.armed && seen(self.int, win::flags(m) & mask(self.int)).is_some()
    }
    fn may(&self, e: &Event) -> bool {
        let got = (e.readable, e.writable, e.is_priority(), e.is_interrupt());
        self.armed && self.had.iter().any(|&m| self.asked.iter().any(|&a| seen(self.int, win::flags(m) & a) == Some(got)))
    }
    fn settle(&mut self, m: i16) {
        self.had = vec![m];
        self.asked = vec![mask(if self.armed { self.int } else { NO })];
    }
}
/// A registered object.
#[derive(Clone, Debug)]
struct Hand {
    key: usize,
    int: Int,
    mode: PollMode,
    had: bool,
    /// Its signal was taken.
    owed: bool,
}
impl Hand {
    fn armed(&self) -> bool {
        self.int.r || self.int.w
    }
}
struct World {
    setup: Setup,
    po: Option<Poller>,
    evs: Events,
    old: Vec<Event>,
    src: Vec<Source>,
    obj: Vec<*mut std::ffi::c_void>,
    sig: Vec<bool>,
    regs: Vec<Option<Reg>>,
    hands: Vec<Option<Hand>>,
    posted: Vec<Event>,
    last: Option<CompletionPacket>,
    notified: bool,
    /// A wait may end early for what an earlier one left behind.
    left: bool,
    more: Vec<Source>,
    /// How many of those there have been.
    crowd: usize,
    n: u64,
}
fn edge(m: PollMode) -> bool {
    matches!(m, PollMode::Edge | PollMode::EdgeOneshot)
}
fn refusing<T>(s: Sys, f: impl FnOnce() -> T) -> T {
    mc::set_fault(Some(Box::new(move |x, _| (x == s).then_some(ENOMEM))));
    let r = f();
    mc::set_fault(None);
    r
}
fn bh(h: *mut std::ffi::c_void) -> BorrowedHandle<'static> {
    unsafe { BorrowedHandle::borrow_raw(h) }
}
impl World {
    fn po(&self) -> &Poller {
        self.po.as_ref().unwrap()
    }
    fn verdict(&self, op: Op, r: io::Result<()>, want: Result<(), ErrorKind>) {
        mc::log(|| format!("  -> {r:?}"));
        if r.as_ref().map(|_| ()).map_err(|e| e.kind()) != want {
            mc::fail(format!("{op:?} gave {r:?}; expected {want:?}"));
        }
    }
    fn refused(&self, op: Op, r: io::Result<()>) {
        mc::log(|| format!("  -> {r:?}"));
        if r.is_ok() {
            mc::fail(format!("{op:?}: the system refused, the result is {r:?}"));
        }
    }
    fn step(&mut self, op: Op) -> bool {
        mc::log(|| format!("{op:?}"));
        let ok = self.act(op);
        self.signals();
        ok
    }
    /// Whose signal was taken meanwhile?
    fn signals(&mut self) {
        for i in 0..self.obj.len() {
            let now = win::is_signaled(self.obj[i]);
            if self.sig[i] && !now {
                if let Some(h) = &mut self.hands[i] {
                    // Of no use to anybody if there is no interest.
                    h.owed = h.armed();
                    h.had = true;
                }
            }
            self.sig[i] = now;
        }
    }
    fn act(&mut self, op: Op) -> bool {
        match op {
            Op::Add(s, key, int, mode) => {
                let r = unsafe { self.po().add_with_mode(rfd(self.src[s].fd), int.event(key), mode) };
                if edge(mode) {
                    self.verdict(op, r, Err(ErrorKind::InvalidInput));
                } else if self.regs[s].is_some() {
                    self.verdict(op, r, Err(ErrorKind::AlreadyExists));
                } else {
                    self.verdict(op, r, Ok(()));
                    self.regs[s] = Some(Reg::new(key, int, mode, self.src[s].mask()));
                }
            }
            Op::AddErr(s, key, int, what) => {
                if self.regs[s].is_some() {
                    return false;
                }
                // Whether the system is asked for this is the crate's affair.
                let r = refusing(what, || unsafe { self.po().add_with_mode(rfd(self.src[s].fd), int.event(key), PollMode::Oneshot) });
                mc::log(|| format!("  -> {r:?}"));
                if r.is_ok() {
                    self.regs[s] = Some(Reg::new(key, int, PollMode::Oneshot, self.src[s].mask()));
                }
            }
            Op::Mod(s, key, int, mode) => {
                let r = self.po().modify_with_mode(bfd(self.src[s].fd), int.event(key), mode);
                let m = self.src[s].mask();
                if edge(mode) {
                    self.verdict(op, r, Err(ErrorKind::InvalidInput));
                } else if let Some(g) = &mut self.regs[s] {
                    (g.key, g.int, g.mode, g.armed, g.grace) = (key, int, mode, true, 1);
                    g.asked.push(mask(int));
                    g.had.push(m);
                    self.verdict(op, r, Ok(()));
                } else {
                    self.verdict(op, r, Err(ErrorKind::NotFound));
                }
            }
            Op::Del(s) => {
                let r = self.po().delete(bfd(self.src[s].fd));
                self.verdict(op, r, Ok(()));
                self.regs[s] = None;
            }
            Op::Act(s, a) => {
                if !self.src[s].act(a) {
                    return false;
                }
                let m = self.src[s].mask();
                if let Some(g) = &mut self.regs[s] {
                    g.had.push(m);
                }
            }
            Op::Renew(s) => {
                // Registered sources have to be removed before.
                if self.regs[s].is_some() {
                    return false;
                }
                let fd = self.src[s].fd;
                self.src[s].close();
                let mut x = Source::new(self.src[s].kind);
                if x.fd != fd {
                    if x.peer == fd {
                        std::mem::swap(&mut x.fd, &mut x.peer);
                    } else {
                        x.move_to(fd);
                    }
                }
                self.src[s] = x;
            }
            Op::AddH(o, key, int, mode) => {
                let r = unsafe { self.po().add_waitable(self.obj[o], int.event(key), mode) };
                if edge(mode) {
                    self.verdict(op, r, Err(ErrorKind::InvalidInput));
                } else if self.hands[o].is_some() {
                    self.verdict(op, r, Err(ErrorKind::AlreadyExists));
                } else {
                    self.verdict(op, r, Ok(()));
                    self.hands[o] = Some(Hand { key, int, mode, had: self.sig[o], owed: false });
                }
            }
            Op::AddHErr(o, key, int) => {
                if self.hands[o].is_some() {
                    return false;
                }
                let r = refusing(Sys::KqChange, || unsafe { self.po().add_waitable(self.obj[o], int.event(key), PollMode::Oneshot) });
                if r.is_ok() {
                    self.hands[o] = Some(Hand { key, int, mode: PollMode::Oneshot, had: self.sig[o], owed: false });
                }
            }
            Op::ModH(o, key, int, mode) => {
                let r = self.po().modify_waitable(bh(self.obj[o]), int.event(key), mode);
                if edge(mode) {
                    self.verdict(op, r, Err(ErrorKind::InvalidInput));
                } else if let Some(h) = &mut self.hands[o] {
                    (h.key, h.int, h.mode) = (key, int, mode);
                    if !h.armed() {
                        // A signal that was taken may get lost now.
                        h.owed = false;
                    }
                    h.had |= self.sig[o];
                    self.verdict(op, r, Ok(()));
                } else {
                    self.verdict(op, r, Err(ErrorKind::NotFound));
                }
            }
            Op::DelH(o) => {
                let r = self.po().remove_waitable(bh(self.obj[o]));
                self.verdict(op, r, Ok(()));
                self.hands[o] = None;
            }
            Op::Set(o) => {
                if self.sig[o] {
                    return false;
                }
                // Before anybody takes it.
                self.sig[o] = true;
                win::set(self.obj[o], true);
                if let Some(h) = &mut self.hands[o] {
                    h.had = true;
                }
            }
            Op::Unset(o) => {
                if !self.sig[o] {
                    return false;
                }
                win::set(self.obj[o], false);
                self.sig[o] = false;
            }
            Op::Pool => {
                if !win::run_due() {
                    return false;
                }
            }
            Op::Post(key) => {
                let e = Event::new(key, key % 2 == 0, key % 3 == 0);
                let p = CompletionPacket::new(e);
                if *p.event() != e {
                    mc::fail("a packet has another event than it was made with");
                }
                self.last = Some(p.clone());
                let r = self.po().post(p);
                self.verdict(op, r, Ok(()));
                self.posted.push(e);
            }
            Op::PostErr(key) => {
                let p = CompletionPacket::new(Event::all(key));
                let r = refusing(Sys::KqPost, || self.po().post(p));
                self.refused(op, r);
            }
            Op::Again => match self.last.clone() {
                None => return false,
                Some(p) => {
                    self.posted.push(*p.event());
                    let r = self.po().post(p);
                    self.verdict(op, r, Ok(()));
                }
            },
            Op::Notify => {
                let r = self.po().notify();
                self.verdict(op, r, Ok(()));
                self.notified = true;
            }
            Op::NotifyErr => {
                let r = refusing(Sys::KqPost, || self.po().notify());
                // A notification that is pending already is enough.
                if !self.notified {
                    self.refused(op, r);
                }
            }
            Op::WaitErr(what) => {
                self.ready();
                let t0 = mc::now();
                let r = refusing(what, || self.po.as_ref().unwrap().wait(&mut self.evs, Some(Duration::from_millis(5))));
                mc::log(|| format!("  -> {r:?}"));
                match r {
                    Ok(n) => {
                        self.notified = false;
                        self.account(n, true)
                    }
                    Err(e) if e.kind() == ErrorKind::Interrupted => mc::fail("wait failed with Interrupted"),
                    Err(_) if mc::now() != t0 => mc::fail("a wait that was refused slept first"),
                    Err(_) if what == Sys::KqWait => {}
                    Err(_) => {
                        for g in self.regs.iter_mut().flatten() {
                            g.grace = 1;
                        }
                    }
                }
            }
            Op::Wait(ns) => self.wait(Some(ns)),
            Op::Forever => {
                if !self.must() {
                    return false;
                }
                self.wait(None);
            }
            Op::Fresh => {
                self.end();
                self.po = Some(new_poller(Variant::Plain));
            }
            Op::Many(n) => {
                if self.more.is_empty() {
                    self.crowd += n;
                    for i in 0..n {
                        let s = Source::new(Kind::Evt);
                        let r = unsafe { self.po().add_with_mode(rfd(s.fd), Event::readable(10_000 + i), PollMode::Oneshot) };
                        self.verdict(op, r, Ok(()));
                        self.more.push(s);
                    }
                } else {
                    for s in std::mem::take(&mut self.more) {
                        let r = self.po().delete(bfd(s.fd));
                        self.verdict(op, r, Ok(()));
                        s.close();
                    }
                }
            }
        }
        true
    }
    /// Must a wait return at once?
    fn must(&self) -> bool {
        self.notified
            || !self.posted.is_empty()
            || self.regs.iter().zip(&self.src).any(|(g, s)| g.as_ref().map_or(false, |g| g.due(s.mask())))
            || self.hands.iter().zip(&self.sig).any(|(h, &s)| h.as_ref().map_or(false, |h| h.armed() && (h.owed || s)))
    }
    fn wait(&mut self, to: Option<u64>) {
        let t0 = mc::now();
        let must = self.must();
        self.ready();
        let n = match self.po.as_ref().unwrap().wait(&mut self.evs, to.map(Duration::from_nanos)) {
            Ok(n) => n,
            Err(e) => mc::fail(format!("wait failed: {e}")),
        };
        let t = mc::now() - t0;
        mc::log(|| format!("  -> {n} after {t} ns: {:?}", self.evs.iter().collect::<Vec<_>>()));
        let full = to.map_or(u128::MAX, |ns| (ns as u128 + 999_999) / 1_000_000 * 1_000_000);
        let awake = self.notified || self.left;
        if t != 0 && t != full {
            mc::fail(format!("wait({to:?}) returned after {t} ns"));
        }
        if t == 0 && full != 0 && n == 0 && !awake {
            mc::fail(format!("wait({to:?}) returned at once, without any event"));
        }
        if t != 0 && must {
            mc::fail(format!("wait({to:?}) slept though there is something to report"));
        }
        if t != 0 && n != 0 {
            mc::fail(format!("wait({to:?}) gave {n} events after {t} ns in which nothing happened"));
        }
        self.notified = false;
        self.account(n, full == 0 || awake);
    }
    fn ready(&mut self) {
        if self.setup.dirty {
            self.old = self.evs.iter().collect();
        } else {
            self.evs.clear();
        }
    }
    /// The events of a wait; `brief`: it need not have got round to everything.
    fn account(&mut self, n: usize, brief: bool) {
        self.signals();
        let mut evs: Vec<Event> = self.evs.iter().collect();
        if self.setup.dirty {
            evs = new_events(&self.old, evs, n);
        }
        if n != evs.len() || n > self.evs.capacity().get() {
            mc::fail(format!("wait returned {n}; there are {} events of at most {}", evs.len(), self.evs.capacity()));
        }
        self.n += n as u64;
        let many = (self.setup.kinds.len() + self.posted.len() + self.hands.len() + self.crowd + 2) / self.evs.capacity().get();
        let mut told = vec![false; self.regs.len()];
        let mut hands = vec![false; self.hands.len()];
        for e in &evs {
            if let Some(i) = self.posted.iter().position(|p| p == e) {
                self.posted.remove(i);
                continue;
            }
            if let Some(i) = self.regs.iter().position(|g| g.as_ref().map_or(false, |g| g.key == e.key)) {
                let g = self.regs[i].as_mut().unwrap();
                if told[i] || !g.may(e) {
                    mc::fail(format!("the event {e:?} for source {i}, which is {g:?} ({:#x} now)", self.src[i].mask()));
                }
                told[i] = true;
                if g.mode == PollMode::Oneshot {
                    g.armed = false;
                }
                continue;
            }
            match self.hands.iter().position(|h| h.as_ref().map_or(false, |h| h.key == e.key)) {
                None => mc::fail(format!("the event {e:?}, with a key nothing has")),
                Some(i) => {
                    let h = self.hands[i].as_mut().unwrap();
                    let twice = hands[i] && h.mode == PollMode::Oneshot;
                    if twice || !h.armed() || !h.had || (e.readable, e.writable) != (h.int.r, h.int.w) {
                        mc::fail(format!("the event {e:?} for object {i}, which is {h:?}"));
                    }
                    hands[i] = true;
                    h.owed = false;
                    if h.mode == PollMode::Oneshot {
                        h.int = NO;
                    }
                }
            }
        }
        // Is anything still on its way?
        let quiet = win::queued() == 0;
        self.left = !quiet;
        for i in 0..self.regs.len() {
            let m = self.src[i].mask();
            let g = match &mut self.regs[i] {
                None => continue,
                Some(g) => g,
            };
            if told[i] || !g.due(m) {
                g.missed = 0;
            } else {
                g.missed += 1;
                // One wait to learn of a change, if it may not sleep; and while others fill the container.
                let late = if brief { g.grace } else { (n > 0 && g.grace > 0) as usize } + many;
                if g.missed > late {
                    mc::fail(format!("source {i}, which is {g:?}, was not reported ({m:#x} now)"));
                }
            }
            if told[i] || quiet {
                if g.missed == 0 {
                    g.grace = 0;
                }
                g.settle(m);
            }
        }
        if quiet && !self.posted.is_empty() {
            mc::fail(format!("posted, but not delivered: {:?}", self.posted));
        }
        for i in 0..self.hands.len() {
            let idle = quiet && win::due() == 0;
            if let Some(h) = &mut self.hands[i] {
                if idle {
                    h.had = win::is_signaled(self.obj[i]);
                    if h.owed && h.armed() {
                        mc::fail(format!("the signal of object {i}, which is {h:?}, was taken and not reported"));
                    }
                } else {
                    h.had |= self.sig[i];
                }
            }
        }
    }
    /// The poller goes; nothing of it stays.
    fn end(&mut self) {
        self.regs.iter_mut().for_each(|g| *g = None);
        self.hands.iter_mut().for_each(|h| *h = None);
        self.posted.clear();
        (self.notified, self.left) = (false, false);
        self.po = None;
        let (polls, waits) = win::busy();
        if polls + waits > 0 && win::due() == 0 {
            mc::fail(format!("the poller is gone; {polls} polls and {waits} waits of it go on"));
        }
        win::run_due();
    }
}
pub fn sequences(setup: &Setup, alphabet: &[Op], depth: usize) {
    let fds = open_fds();
    let src: Vec<Source> = setup.kinds.iter().map(|&k| Source::new(k)).collect();
    win::layered(setup.layered);
    win::eager(true);
    let mut w = World {
        po: Some(new_poller(Variant::Plain)),
        evs: Events::with_capacity(NonZeroUsize::new(setup.cap).unwrap()),
        old: vec![],
        obj: setup.objects.iter().map(|&a| win::object(a)).collect(),
        sig: vec![false; setup.objects.len()],
        regs: vec![None; src.len()],
        hands: vec![None; setup.objects.len()],
        src,
        posted: vec![],
        last: None,
        notified: false,
        left: false,
        more: vec![],
        crowd: 0,
        n: 0,
        setup: setup.clone(),
    };
    for &op in &setup.pre {
        if !w.step(op) {
            mc::fail(format!("the preparation {op:?} cannot be done"));
        }
    }
    for _ in 0..depth {
        let op = alphabet[mc::choose(alphabet.len())];
        if !w.step(op) {
            mc::abandon();
        }
    }
    w.step(Op::Wait(20_000_000));
    w.step(Op::Wait(0));
    w.step(Op::Wait(3_500_001));
    if w.n > 0 {
        mc::nontrivial();
    }
    mc::count("events", w.n);
    w.end();
    w.last = None;
    for s in std::mem::take(&mut w.more) {
        s.close();
    }
    for s in &w.src {
        s.close();
    }
    if open_fds() != fds {
        mc::fail("handles are left open");
    }
    win::eager(false);
}

// ------------------------------------------------------------------ threads
/// Objects are registered, changed, removed and signaled, packets posted, by several threads while
/// others wait; a thread of the pool runs the callbacks. The results are those of some order, and
/// what is reported is what that order allows.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    Add(usize, Int, PollMode),
    Mod(usize, Int, PollMode),
    Del(usize),
    Set(usize),
    Unset(usize),
    Post,
    Notify,
    Wait,
    /// At most this long (ns).
    WaitT(u64),
}
#[derive(Clone, Debug)]
struct Call {
    op: T,
    key: usize,
    inv: u64,
    ret: u64,
    res: Option<Result<(), ErrorKind>>,
}
#[derive(Clone, Debug)]
struct Waited {
    th: usize,
    inv: u64,
    ret: u64,
    evs: Vec<Event>,
    /// It may have found another thread waiting.
    early: bool,
}
const OPEN: u64 = u64::MAX;
struct Sh {
    po: Poller,
    obj: Vec<*mut std::ffi::c_void>,
    clock: Cell<u64>,
    keys: Cell<usize>,
    calls: RefCell<Vec<Call>>,
    waits: RefCell<Vec<Waited>>,
    /// When an object became signaled or not.
    hist: RefCell<Vec<(usize, u64, bool)>>,
    done: Cell<bool>,
}
impl Sh {
    fn tick(&self) -> u64 {
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }
    fn run(&self, th: usize, op: T) {
        match op {
            T::Set(o) | T::Unset(o) => {
                mc::point(mc::Op::kernel_act());
                let on = matches!(op, T::Set(_));
                self.hist.borrow_mut().push((o, self.tick(), on));
                mc::log(|| format!("{op:?}"));
                win::set(self.obj[o], on);
                return;
            }
            T::Wait => return self.wait(th, None),
            T::WaitT(ns) => return self.wait(th, Some(ns)),
            _ => {}
        }
        let key = self.keys.get() + 1;
        self.keys.set(key);
        mc::point(mc::Op::begin());
        let i = {
            let mut v = self.calls.borrow_mut();
            v.push(Call { op, key, inv: self.tick(), ret: OPEN, res: None });
            v.len() - 1
        };
        mc::log(|| format!("{op:?} key {key}"));
        let r = match op {
            T::Add(o, int, m) => unsafe { self.po.add_waitable(self.obj[o], int.event(key), m) },
            T::Mod(o, int, m) => self.po.modify_waitable(bh(self.obj[o]), int.event(key), m),
            T::Del(o) => self.po.remove_waitable(bh(self.obj[o])),
            T::Post => self.po.post(CompletionPacket::new(Event::readable(key))),
            _ => self.po.notify(),
        };
        mc::log(|| format!("{op:?} key {key} -> {r:?}"));
        let mut v = self.calls.borrow_mut();
        v[i].ret = self.tick();
        v[i].res = Some(r.map_err(|e| e.kind()));
    }
    fn wait(&self, th: usize, to: Option<u64>) {
        mc::point(mc::Op::begin());
        let mut evs = Events::with_capacity(NonZeroUsize::new(8).unwrap());
        let t0 = mc::now();
        let i = {
            let mut v = self.waits.borrow_mut();
            v.push(Waited { th, inv: self.tick(), ret: OPEN, evs: vec![], early: false });
            v.len() - 1
        };
        mc::log(|| format!("wait({to:?})"));
        let r = self.po.wait(&mut evs, to.map(Duration::from_nanos));
        let mut v = self.waits.borrow_mut();
        v[i].ret = self.tick();
        v[i].evs = evs.iter().collect();
        mc::log(|| format!("wait({to:?}) -> {r:?} {:?}", v[i].evs));
        match r {
            Ok(n) if n == v[i].evs.len() => v[i].early = n == 0 && to.map_or(true, |t| mc::now() - t0 < t as u128),
            r => mc::fail(format!("wait gave {r:?}")),
        }
    }
    /// Which calls may have been the last to take effect on this object?
    fn orders(&self, o: usize) -> Vec<Option<Call>> {
        let v: Vec<Call> = self
            .calls
            .borrow()
            .iter()
            .filter(|c| matches!(c.op, T::Add(x, ..) | T::Mod(x, ..) | T::Del(x) if x == o))
            .cloned()
            .collect();
        let mut out: Vec<Option<usize>> = vec![];
        fn go(v: &[Call], done: u32, st: Option<usize>, out: &mut Vec<Option<usize>>) {
            if done == (1u32 << v.len()) - 1 {
                if !out.contains(&st) {
                    out.push(st);
                }
                return;
            }
            for i in 0..v.len() {
                if done & 1 << i != 0 || (0..v.len()).any(|j| done & 1 << j == 0 && j != i && v[j].ret < v[i].inv) {
                    continue;
                }
                let (want, next) = match (v[i].op, st) {
                    (T::Add(..), Some(_)) => (Err(ErrorKind::AlreadyExists), st),
                    (T::Mod(..), None) => (Err(ErrorKind::NotFound), st),
                    (T::Del(_), _) => (Ok(()), None),
                    _ => (Ok(()), Some(i)),
                };
                if v[i].res.map_or(true, |r| r == want) {
                    go(v, done | 1 << i, next, out);
                }
            }
        }
        go(&v, 0, None, &mut out);
        if out.is_empty() {
            mc::fail(format!("no order of the calls on object {o} explains their results: {v:?}"));
        }
        out.into_iter().map(|i| i.map(|i| v[i].clone())).collect()
    }
    /// Is an event due if this is what is registered?
    fn armed(&self, c: &Option<Call>) -> bool {
        match c {
            None => false,
            Some(c) => match c.op {
                T::Add(_, int, m) | T::Mod(_, int, m) => (int.r || int.w) && (m == PollMode::Level || !self.told(c.key)),
                _ => false,
            },
        }
    }
    fn told(&self, key: usize) -> bool {
        self.waits.borrow().iter().any(|w| w.evs.iter().any(|e| e.key == key))
    }
    fn events(&self) {
        let calls = self.calls.borrow();
        for w in self.waits.borrow().iter() {
            for e in &w.evs {
                let a = match calls.iter().find(|c| c.key == e.key) {
                    None => mc::fail(format!("event {e:?} with a key nothing has")),
                    Some(a) => a,
                };
                let (o, int, m) = match a.op {
                    T::Add(o, i, m) | T::Mod(o, i, m) => (o, i, m),
                    _ => continue,
                };
                if a.inv > w.ret || matches!(a.res, Some(Err(_))) || (e.readable, e.writable) != (int.r, int.w) {
                    mc::fail(format!("event {e:?} for {a:?}"));
                }
                let on = |c: &Call| matches!(c.op, T::Add(x, ..) | T::Mod(x, ..) | T::Del(x) if x == o);
                if let Some(b) = calls.iter().find(|b| on(b) && b.res == Some(Ok(())) && a.ret < b.inv && b.ret < w.inv) {
                    mc::fail(format!("event {e:?} is stale: {b:?} came before the wait"));
                }
                let h = self.hist.borrow();
                let first = calls.iter().filter(|c| on(c) && matches!(c.op, T::Add(..))).map(|c| c.inv).min().unwrap_or(0);
                let before = h.iter().rev().find(|x| x.0 == o && x.1 < first).map_or(false, |x| x.2);
                if !before && !h.iter().any(|x| x.0 == o && x.2 && x.1 > first && x.1 < w.ret) {
                    mc::fail(format!("event {e:?} for an object that was not signaled"));
                }
                if m == PollMode::Oneshot && self.waits.borrow().iter().flat_map(|w| &w.evs).filter(|x| x.key == e.key).count() > 1 {
                    mc::fail(format!("two events for one oneshot registration (key {})", e.key));
                }
            }
        }
        for c in calls.iter().filter(|c| c.op == T::Post) {
            let n = self.waits.borrow().iter().flat_map(|w| &w.evs).filter(|e| e.key == c.key).count();
            if n > 1 {
                mc::fail(format!("the packet {} was delivered {n} times", c.key));
            }
        }
        for c in calls.iter().filter(|c| matches!(c.op, T::Post | T::Notify)) {
            if c.ret != OPEN && c.res != Some(Ok(())) {
                mc::fail(format!("{c:?}"));
            }
        }
        // Empty returns need a notification each, or another thread that waits.
        let v = self.waits.borrow();
        let alone = |x: &&Waited| x.early && !v.iter().any(|y| y.th != x.th && y.inv < x.ret && y.ret > x.inv);
        let mut early: Vec<&Waited> = v.iter().filter(alone).collect();
        early.sort_by_key(|w| w.ret);
        for (i, w) in early.iter().enumerate() {
            if calls.iter().filter(|c| c.op == T::Notify && c.inv < w.ret).count() < i + 1 {
                mc::fail(format!("wait returned with nothing before its time: {w:?}"));
            }
        }
    }
}
pub fn threads(objects: &[bool], before: &[T], ths: &[Vec<T>]) {
    let fds = open_fds();
    win::eager(false);
    let sh = Rc::new(Sh {
        po: new_poller(Variant::Plain),
        obj: objects.iter().map(|&a| win::object(a)).collect(),
        clock: Cell::new(0),
        keys: Cell::new(100),
        calls: Default::default(),
        waits: Default::default(),
        hist: Default::default(),
        done: Cell::new(false),
    });
    for &c in before {
        sh.run(0, c);
    }
    let pool = mc::spawn("pool", win::pool);
    let mut ids = vec![];
    for (i, t) in ths.iter().enumerate() {
        let (t, sh) = (t.clone(), sh.clone());
        ids.push(mc::spawn(&format!("T{}", i + 1), move || {
            for c in t {
                if !sh.done.get() {
                    sh.run(i + 1, c);
                }
            }
        }));
    }
    let stuck: Vec<usize> = mc::quiesce().into_iter().filter(|&t| t != pool).collect();
    let asleep = sh.waits.borrow().iter().filter(|w| w.ret == OPEN).count();
    if asleep != stuck.len() || asleep > 1 {
        mc::fail(format!("{} threads are stuck, {asleep} of them in wait", stuck.len()));
    }
    sh.events();
    let finals: Vec<Vec<Option<Call>>> = (0..objects.len()).map(|o| sh.orders(o)).collect();
    if asleep > 0 {
        for (o, f) in finals.iter().enumerate() {
            if !f.iter().all(|c| sh.armed(c)) {
                continue;
            }
            let now = win::is_signaled(sh.obj[o]);
            let calls = sh.calls.borrow();
            let weak = |c: &Call| match c.op {
                T::Del(x) => x == o,
                T::Add(x, i, _) | T::Mod(x, i, _) => x == o && !i.r && !i.w,
                _ => false,
            };
            let never = !sh.waits.borrow().iter().flat_map(|w| &w.evs).any(|e| {
                calls.iter().any(|c| c.key == e.key && matches!(c.op, T::Add(x, ..) | T::Mod(x, ..) if x == o))
            });
            // A signal that was taken has to be reported, if there always was interest.
            let taken = objects[o] && never && !calls.iter().any(weak) && sh.hist.borrow().iter().any(|h| h.0 == o && h.2);
            let unset = sh.hist.borrow().iter().any(|h| h.0 == o && !h.2);
            if now || taken && !unset {
                mc::fail(format!("object {o} is signaled, it was asked for, and a wait sleeps: {f:?}"));
            }
        }
        for c in sh.calls.borrow().iter().filter(|c| c.op == T::Post && !sh.told(c.key)) {
            mc::fail(format!("a wait sleeps though the packet {} was posted", c.key));
        }
        for c in sh.calls.borrow().iter().filter(|c| c.op == T::Notify) {
            if !sh.waits.borrow().iter().any(|w| w.ret != OPEN && w.ret > c.inv) {
                mc::fail("a notification was lost: a wait sleeps");
            }
        }
    }
    sh.done.set(true);
    if asleep > 0 {
        sh.run(0, T::Notify);
        if mc::quiesce().iter().any(|&t| t != pool) {
            mc::fail("the final notification did not wake the sleeping wait");
        }
    }
    for t in ids {
        mc::join(t);
    }
    // What is left? Every packet that was not delivered yet; every object, once it is signaled.
    for o in 0..objects.len() {
        sh.hist.borrow_mut().push((o, sh.tick(), true));
        win::set(sh.obj[o], true);
    }
    let live: Vec<Vec<bool>> = finals.iter().map(|f| f.iter().map(|c| sh.armed(c)).collect()).collect();
    let n = sh.waits.borrow().len();
    sh.run(0, T::Notify);
    for _ in 0..4 {
        sh.run(0, T::WaitT(5_000_000));
        mc::quiesce();
    }
    sh.events();
    let last: Vec<usize> = sh.waits.borrow()[n..].iter().flat_map(|w| &w.evs).map(|e| e.key).collect();
    for c in sh.calls.borrow().iter().filter(|c| c.op == T::Post && !sh.told(c.key)) {
        mc::fail(format!("the packet {} is not delivered", c.key));
    }
    for (o, f) in finals.iter().enumerate() {
        let mut keys: Vec<usize> = sh
            .calls
            .borrow()
            .iter()
            .filter(|c| last.contains(&c.key) && matches!(c.op, T::Add(x, ..) | T::Mod(x, ..) if x == o))
            .map(|c| c.key)
            .collect();
        keys.dedup();
        let fits = |(c, live): (&Option<Call>, &bool)| match (c, live) {
            (Some(c), true) => keys == [c.key],
            _ => keys.is_empty(),
        };
        if !f.iter().zip(&live[o]).any(fits) {
            mc::fail(format!("in the end object {o} is reported with keys {keys:?}; the results allow {f:?}"));
        }
    }
    mc::observe(last.iter().fold(sh.waits.borrow().len() as u64, |h, &k| h.wrapping_mul(31).wrapping_add(k as u64)));
    mc::nontrivial();
    for o in 0..objects.len() {
        sh.run(0, T::Del(o));
    }
    mc::quiesce();
    match Rc::try_unwrap(sh) {
        Ok(sh) => drop(sh),
        Err(_) => mc::fail("a thread still has the poller"),
    }
    mc::quiesce();
    let (polls, waits) = win::busy();
    if polls + waits > 0 {
        mc::fail(format!("the poller is gone; {polls} polls and {waits} waits of it go on"));
    }
    if open_fds() != fds {
        mc::fail("handles are left open");
    }
}
