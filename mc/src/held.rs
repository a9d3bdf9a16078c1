//! What a poller holds on to. Every sequence of operations over an alphabet is gone through again
//! and again: the memory and the descriptors in use may depend on what is registered and how much
//! of it there is, but they must not grow with the number of rounds; and nothing remains of a
//! poller that is gone.
use crate::seq::Int;
use crate::sys::*;
use mcstd::sysc::{self, Sys};
use mcstd::{heap, mc};
#[cfg(any(mcbk = "freebsd", mcbk = "netbsd"))]
use polling::os::kqueue::{PollerKqueueExt, Signal, Timer};
use polling::{Event, Events, PollMode, Poller};
use std::alloc::{GlobalAlloc, Layout, System};
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::time::Duration;

/// The allocator: it remembers what counted code allocated and has not freed.
pub struct Books;
const SLOTS: usize = 1 << 14;
static mut LIVE: [(usize, usize); SLOTS] = [(0, 0); SLOTS];
static mut BLOCKS: usize = 0;
static mut BYTES: usize = 0;
static mut FULL: bool = false;

fn home(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 50
}
#[allow(static_mut_refs)]
unsafe fn note(p: *mut u8, n: usize) {
    if p.is_null() {
        return;
    }
    if BLOCKS > SLOTS / 2 {
        FULL = true;
        return;
    }
    let mut i = home(p as usize);
    while LIVE[i].0 != 0 {
        i = (i + 1) % SLOTS;
    }
    LIVE[i] = (p as usize, n);
    BLOCKS += 1;
    BYTES += n;
}
/// Whether it was there.
#[allow(static_mut_refs)]
unsafe fn gone(p: *mut u8) -> bool {
    if BLOCKS == 0 {
        return false;
    }
    let mut i = home(p as usize);
    while LIVE[i].0 != p as usize {
        if LIVE[i].0 == 0 {
            return false;
        }
        i = (i + 1) % SLOTS;
    }
    BLOCKS -= 1;
    BYTES -= LIVE[i].1;
    LIVE[i] = (0, 0);
    // Those behind move up.
    let mut j = (i + 1) % SLOTS;
    while LIVE[j].0 != 0 {
        let h = home(LIVE[j].0);
        if (j.wrapping_sub(h)) % SLOTS >= (j.wrapping_sub(i)) % SLOTS {
            LIVE[i] = LIVE[j];
            LIVE[j] = (0, 0);
            i = j;
        }
        j = (j + 1) % SLOTS;
    }
    true
}
unsafe impl GlobalAlloc for Books {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if heap::counting() {
            note(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if heap::counting() {
            note(p, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gone(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let was = gone(p);
        let q = System.realloc(p, l, n);
        if q.is_null() {
            if was {
                note(p, l.size());
            }
        } else if was || heap::counting() {
            note(q, n);
        }
        q
    }
}
#[allow(static_mut_refs)]
pub fn start() {
    unsafe {
        LIVE.fill((0, 0));
        (BLOCKS, BYTES, FULL) = (0, 0, false);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Held {
    pub blocks: usize,
    pub bytes: usize,
    /// Packets that wait at completion ports, operations and waits that are going on.
    pub system: usize,
    pub descriptors: usize,
}
#[cfg(mcbk = "windows")]
fn system() -> usize {
    let (a, b) = mcstd::win::busy();
    mcstd::win::queued() + mcstd::win::handles() + a + b
}
#[cfg(not(mcbk = "windows"))]
fn system() -> usize {
    0
}
pub fn held() -> Held {
    // Those below 1024; the explorer's own are above.
    let mut all: Vec<sysc::pollfd> = (0..fd_limit().min(1024) as i32).map(|fd| sysc::pollfd { fd, events: 0, revents: 0 }).collect();
    if sysc::raw_poll(&mut all) < 0 {
        mc::fail("harness: cannot look at the descriptors");
    }
    let descriptors = all.iter().filter(|p| p.revents & sysc::POLLNVAL == 0).count();
    unsafe {
        if FULL {
            mc::fail("more than 8000 pieces of memory are held");
        }
        Held { blocks: BLOCKS, bytes: BYTES, system: system(), descriptors }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add(usize, usize, Int, PollMode),
    Mod(usize, usize, Int, PollMode),
    Del(usize),
    Act(usize, Act),
    Notify,
    /// Room for this many events, at most this long (ns).
    Wait(usize, u64),
    /// Another poller comes and goes.
    Other,
    /// The same, with a source, and notified.
    OtherUsed,
    /// The system refuses this during the next step.
    No(Sys),
    /// A signal interrupts the next one of these.
    Signal(Sys),
    /// All sources.
    AddAll(Int, PollMode),
    ModAll(Int, PollMode),
    DelAll,
    ActAll(Act),
    /// Signals and timers; waitable objects.
    AddX(usize, usize, PollMode),
    ModX(usize, usize, PollMode),
    DelX(usize),
    Set(usize),
    Unset(usize),
    /// The thread pool does what is due.
    Pool,
    Post,
}
struct World {
    v: Variant,
    src: Vec<Source>,
    #[cfg_attr(not(mcbk = "windows"), allow(dead_code))]
    obj: Vec<*mut std::ffi::c_void>,
    po: Rc<Poller>,
    evs: Vec<Events>,
    /// Calls that did what they were asked.
    worked: u64,
}
use heap::inside;
impl World {
    /// For another thread.
    fn another(&self) -> World {
        World { v: self.v, src: self.src.clone(), obj: self.obj.clone(), po: self.po.clone(), evs: vec![], worked: 0 }
    }
    fn say(&mut self, what: Op, r: std::io::Result<()>) {
        mc::log(|| format!("{what:?} {r:?}"));
        self.worked += r.is_ok() as u64;
    }
    fn step(&mut self, op: Op) -> bool {
        let (v, po) = (self.v, self.po.clone());
        let r = match op {
            Op::Add(s, key, int, m) => {
                let fd = rfd(self.src[s].fd);
                inside(|| unsafe { po.add_with_mode(fd, int.event(key), m) })
            }
            Op::Mod(s, key, int, m) => {
                let fd = bfd(self.src[s].fd);
                inside(|| po.modify_with_mode(fd, int.event(key), m))
            }
            Op::Del(s) => {
                let fd = bfd(self.src[s].fd);
                inside(|| po.delete(fd))
            }
            Op::Act(s, a) => {
                self.src[s].act(a);
                return true;
            }
            Op::Notify => inside(|| po.notify()),
            Op::Wait(cap, ns) => {
                let i = match self.evs.iter().position(|e| e.capacity().get() == cap) {
                    Some(i) => i,
                    None => {
                        let e = inside(|| Events::with_capacity(NonZeroUsize::new(cap).unwrap()));
                        self.evs.push(e);
                        self.evs.len() - 1
                    }
                };
                let e = &mut self.evs[i];
                inside(|| {
                    e.clear();
                    po.wait(e, Some(Duration::from_nanos(ns))).map(drop)
                })
            }
            Op::Other => {
                mc::set_fault(Some(Box::new(move |s, _| if v.denies(s) { Some(ENOSYS) } else { None })));
                let r = inside(Poller::new);
                mc::set_fault(None);
                inside(|| r.map(drop))
            }
            Op::OtherUsed => {
                let s = Source::new(Kind::Sock);
                mc::set_fault(Some(Box::new(move |s, _| if v.denies(s) { Some(ENOSYS) } else { None })));
                let r = inside(Poller::new);
                mc::set_fault(None);
                let r = inside(|| {
                    let p = r?;
                    unsafe { p.add(rfd(s.fd), Event::readable(1)) }?;
                    p.notify()
                });
                s.close();
                r
            }
            Op::AddAll(int, m) => {
                return (0..self.src.len()).fold(false, |ok, i| self.step(Op::Add(i, i, int, m)) || ok);
            }
            Op::ModAll(int, m) => {
                return (0..self.src.len()).fold(false, |ok, i| self.step(Op::Mod(i, 100 + i, int, m)) || ok);
            }
            Op::DelAll => return (0..self.src.len()).fold(false, |ok, i| self.step(Op::Del(i)) || ok),
            Op::ActAll(a) => {
                self.src.iter_mut().for_each(|s| drop(s.act(a)));
                return true;
            }
            Op::No(_) | Op::Signal(_) => unreachable!(),
            Op::AddX(..) | Op::ModX(..) | Op::DelX(_) | Op::Set(_) | Op::Unset(_) | Op::Pool | Op::Post => match self.extra(op) {
                Some(r) => r,
                None => return true,
            },
        };
        let ok = r.is_ok();
        self.say(op, r);
        ok
    }
    #[cfg(any(mcbk = "freebsd", mcbk = "netbsd"))]
    fn extra(&mut self, op: Op) -> Option<std::io::Result<()>> {
        let po = &self.po;
        let timer = |i| Timer { id: i, timeout: Duration::from_millis(1) };
        Some(inside(|| match op {
            Op::AddX(0, key, m) => po.add_filter(Signal(10), key, m),
            Op::ModX(0, key, m) => po.modify_filter(Signal(10), key, m),
            Op::DelX(0) => po.delete_filter(Signal(10)),
            Op::AddX(i, key, m) => po.add_filter(timer(i), key, m),
            Op::ModX(i, key, m) => po.modify_filter(timer(i), key, m),
            Op::DelX(i) => po.delete_filter(timer(i)),
            _ => unreachable!(),
        }))
    }
    #[cfg(mcbk = "windows")]
    fn extra(&mut self, op: Op) -> Option<std::io::Result<()>> {
        use mcstd::os::windows::io::BorrowedHandle;
        use polling::os::iocp::{CompletionPacket, PollerIocpExt};
        let po = &self.po;
        let o = |i: usize| self.obj[i];
        let b = |i: usize| unsafe { BorrowedHandle::borrow_raw(o(i)) };
        Some(match op {
            Op::AddX(i, key, m) => inside(|| unsafe { po.add_waitable(o(i), Event::readable(key), m) }),
            Op::ModX(i, key, m) => inside(|| po.modify_waitable(b(i), Event::readable(key), m)),
            Op::DelX(i) => inside(|| po.remove_waitable(b(i))),
            Op::Post => inside(|| po.post(CompletionPacket::new(Event::readable(77)))),
            Op::Set(i) => {
                mcstd::win::set(o(i), true);
                return None;
            }
            Op::Unset(i) => {
                mcstd::win::set(o(i), false);
                return None;
            }
            Op::Pool => {
                mcstd::win::run_due();
                return None;
            }
            _ => unreachable!(),
        })
    }
    #[cfg(not(any(mcbk = "freebsd", mcbk = "netbsd", mcbk = "windows")))]
    fn extra(&mut self, _: Op) -> Option<std::io::Result<()>> {
        unreachable!()
    }
    fn steps(&mut self, ops: &[Op]) {
        let mut no = None;
        for &op in ops {
            if let Op::No(_) | Op::Signal(_) = op {
                no = Some(op);
                continue;
            }
            match no.take() {
                Some(Op::No(s)) => mc::set_fault(Some(Box::new(move |x, _| (x == s).then_some(ENOMEM)))),
                Some(Op::Signal(s)) => {
                    let mut once = true;
                    mc::set_fault(Some(Box::new(move |x, _| (x == s && std::mem::take(&mut once)).then_some(EINTR))))
                }
                _ => {}
            }
            self.step(op);
            mc::set_fault(None);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub variant: Variant,
    pub kinds: Vec<Kind>,
    pub pre: Vec<Op>,
    /// Ends every round.
    pub post: Vec<Op>,
    /// How many rounds at first, then as many once more, then twice as many.
    pub rounds: usize,
}
pub fn rounds(setup: &Setup, alphabet: &[Op], depth: usize) {
    order_of_tables(setup.kinds.len());
    let ops: Vec<Op> = (0..depth).map(|_| alphabet[mc::choose(alphabet.len())]).collect();
    // Refusing nothing.
    if ops.iter().enumerate().any(|(i, o)| matches!(o, Op::No(_) | Op::Signal(_)) && matches!(ops.get(i + 1), None | Some(Op::No(_) | Op::Signal(_) | Op::Act(..)))) {
        mc::abandon();
    }
    start();
    let before = rehearse(setup, &[&ops]);
    let mut w = world(setup);
    w.steps(&setup.pre);
    let mut at = vec![];
    for n in [setup.rounds, setup.rounds, 2 * setup.rounds] {
        for _ in 0..n {
            w.steps(&ops);
            w.steps(&setup.post);
        }
        let h = held();
        mc::log(|| format!("{h:?}"));
        at.push(h);
    }
    type Part = (&'static str, fn(&Held) -> usize);
    let parts: [Part; 4] = [
        ("pieces of memory", |h| h.blocks),
        ("bytes", |h| h.bytes),
        ("operations of the system", |h| h.system),
        ("descriptors", |h| h.descriptors),
    ];
    for (what, f) in parts {
        if f(&at[0]) < f(&at[1]) && f(&at[1]) < f(&at[2]) {
            let r = setup.rounds;
            mc::fail(format!(
                "{what}: {} after {r} rounds of {ops:?}, {} after {}, {} after {}",
                f(&at[0]), f(&at[1]), 2 * r, f(&at[2]), 4 * r
            ));
        }
    }
    let worked = w.worked;
    nothing_left(before, w);
    mc::count("calls repeated", worked);
    if worked > 0 {
        mc::nontrivial();
    }
    mc::observe(at[2].bytes as u64 ^ (at[2].blocks as u64) << 32);
}
/// Once through all of it with another poller: what is made at its first use and kept for good is
/// no poller's.
fn rehearse(setup: &Setup, parts: &[&[Op]]) -> Held {
    let mut w = world(setup);
    w.steps(&setup.pre);
    parts.iter().for_each(|p| w.steps(p));
    w.steps(&setup.post);
    let h = over(w);
    mc::rebranch();
    h
}
fn world(setup: &Setup) -> World {
    World {
        v: setup.variant,
        src: setup.kinds.iter().map(|&k| Source::new(k)).collect(),
        #[cfg(mcbk = "windows")]
        obj: (0..2).map(|i| mcstd::win::object(i == 1)).collect(),
        #[cfg(not(mcbk = "windows"))]
        obj: vec![],
        po: Rc::new(inside(|| new_poller(setup.variant))),
        evs: vec![],
        worked: 0,
    }
}
/// The poller goes, and the sources.
fn over(w: World) -> Held {
    let World { src, po, evs, .. } = w;
    let po = match Rc::try_unwrap(po) {
        Ok(p) => p,
        Err(_) => mc::fail("harness: a thread still has the poller"),
    };
    inside(|| drop(po));
    inside(|| drop(evs));
    #[cfg(mcbk = "windows")]
    {
        mcstd::win::run_due();
        mc::quiesce();
    }
    for s in src {
        s.close();
    }
    held()
}
fn nothing_left(before: Held, w: World) {
    let after = over(w);
    if after != before {
        mc::fail(format!("before there was a poller {before:?}, now that it is gone {after:?}"));
    }
}
/// Threads with one poller, which goes when they are done.
pub fn together(setup: &Setup, threads: &[Vec<Op>]) {
    order_of_tables(setup.kinds.len());
    start();
    let before = rehearse(setup, &threads.iter().map(|t| &t[..]).collect::<Vec<_>>());
    let mut w = world(setup);
    w.steps(&setup.pre);
    #[cfg(mcbk = "windows")]
    mcstd::win::eager(false);
    #[cfg(mcbk = "windows")]
    mc::spawn("pool", mcstd::win::pool);
    let ids: Vec<usize> = threads
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let (t, mut w) = (t.clone(), w.another());
            mc::spawn(&format!("T{}", i + 1), move || {
                w.steps(&t);
                let World { po, evs, .. } = w;
                drop(po);
                inside(|| drop(evs));
            })
        })
        .collect();
    for t in ids {
        mc::join(t);
    }
    w.steps(&setup.post);
    let worked = w.worked;
    nothing_left(before, w);
    mc::count("calls", worked);
    mc::nontrivial();
}
