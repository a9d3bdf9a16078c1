//! kqueue's other filters: signals, processes, timers. Every sequence over an alphabet, against a
//! model of what is registered and what has happened. The kernel is the simulated one.
use crate::seq::{open_fds, NO, R};
use crate::sys::*;
use mcstd::{kq, mc, sysc::Sys};
use polling::os::kqueue::{PollerKqueueExt, Process, ProcessOps, Signal, Timer};
use polling::{Event, Events, PollMode, Poller};
use std::cell::Cell;
use std::io::{self, ErrorKind};
use std::num::{NonZeroI32, NonZeroUsize};
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    Sig(i32),
    /// A process and what it is watched for.
    Proc(i32, ProcessOps),
    /// An id and a time (ns).
    Timer(usize, u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add(F, usize, PollMode),
    Mod(F, usize, PollMode),
    Del(F),
    /// While the kernel has no memory.
    AddErr(F, usize, PollMode),
    /// The signal arrives; the process does this.
    Signal(i32),
    Does(i32, ProcessOps),
    /// A descriptor whose number is 5, to tell from signal 5, process 5, timer 5.
    AddFd(usize),
    DelFd,
    Feed,
    Notify,
    /// At most this long (ns).
    Wait(u64),
    Sleep(u64),
}
fn note(o: ProcessOps) -> u32 {
    match o {
        ProcessOps::Exit => 0x8000_0000,
        ProcessOps::Fork => 0x4000_0000,
        _ => 0x2000_0000,
    }
}
fn same(a: F, b: F) -> bool {
    match (a, b) {
        (F::Sig(x), F::Sig(y)) => x == y,
        (F::Proc(x, _), F::Proc(y, _)) => x == y,
        (F::Timer(x, _), F::Timer(y, _)) => x == y,
        _ => false,
    }
}
#[derive(Clone, Debug)]
struct Reg {
    f: F,
    key: usize,
    mode: PollMode,
    /// The kernel watches it.
    alive: bool,
    /// It has something to report.
    due: bool,
    /// When a timer fires next.
    at: u128,
}
impl Reg {
    fn new(f: F, key: usize, mode: PollMode) -> Reg {
        let mut r = Reg { f, key, mode, alive: true, due: false, at: u128::MAX };
        r.start();
        r
    }
    fn start(&mut self) {
        if let F::Timer(_, ns) = self.f {
            self.at = mc::now() + ns as u128;
            self.due = false;
        }
    }
    fn ready(&self) -> bool {
        self.alive && (self.due || self.at <= mc::now())
    }
}
struct W {
    po: Poller,
    evs: Events,
    regs: Vec<Reg>,
    living: Vec<i32>,
    src: Source,
    fd: Option<usize>,
    notified: bool,
    n: u64,
}
fn call<X: FnMut(&Poller) -> io::Result<()>>(po: &Poller, mut f: X) -> io::Result<()> {
    f(po)
}
impl W {
    fn add(&self, f: F, key: usize, mode: PollMode) -> io::Result<()> {
        match f {
            F::Sig(s) => self.po.add_filter(Signal(s), key, mode),
            F::Proc(p, o) => self.po.add_filter(unsafe { Process::from_pid(NonZeroI32::new(p).unwrap(), o) }, key, mode),
            F::Timer(id, ns) => self.po.add_filter(&Timer { id, timeout: Duration::from_nanos(ns) }, key, mode),
        }
    }
    fn modify(&self, f: F, key: usize, mode: PollMode) -> io::Result<()> {
        match f {
            F::Sig(s) => self.po.modify_filter(&Signal(s), key, mode),
            F::Proc(p, o) => self.po.modify_filter(unsafe { Process::from_pid(NonZeroI32::new(p).unwrap(), o) }, key, mode),
            F::Timer(id, ns) => self.po.modify_filter(Timer { id, timeout: Duration::from_nanos(ns) }, key, mode),
        }
    }
    fn delete(&self, f: F) -> io::Result<()> {
        match f {
            F::Sig(s) => self.po.delete_filter(Signal(s)),
            F::Proc(p, o) => self.po.delete_filter(unsafe { Process::from_pid(NonZeroI32::new(p).unwrap(), o) }),
            F::Timer(id, ns) => self.po.delete_filter(Timer { id, timeout: Duration::from_nanos(ns) }),
        }
    }
    fn gone(&self, f: F) -> bool {
        matches!(f, F::Proc(p, _) if !self.living.contains(&p))
    }
    fn step(&mut self, op: Op) -> bool {
        mc::log(|| format!("{op:?}"));
        let at = |f: F| self.regs.iter().position(|r| same(r.f, f));
        match op {
            Op::Add(f, key, mode) => {
                let r = self.add(f, key, mode);
                if at(f).is_some() {
                    self.verdict(op, r, Err(ErrorKind::AlreadyExists));
                } else if self.gone(f) {
                    self.refused(op, r);
                } else {
                    self.verdict(op, r, Ok(()));
                    self.regs.push(Reg::new(f, key, mode));
                }
            }
            Op::AddErr(f, key, mode) => {
                if at(f).is_some() || self.gone(f) {
                    return false;
                }
                mc::set_fault(Some(Box::new(|s, _| (s == Sys::KqChange).then_some(ENOMEM))));
                let r = self.add(f, key, mode);
                mc::set_fault(None);
                self.refused(op, r);
            }
            Op::Mod(f, key, mode) => {
                let i = match at(f) {
                    None => {
                        let r = self.modify(f, key, mode);
                        self.verdict(op, r, Err(ErrorKind::NotFound));
                        return true;
                    }
                    Some(i) => i,
                };
                // The mode of a live filter is fixed; whether an unreported event survives is the kernel's affair.
                if self.regs[i].alive && (self.regs[i].mode != mode || self.regs[i].due && self.regs[i].f != f) {
                    return false;
                }
                let r = self.modify(f, key, mode);
                if !self.regs[i].alive && self.gone(f) {
                    self.refused(op, r);
                    return true;
                }
                self.verdict(op, r, Ok(()));
                let due = self.regs[i].alive && self.regs[i].due;
                self.regs[i] = Reg::new(f, key, mode);
                self.regs[i].due = due;
            }
            Op::Del(f) => {
                let r = self.delete(f);
                match at(f) {
                    None => self.verdict(op, r, Err(ErrorKind::NotFound)),
                    Some(i) => {
                        self.verdict(op, r, Ok(()));
                        self.regs.remove(i);
                    }
                }
            }
            Op::Signal(s) => {
                kq::signal(s as usize);
                for r in self.regs.iter_mut().filter(|r| r.f == F::Sig(s)) {
                    r.due |= r.alive;
                }
            }
            Op::Does(p, o) => {
                if !self.living.contains(&p) {
                    return false;
                }
                kq::process(p as usize, note(o));
                for r in self.regs.iter_mut().filter(|r| r.f == F::Proc(p, o)) {
                    r.due |= r.alive;
                }
                if o == ProcessOps::Exit {
                    self.living.retain(|&x| x != p);
                }
            }
            Op::AddFd(key) => {
                let r = unsafe { self.po.add_with_mode(self.src.fd, Event::readable(key), PollMode::Level) };
                let want = if self.fd.is_some() { Err(ErrorKind::AlreadyExists) } else { Ok(()) };
                self.verdict(op, r, want);
                self.fd = self.fd.or(Some(key));
            }
            Op::DelFd => {
                let r = self.po.delete(bfd(self.src.fd));
                let want = if self.fd.is_some() { Ok(()) } else { Err(ErrorKind::NotFound) };
                self.verdict(op, r, want);
                self.fd = None;
            }
            Op::Feed => {
                self.src.act(Act::Feed);
            }
            Op::Notify => {
                if let Err(e) = self.po.notify() {
                    mc::fail(format!("notify failed: {e}"));
                }
                self.notified = true;
            }
            Op::Sleep(n) => mc::sleep(Duration::from_nanos(n)),
            Op::Wait(n) => self.wait(n),
        }
        true
    }
    fn refused(&self, op: Op, r: io::Result<()>) {
        mc::log(|| format!("  -> {r:?}"));
        if r.is_ok() || matches!(&r, Err(e) if matches!(e.kind(), ErrorKind::AlreadyExists)) {
            mc::fail(format!("{op:?}: the kernel refused it, the result is {r:?}"));
        }
    }
    fn verdict(&self, op: Op, r: io::Result<()>, want: Result<(), ErrorKind>) {
        mc::log(|| format!("  -> {r:?}"));
        if r.as_ref().map(|_| ()).map_err(|e| e.kind()) != want {
            mc::fail(format!("{op:?} gave {r:?}; expected {want:?}"));
        }
    }
    fn wait(&mut self, ns: u64) {
        let t0 = mc::now();
        let fd_due = self.fd.is_some() && self.src.mask() & POLLIN != 0;
        let next = if self.notified || fd_due || self.regs.iter().any(|r| r.ready()) {
            t0
        } else {
            self.regs.iter().filter(|r| r.alive).map(|r| r.at).min().unwrap_or(u128::MAX).min(t0 + ns as u128)
        };
        self.evs.clear();
        let n = match self.po.wait(&mut self.evs, Some(Duration::from_nanos(ns))) {
            Ok(n) => n,
            Err(e) => mc::fail(format!("wait failed: {e}")),
        };
        let got: Vec<Event> = self.evs.iter().collect();
        mc::log(|| format!("  -> {n} after {} ns: {got:?}", mc::now() - t0));
        if mc::now() != next {
            mc::fail(format!("wait({ns} ns) returned after {} ns; expected {}", mc::now() - t0, next - t0));
        }
        let mut want: Vec<(usize, bool, bool)> = vec![];
        if fd_due {
            want.push((self.fd.unwrap(), true, false));
        }
        for r in self.regs.iter_mut().filter(|r| r.ready()) {
            want.push((r.key, true, false));
            r.due = false;
            match r.f {
                F::Timer(_, every) => {
                    while r.at <= mc::now() {
                        r.at += every as u128;
                    }
                }
                F::Proc(p, ProcessOps::Exit) if !self.living.contains(&p) => r.alive = false,
                _ => {}
            }
            if matches!(r.mode, PollMode::Oneshot | PollMode::EdgeOneshot) {
                r.alive = false;
            }
        }
        let mut have: Vec<(usize, bool, bool)> = got.iter().map(|e| (e.key, e.readable, e.writable)).collect();
        have.sort();
        want.sort();
        self.n += n as u64;
        if n != got.len() || have != want {
            mc::fail(format!("wait gave {n}: {have:?}; expected {want:?} (key, readable, writable)"));
        }
        self.notified = false;
    }
}

pub fn sequences(pre: &[Op], alphabet: &[Op], depth: usize) {
    let fds = open_fds();
    let mut src = Source::new(Kind::PipeR);
    let po = new_poller(Variant::Plain);
    let evs = Events::with_capacity(NonZeroUsize::new(32).unwrap());
    // A number that signals, processes and timers have as well.
    let free = (4..64).find(|&n| n != src.peer && (n == src.fd || mcstd::sysc::raw_fcntl(n, 1, 0) < 0)).unwrap();
    if src.fd != free {
        src.move_to(free);
    }
    let living = vec![free, 4242];
    for &p in &living {
        kq::process_start(p as usize);
    }
    let mut w = W { po, evs, regs: vec![], living, src, fd: None, notified: false, n: 0 };
    // `5` in the alphabet stands for that number.
    let put = |op: Op| -> Op {
        let s = |f: F| match f {
            F::Sig(5) => F::Sig(free),
            F::Proc(5, o) => F::Proc(free, o),
            F::Timer(5, n) => F::Timer(free as usize, n),
            f => f,
        };
        match op {
            Op::Add(f, k, m) => Op::Add(s(f), k, m),
            Op::Mod(f, k, m) => Op::Mod(s(f), k, m),
            Op::AddErr(f, k, m) => Op::AddErr(s(f), k, m),
            Op::Del(f) => Op::Del(s(f)),
            Op::Signal(5) => Op::Signal(free),
            Op::Does(5, o) => Op::Does(free, o),
            op => op,
        }
    };
    for &op in pre {
        w.step(put(op));
    }
    for _ in 0..depth {
        let op = alphabet[mc::choose(alphabet.len())];
        if !w.step(put(op)) {
            mc::abandon();
        }
    }
    w.step(Op::Wait(0));
    w.step(Op::Wait(20_000_000));
    // Everything deregistered: quiet.
    for f in w.regs.iter().map(|r| r.f).collect::<Vec<_>>() {
        w.step(Op::Del(f));
    }
    if w.fd.is_some() {
        w.step(Op::DelFd);
    }
    kq::signal(free as usize);
    w.step(Op::Wait(0));
    w.step(Op::Wait(20_000_000));
    if w.n > 0 {
        mc::nontrivial();
    }
    mc::count("events", w.n);
    w.src.close();
    drop(w);
    if open_fds() != fds {
        mc::fail("descriptors left open");
    }
}

/// Threads that register, change and remove one filter; a wait may be in progress. In the end the
/// results are those of some order, and what that order leaves behind is what is reported.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C {
    Add,
    Mod,
    Del,
    Fire,
    Wait,
}
pub fn threads(f: F, before: &[C], ths: &[Vec<C>]) {
    let po = Rc::new(new_poller(Variant::Plain));
    if let F::Proc(p, _) = f {
        kq::process_start(p as usize);
    }
    // (op, key, invoked, returned, result)
    type Rec = (C, usize, u64, u64, Option<Result<(), ErrorKind>>);
    let recs: Rc<std::cell::RefCell<Vec<Rec>>> = Default::default();
    let got: Rc<std::cell::RefCell<Vec<usize>>> = Default::default();
    let clock = Rc::new(Cell::new(0u64));
    let run = {
        let (po, recs, got, clock) = (po.clone(), recs.clone(), got.clone(), clock.clone());
        move |c: C, key: usize| {
            let tick = || {
                clock.set(clock.get() + 1);
                clock.get()
            };
            match c {
                C::Wait => {
                    mc::point(mc::Op::begin());
                    let mut evs = Events::with_capacity(NonZeroUsize::new(8).unwrap());
                    match po.wait(&mut evs, Some(Duration::from_millis(1))) {
                        Ok(_) => got.borrow_mut().extend(evs.iter().map(|e| e.key)),
                        Err(e) => mc::fail(format!("wait failed: {e}")),
                    }
                    mc::log(|| format!("wait -> {:?}", got.borrow()));
                }
                C::Fire => {
                    mc::point(mc::Op::kernel_act());
                    mc::log(|| "fire".into());
                    match f {
                        F::Sig(s) => kq::signal(s as usize),
                        F::Proc(p, o) => kq::process(p as usize, note(o)),
                        _ => {}
                    }
                }
                _ => {
                    mc::point(mc::Op::begin());
                    let inv = tick();
                    let i = {
                        let mut v = recs.borrow_mut();
                        v.push((c, key, inv, u64::MAX, None));
                        v.len() - 1
                    };
                    let m = PollMode::Level;
                    let r = call(&po, |po| match f {
                        F::Sig(s) => match c {
                            C::Add => po.add_filter(Signal(s), key, m),
                            C::Mod => po.modify_filter(Signal(s), key, m),
                            _ => po.delete_filter(Signal(s)),
                        },
                        F::Proc(p, o) => {
                            let x = unsafe { Process::from_pid(NonZeroI32::new(p).unwrap(), o) };
                            match c {
                                C::Add => po.add_filter(x, key, m),
                                C::Mod => po.modify_filter(x, key, m),
                                _ => po.delete_filter(x),
                            }
                        }
                        F::Timer(id, ns) => {
                            let x = Timer { id, timeout: Duration::from_nanos(ns) };
                            match c {
                                C::Add => po.add_filter(x, key, m),
                                C::Mod => po.modify_filter(x, key, m),
                                _ => po.delete_filter(x),
                            }
                        }
                    });
                    mc::log(|| format!("{c:?} key {key} -> {r:?}"));
                    let mut v = recs.borrow_mut();
                    v[i].3 = tick();
                    v[i].4 = Some(r.map_err(|e| e.kind()));
                }
            }
        }
    };
    let mut key = 100;
    for &c in before {
        key += 1;
        run(c, key);
    }
    let mut ids = vec![];
    for (i, t) in ths.iter().enumerate() {
        let (t, run) = (t.clone(), run.clone());
        ids.push(mc::spawn(&format!("T{}", i + 1), move || {
            for (j, c) in t.into_iter().enumerate() {
                run(c, 200 + 10 * i + j);
            }
        }));
    }
    for t in ids {
        mc::join(t);
    }
    // All orders that explain the results.
    let v = recs.borrow().clone();
    let mut finals: Vec<Option<usize>> = vec![];
    fn go(v: &[Rec], done: u32, st: Option<usize>, out: &mut Vec<Option<usize>>) {
        if done == (1u32 << v.len()) - 1 {
            if !out.contains(&st) {
                out.push(st);
            }
            return;
        }
        for i in 0..v.len() {
            if done & 1 << i != 0 || (0..v.len()).any(|j| done & 1 << j == 0 && j != i && v[j].3 < v[i].2) {
                continue;
            }
            let (want, next) = match (v[i].0, st) {
                (C::Add, None) => (Ok(()), Some(v[i].1)),
                (C::Add, _) => (Err(ErrorKind::AlreadyExists), st),
                (C::Mod, Some(_)) => (Ok(()), Some(v[i].1)),
                (C::Del, Some(_)) => (Ok(()), None),
                (_, s) => (Err(ErrorKind::NotFound), s),
            };
            if v[i].4 == Some(want) {
                go(v, done | 1 << i, next, out);
            }
        }
    }
    go(&v, 0, None, &mut finals);
    if finals.is_empty() {
        mc::fail(format!("no order of the calls explains their results: {v:?}"));
    }
    for k in got.borrow().iter() {
        if !v.iter().any(|r| r.1 == *k && r.4 == Some(Ok(()))) {
            mc::fail(format!("an event with key {k}, under which nothing was ever registered"));
        }
    }
    // What is left?
    let mut evs = Events::with_capacity(NonZeroUsize::new(8).unwrap());
    let _ = po.wait(&mut evs, Some(Duration::ZERO));
    run(C::Fire, 0);
    evs.clear();
    if let Err(e) = po.wait(&mut evs, Some(Duration::from_millis(50))) {
        mc::fail(format!("wait failed: {e}"));
    }
    let left: Vec<usize> = evs.iter().map(|e| e.key).collect();
    let want: Vec<Vec<usize>> = finals.iter().map(|f| f.iter().copied().collect()).collect();
    mc::log(|| format!("left: {left:?}"));
    if !want.contains(&left) {
        mc::fail(format!("in the end keys {left:?} are reported; the results allow {want:?}"));
    }
    mc::observe(left.first().copied().unwrap_or(0) as u64);
    mc::nontrivial();
    let _ = (NO, R);
}
