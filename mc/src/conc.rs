//! Small concurrent programs over one poller: every schedule within the bounds, judged by the
//! history of calls (what was invoked and returned when, with which result) and the final state.
use crate::seq::Int;
use crate::sys::*;
use mcstd::mc::{self, Op};
use mcstd::sysc::Sys;
use polling::{Event, Events, PollMode, Poller};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::io::ErrorKind;
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C {
    Notify,
    /// wait without a timeout
    Wait,
    /// wait with a timeout (ns)
    WaitT(u64),
    Add(usize, Int, PollMode),
    Mod(usize, Int, PollMode),
    Del(usize),
    Act(usize, Act),
    /// Sleep this long (ns).
    Pause(u64),
    /// Make another poller, use it and drop it.
    Fresh,
    /// What an outer event loop does: wait on the poller that watches this one's descriptor, then
    /// take what this one has.
    Outer,
    /// Wait n times; after each event read everything and re-arm that source.
    Serve(usize, Int, PollMode),
}
#[derive(Clone)]
pub struct Prog {
    pub variant: Variant,
    pub kinds: Vec<Kind>,
    pub pre: Vec<C>,
    pub threads: Vec<Vec<C>>,
    pub cap: usize,
    /// Time moves only while everybody sleeps: then no wait may be late.
    pub timed: bool,
    /// How many waits the kernel may refuse.
    pub faults: u32,
    /// How many notifications it may refuse (from one thread only: what another thread relies
    /// on meanwhile is the notification that is under way).
    pub nfaults: u32,
    /// So many signals come one after the other as soon as a thread waits.
    pub storm: u32,
    /// Nobody empties the containers.
    pub dirty: bool,
    /// Another poller watches this one's descriptor, in this mode.
    pub outer: Option<PollMode>,
}
impl Prog {
    pub fn new(variant: Variant, kinds: &[Kind], pre: &[C], threads: &[&[C]]) -> Prog {
        Prog {
            variant,
            kinds: kinds.to_vec(),
            pre: pre.to_vec(),
            threads: threads.iter().map(|t| t.to_vec()).collect(),
            cap: 8,
            timed: false,
            faults: 0,
            nfaults: 0,
            storm: 0,
            dirty: false,
            outer: None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum RK {
    Add,
    Mod,
    Del,
}
#[derive(Clone, Debug)]
struct RegOp {
    src: usize,
    kind: RK,
    key: usize,
    int: Int,
    mode: PollMode,
    inv: u64,
    ret: u64,
    res: Option<Result<(), ErrorKind>>,
}
#[derive(Clone, Debug)]
struct WaitRec {
    th: usize,
    inv: u64,
    ret: u64,
    t_inv: u128,
    t_ret: u128,
    to: Option<u64>,
    n: usize,
    evs: Vec<Event>,
    /// Another thread sat in its wait all along.
    trivial: bool,
    /// The kernel refused.
    failed: bool,
    /// It waited on the outer poller.
    outer: bool,
    done: bool,
}
#[derive(Clone, Debug)]
struct NotRec {
    inv: u64,
    ret: u64,
    /// The kernel refused.
    failed: bool,
}
const OPEN: u64 = u64::MAX;

struct Ctx {
    outer: Option<Poller>,
    poller: Poller,
    prog: Prog,
    src: RefCell<Vec<Source>>,
    clock: Cell<u64>,
    ops: RefCell<Vec<RegOp>>,
    waits: RefCell<Vec<WaitRec>>,
    nots: RefCell<Vec<NotRec>>,
    masks: RefCell<Vec<Vec<(u64, i16)>>>,
    keys: Cell<usize>,
    stop: Cell<bool>,
    /// The thread that is in `notify()` and may be refused; and whether it was.
    notifying: Rc<Cell<Option<usize>>>,
    refused: Rc<Cell<bool>>,
}
impl Ctx {
    fn tick(&self) -> u64 {
        let t = self.clock.get() + 1;
        self.clock.set(t);
        t
    }
    fn inv(&self) -> u64 {
        mc::point(Op::begin());
        self.tick()
    }
    fn ret(&self) -> u64 {
        if mc::unbounded() {
            mc::point(Op::end());
        }
        self.tick()
    }
    fn run(&self, th: usize, script: &[C]) {
        let mut events = Events::with_capacity(NonZeroUsize::new(self.prog.cap).unwrap());
        for &c in script {
            match c {
                C::Serve(n, int, mode) => {
                    for _ in 0..n {
                        if self.stop.get() {
                            break;
                        }
                        let evs = self.wait(th, &mut events, None);
                        for e in evs {
                            let s = self.ops.borrow().iter().find(|o| o.key == e.key && o.kind != RK::Del).map(|o| o.src);
                            if let Some(s) = s {
                                self.act(s, Act::Drain);
                                self.reg(RK::Mod, s, int, mode);
                            }
                        }
                    }
                }
                C::Wait => {
                    self.wait(th, &mut events, None);
                }
                C::WaitT(n) => {
                    self.wait(th, &mut events, Some(n));
                }
                C::Outer => self.outside(th, &mut events),
                _ => self.simple(c),
            }
        }
    }
    fn simple(&self, c: C) {
        match c {
            C::Notify => self.notify(),
            C::Add(s, i, m) => self.reg(RK::Add, s, i, m),
            C::Mod(s, i, m) => self.reg(RK::Mod, s, i, m),
            C::Del(s) => self.reg(RK::Del, s, crate::seq::NO, PollMode::Oneshot),
            C::Act(s, a) => self.act(s, a),
            C::Pause(n) => mc::sleep(Duration::from_nanos(n)),
            C::Fresh => self.fresh(),
            _ => unreachable!(),
        }
    }
    fn fresh(&self) {
        let p = new_poller(self.prog.variant);
        let mut evs = Events::with_capacity(NonZeroUsize::new(4).unwrap());
        mc::log(|| "another poller: add, wait, notify, wait".into());
        let s = Source::new(if WIN { Kind::Sock } else { Kind::PipeW });
        if let Err(e) = unsafe { p.add(rfd(s.fd), Event::writable(1)) } {
            mc::fail(format!("the other poller: add failed: {e}"));
        }
        match p.wait(&mut evs, None) {
            Ok(1) if evs.iter().all(|e| e.key == 1) => {}
            r => mc::fail(format!("the other poller: a ready source, yet {r:?} {:?}", evs.iter().collect::<Vec<_>>())),
        }
        let t0 = mc::now();
        evs.clear();
        match p.wait(&mut evs, Some(Duration::from_nanos(5))) {
            Ok(0) if mc::now() - t0 >= 5 => {}
            r => mc::fail(format!("the other poller: wait(5 ns) gave {r:?} after {} ns", mc::now() - t0)),
        }
        if let Err(e) = p.notify() {
            mc::fail(format!("the other poller: notify failed: {e}"));
        }
        match p.wait(&mut evs, None) {
            Ok(0) => {}
            r => mc::fail(format!("the other poller: a notified wait gave {r:?}")),
        }
        mc::log(|| "the other poller is dropped".into());
    }
    fn notify(&self) {
        let inv = self.inv();
        let i = {
            let mut v = self.nots.borrow_mut();
            v.push(NotRec { inv, ret: OPEN, failed: false });
            v.len() - 1
        };
        mc::log(|| "notify".into());
        if self.prog.nfaults > 0 {
            self.notifying.set(Some(mc::current()));
            self.refused.set(false);
        }
        let r = self.poller.notify();
        self.notifying.set(None);
        let ret = self.ret();
        self.nots.borrow_mut()[i].ret = ret;
        mc::log(|| format!("notify -> {r:?}"));
        match r {
            Ok(()) if !self.refused.take() => {}
            Err(e) if self.refused.take() && e.raw_os_error() == Some(ENOMEM) => self.nots.borrow_mut()[i].failed = true,
            Ok(()) => mc::fail("the kernel refused the notification, yet notify() succeeded"),
            Err(e) => mc::fail(format!("notify failed: {e}")),
        }
    }
    fn act(&self, s: usize, a: Act) {
        mc::point(Op::kernel_act());
        let did = self.src.borrow_mut()[s].act(a);
        let m = self.src.borrow()[s].mask();
        let t = self.tick();
        self.masks.borrow_mut()[s].push((t, m));
        mc::log(|| format!("{a:?} on source {s}: {did}, now {m:#x}"));
    }
    fn reg(&self, kind: RK, src: usize, int: Int, mode: PollMode) {
        let key = self.keys.get() + 1;
        self.keys.set(key);
        let fd = self.src.borrow()[src].fd;
        let inv = self.inv();
        let i = {
            let mut v = self.ops.borrow_mut();
            v.push(RegOp { src, kind, key, int, mode, inv, ret: OPEN, res: None });
            v.len() - 1
        };
        mc::log(|| format!("{kind:?} source {src} key {key} {int:?} {mode:?}"));
        let r = match kind {
            RK::Add => unsafe { self.poller.add_with_mode(rfd(fd), int.event(key), mode) },
            RK::Mod => self.poller.modify_with_mode(bfd(fd), int.event(key), mode),
            RK::Del => self.poller.delete(bfd(fd)),
        };
        let ret = self.ret();
        mc::log(|| format!("{kind:?} source {src} key {key} -> {r:?}"));
        let mut v = self.ops.borrow_mut();
        v[i].ret = ret;
        v[i].res = Some(r.map_err(|e| e.kind()));
    }
    /// One round of an event loop around this poller counts as one wait on it.
    fn outside(&self, th: usize, events: &mut Events) {
        let i = self.invoke(th, None, true);
        let o = self.outer.as_ref().unwrap();
        events.clear();
        mc::log(|| "outer wait".into());
        let r = o.wait(events, None);
        mc::log(|| format!("outer wait -> {r:?}"));
        match r {
            Ok(1) if events.iter().all(|e| e.key == 900 && e.readable) => {}
            r => mc::fail(format!("the outer poller reported {r:?} {:?}", events.iter().collect::<Vec<_>>())),
        }
        if self.prog.outer == Some(PollMode::Oneshot) {
            watch_on(o, &self.poller, 900);
        }
        events.clear();
        let r = self.poller.wait(events, Some(Duration::ZERO));
        let ret = self.ret();
        let evs: Vec<Event> = events.iter().collect();
        mc::log(|| format!("inner wait -> {r:?} {evs:?}"));
        match r {
            Ok(n) if n == evs.len() => {}
            r => mc::fail(format!("wait returned {r:?} but the container has {} events", evs.len())),
        }
        let mut v = self.waits.borrow_mut();
        v[i].ret = ret;
        v[i].t_ret = mc::now();
        v[i].n = evs.len();
        v[i].evs = evs;
        v[i].done = true;
    }
    fn invoke(&self, th: usize, to: Option<u64>, outer: bool) -> usize {
        let inv = self.inv();
        let mut v = self.waits.borrow_mut();
        v.push(WaitRec {
            th, inv, ret: OPEN, t_inv: mc::now(), t_ret: 0, to, n: 0, evs: vec![], trivial: false, failed: false, outer, done: false,
        });
        v.len() - 1
    }
    fn wait(&self, th: usize, events: &mut Events, to: Option<u64>) -> Vec<Event> {
        let i = self.invoke(th, to, false);
        // Whoever sits in a wait now, and still does when this one returns, left it nothing to do.
        let held = mc::other_kernel_blocked()
            .and_then(|t| self.waits.borrow().iter().position(|w| w.th == t && !w.done && !w.outer));
        let mut old = vec![];
        if self.prog.dirty {
            old = events.iter().collect();
        } else {
            events.clear();
        }
        mc::log(|| format!("wait({to:?})"));
        let r = self.poller.wait(events, to.map(Duration::from_nanos));
        let ret = self.ret();
        let mut evs: Vec<Event> = events.iter().collect();
        mc::log(|| format!("wait({to:?}) -> {r:?} {evs:?}"));
        let mut failed = false;
        let n = match r {
            Ok(n) => n,
            Err(e) if self.prog.faults > 0 && e.raw_os_error() == Some(ENOMEM) => {
                failed = true;
                0
            }
            Err(e) => mc::fail(format!("wait failed: {e} ({:?})", e.kind())),
        };
        if self.prog.dirty && !failed {
            evs = new_events(&old, evs, n);
        }
        if n != evs.len() {
            mc::fail(format!("wait returned {n} but the container has {} events", evs.len()));
        }
        let mut v = self.waits.borrow_mut();
        v[i].ret = ret;
        v[i].t_ret = mc::now();
        v[i].n = n;
        v[i].failed = failed;
        v[i].evs = evs.clone();
        v[i].trivial = held.map_or(false, |h| !v[h].done);
        v[i].done = true;
        evs
    }
    /// The union of what the kernel said about a source at some time in [a, b].
    fn window(&self, s: usize, a: u64, b: u64) -> Vec<i16> {
        let h = &self.masks.borrow()[s];
        let mut v = vec![];
        let mut last = 0;
        for &(t, m) in h {
            if t < a {
                last = m;
            } else if t <= b {
                v.push(m);
            }
        }
        v.push(last);
        v
    }
    /// All final states consistent with the results (None: no order explains them).
    fn linearize(&self, s: usize) -> Option<Vec<Option<RegOp>>> {
        let ops: Vec<RegOp> = self.ops.borrow().iter().filter(|o| o.src == s).cloned().collect();
        let mut finals: Vec<Option<usize>> = vec![];
        fn go(ops: &[RegOp], done: u32, st: Option<usize>, out: &mut Vec<Option<usize>>) {
            if done == (1u32 << ops.len()) - 1 {
                if !out.contains(&st) {
                    out.push(st);
                }
                return;
            }
            for i in 0..ops.len() {
                if done & (1 << i) != 0 {
                    continue;
                }
                if (0..ops.len()).any(|j| done & (1 << j) == 0 && j != i && ops[j].ret < ops[i].inv) {
                    continue;
                }
                let o = &ops[i];
                let bad_mode = o.kind != RK::Del
                    && match o.mode {
                        PollMode::Edge | PollMode::EdgeOneshot => POLL_BACKEND || PORTS || WIN,
                        PollMode::Level => PORTS,
                        _ => false,
                    };
                let (want, next): (Vec<Result<(), ErrorKind>>, Option<usize>) = match (o.kind, st) {
                    // Event ports keep no list: everything succeeds.
                    (RK::Add | RK::Mod, _) if PORTS && !bad_mode => (vec![Ok(())], Some(i)),
                    (RK::Del, _) if PORTS => (vec![Ok(())], None),
                    (RK::Add | RK::Mod, _) if WIN && bad_mode => (vec![Err(ErrorKind::InvalidInput)], st),
                    (RK::Del, None) if WIN => (vec![Ok(())], st),
                    (RK::Add, None) if bad_mode => (vec![Err(ErrorKind::Unsupported)], st),
                    (RK::Add, None) => (vec![Ok(())], Some(i)),
                    (RK::Add, Some(_)) if bad_mode => {
                        (vec![Err(ErrorKind::Unsupported), Err(ErrorKind::AlreadyExists)], st)
                    }
                    (RK::Add, Some(_)) => (vec![Err(ErrorKind::AlreadyExists)], st),
                    (RK::Mod, Some(_)) if bad_mode => (vec![Err(ErrorKind::Unsupported)], st),
                    (RK::Mod, Some(_)) => (vec![Ok(())], Some(i)),
                    (RK::Mod, None) if bad_mode => {
                        (vec![Err(ErrorKind::Unsupported), Err(ErrorKind::NotFound)], st)
                    }
                    (RK::Mod, None) => (vec![Err(ErrorKind::NotFound)], st),
                    (RK::Del, Some(_)) => (vec![Ok(())], None),
                    (RK::Del, None) => (vec![Err(ErrorKind::NotFound)], st),
                };
                if o.res.as_ref().map_or(true, |r| want.contains(r)) {
                    go(ops, done | 1 << i, next, out);
                }
            }
        }
        go(&ops, 0, None, &mut finals);
        if finals.is_empty() {
            None
        } else {
            Some(finals.into_iter().map(|f| f.map(|i| ops[i].clone())).collect())
        }
    }

    // ------------------------------------------------------------ the rules
    fn judge(&self, stuck: &[usize], names: &[String]) {
        let waits = self.waits.borrow().clone();
        let nots = self.nots.borrow().clone();
        let ops = self.ops.borrow().clone();
        // Whoever is stuck is stuck in wait, and it is one thread.
        let open: Vec<&WaitRec> = waits.iter().filter(|w| !w.done).collect();
        if open.len() != stuck.len() {
            mc::fail(format!(
                "blocked for ever outside wait: {:?}",
                stuck.iter().map(|&t| names[t].clone()).collect::<Vec<_>>()
            ));
        }
        if open.len() > 1 {
            mc::fail("two threads are blocked in wait at the same time");
        }
        // Results of registration changes, per source.
        for s in 0..self.prog.kinds.len() {
            let finals = match self.linearize(s) {
                Some(f) => f,
                None => {
                    let v: Vec<_> = ops.iter().filter(|o| o.src == s).map(|o| (o.kind, o.key, o.inv, o.ret, o.res)).collect();
                    mc::fail(format!("no order of the calls on source {s} explains their results: {v:?}"))
                }
            };
            // A ready source with live interest, and a waiter that sleeps.
            if let Some(w) = open.first() {
                let m = self.src.borrow()[s].mask();
                let owed = |f: &Option<RegOp>| match f {
                    None => false,
                    Some(o) => {
                        let (r, wr) = o.int.must(m);
                        let got = |d: Option<bool>| {
                            let mut evs = waits.iter().filter(|w| w.done).flat_map(|w| &w.evs);
                            evs.any(|e| e.key == o.key && d.map_or(true, |d| e.readable == d))
                        };
                        if KQ {
                            let level = o.mode == PollMode::Level;
                            return r && (level || !got(Some(true))) || wr && (level || !got(Some(false)));
                        }
                        (r || wr) && (o.mode == PollMode::Level || !got(None))
                    }
                };
                if finals.iter().all(owed) {
                    mc::fail(format!(
                        "source {s} is ready ({m:#x}) under {:?}, yet the wait invoked at {} by thread {} sleeps",
                        finals.iter().map(|f| f.as_ref().map(|o| o.key)).collect::<Vec<_>>(), w.inv, w.th
                    ));
                }
            }
        }
        // Events.
        for w in waits.iter().filter(|w| w.done) {
            let mut seen = BTreeSet::new();
            for e in &w.evs {
                if !seen.insert((e.key, KQ && e.readable)) {
                    mc::fail(format!("one wait reported key {} twice", e.key));
                }
                let a = match ops.iter().find(|o| o.kind != RK::Del && o.key == e.key) {
                    Some(a) => a,
                    None => mc::fail(format!("event {e:?} with a key nobody registered")),
                };
                if !(a.inv < w.ret) || matches!(a.res, Some(Err(_))) {
                    mc::fail(format!("event {e:?} from a registration that failed or was not requested yet"));
                }
                if let Some(b) = ops.iter().find(|b| {
                    b.src == a.src && b.key != a.key && b.res == Some(Ok(())) && a.ret < b.inv && b.ret < w.inv
                }) {
                    mc::fail(format!(
                        "event {e:?} is stale: {:?} (key {}) had replaced it before the wait was invoked",
                        b.kind, b.key
                    ));
                }
                if ops.iter().filter(|o| o.src == a.src).all(|o| o.ret < w.inv) {
                    let finals = self.linearize(a.src).unwrap_or_default();
                    if !finals.iter().any(|f| f.as_ref().map_or(false, |f| f.key == a.key)) {
                        mc::fail(format!(
                            "event {e:?}: after all calls on source {} had returned, this registration could not be the one in force",
                            a.src
                        ));
                    }
                }
                // A completion may have been on its way for long.
                let win = self.window(a.src, if WIN { 0 } else { w.inv }, w.ret);
                let (mut r, mut wr) = (false, false);
                for m in win {
                    let (x, y) = a.int.may(m);
                    r |= x;
                    // kqueue: the end of the file shows in the read event.
                    wr |= y || KQ && x && m & (POLLHUP | POLLERR | POLLRDHUP) != 0;
                }
                if e.readable && !r || e.writable && !wr || !e.readable && !e.writable {
                    mc::fail(format!("event {e:?} on source {}: at no time during the wait was it so", a.src));
                }
            }
        }
        for o in ops.iter().filter(|o| o.kind != RK::Del) {
            let evs: Vec<&Event> = waits.iter().flat_map(|w| &w.evs).filter(|e| e.key == o.key).collect();
            let r = evs.iter().filter(|e| e.readable).count();
            let k = if KQ { r.max(evs.len() - r) } else { evs.len() };
            if k > 1 && matches!(o.mode, PollMode::Oneshot | PollMode::EdgeOneshot) {
                mc::fail(format!("{k} events for one oneshot registration (key {})", o.key));
            }
        }
        // Empty returns before the deadline need a notification each (or another waiter).
        let overlap = |x: &WaitRec| {
            waits.iter().any(|y| y.th != x.th && y.inv < x.ret && (!y.done || y.ret > x.inv))
        };
        let mut early: Vec<&WaitRec> = waits
            .iter()
            .filter(|w| w.done && !w.failed && !w.outer && w.n == 0 && !overlap(w))
            .filter(|w| w.to.map_or(true, |t| w.t_ret - w.t_inv < t as u128))
            .collect();
        early.sort_by_key(|w| w.ret);
        for (i, w) in early.iter().enumerate() {
            let have = nots.iter().filter(|n| n.inv < w.ret).count();
            if have < i + 1 {
                mc::fail(format!(
                    "{} waits returned with nothing before their time, but there were only {have} notifications",
                    i + 1
                ));
            }
        }
        // Late returns (only where time moves by itself).
        if self.prog.timed {
            for w in waits.iter().filter(|w| w.done) {
                if let Some(t) = w.to {
                    if w.t_ret - w.t_inv > t as u128 + 1_000_000 {
                        mc::fail(format!("wait({t} ns) took {} ns", w.t_ret - w.t_inv));
                    }
                }
            }
        }
        // A notification nobody got.
        if let Some(w) = open.first() {
            for n in &nots {
                if n.ret == OPEN || n.failed {
                    continue;
                }
                let got = waits.iter().any(|x| x.done && !x.failed && !x.trivial && x.ret > n.inv);
                if !got {
                    mc::fail(format!(
                        "a notification (invoked at {}, returned at {}) was lost: thread {} still sleeps in the wait it invoked at {}",
                        n.inv, n.ret, w.th, w.inv
                    ));
                }
            }
        }
        let mut h = 0u64;
        for w in &waits {
            h = h.wrapping_mul(31).wrapping_add(w.th as u64 * 7 + w.done as u64 + 3 * w.n as u64);
            for e in &w.evs {
                h = h.wrapping_mul(131).wrapping_add(e.key as u64 * 4 + e.readable as u64 * 2 + e.writable as u64);
            }
        }
        for o in &ops {
            h = h.wrapping_mul(37).wrapping_add(match o.res {
                Some(Ok(())) => 1,
                Some(Err(_)) => 2,
                None => 3,
            });
        }
        mc::observe(h);
        if waits.iter().any(|w| w.done) {
            mc::nontrivial();
        }
    }
}

fn set_up(prog: &Prog, keys: usize) -> Rc<Ctx> {
    let poller = new_poller(prog.variant);
    let src: Vec<Source> = prog.kinds.iter().map(|&k| Source::new(k)).collect();
    let masks = src.iter().map(|s| vec![(0, s.mask())]).collect();
    let outer = prog.outer.map(|m| watched(prog.variant, &poller, 900, m));
    Rc::new(Ctx {
        outer,
        poller,
        prog: prog.clone(),
        src: RefCell::new(src),
        clock: Cell::new(0),
        ops: RefCell::new(vec![]),
        waits: RefCell::new(vec![]),
        nots: RefCell::new(vec![]),
        masks: RefCell::new(masks),
        keys: Cell::new(keys),
        stop: Cell::new(false),
        notifying: Default::default(),
        refused: Default::default(),
    })
}
fn inject(ctx: &Ctx) {
    let prog = &ctx.prog;
    if prog.faults > 0 {
        let left = Cell::new(prog.faults);
        mc::set_fault(Some(Box::new(move |s, _| {
            if !matches!(s, Sys::EpollWait | Sys::Poll | Sys::KqWait) || left.get() == 0 || mc::choose(2) == 0 {
                return None;
            }
            left.set(left.get() - 1);
            mc::log(|| "the kernel refuses to wait (ENOMEM)".into());
            Some(ENOMEM)
        })));
    }
    if prog.storm > 0 {
        let left = Cell::new(prog.storm);
        mc::set_fault(Some(Box::new(move |s, _| {
            if !matches!(s, Sys::EpollWait | Sys::Poll | Sys::KqWait) || left.get() == 0 {
                return None;
            }
            left.set(left.get() - 1);
            Some(EINTR)
        })));
    }
    if prog.nfaults > 0 {
        let left = Cell::new(prog.nfaults);
        let (notifying, refused) = (ctx.notifying.clone(), ctx.refused.clone());
        mc::set_fault(Some(Box::new(move |s, _| {
            if !matches!(s, Sys::Write | Sys::KqPost) || notifying.get() != Some(mc::current()) || left.get() == 0 || mc::choose(2) == 0 {
                return None;
            }
            left.set(left.get() - 1);
            refused.set(true);
            mc::log(|| "the kernel refuses the notification (ENOMEM)".into());
            Some(ENOMEM)
        })));
    }
}
pub fn run(prog: &Prog) {
    run_all(std::slice::from_ref(prog))
}
/// One program on each of several pollers, all at the same time.
pub fn run_all(progs: &[Prog]) {
    order_of_tables(progs.iter().map(|p| p.kinds.len()).max().unwrap_or(0));
    let ctxs: Vec<Rc<Ctx>> = progs.iter().enumerate().map(|(i, p)| set_up(p, 100 + 400 * i)).collect();
    for ctx in &ctxs {
        for &c in &ctx.prog.pre {
            match c {
                C::WaitT(_) | C::Outer => ctx.run(0, &[c]),
                _ => ctx.simple(c),
            }
        }
    }
    let mut names = vec!["main".to_string()];
    let mut ids = vec![];
    for (ctx, l) in ctxs.iter().zip(["T", "U", "V"]) {
        inject(ctx);
        let mut own = vec![];
        for (i, t) in ctx.prog.threads.iter().enumerate() {
            let name = format!("{l}{}", i + 1);
            names.push(name.clone());
            let c = ctx.clone();
            let script = t.clone();
            own.push(mc::spawn(&name, move || c.run(i + 1, &script)));
        }
        ids.push(own);
    }
    let stuck = mc::quiesce();
    mc::set_fault(None);
    for (ctx, ids) in ctxs.iter().zip(&ids) {
        let stuck: Vec<usize> = stuck.iter().copied().filter(|t| ids.contains(t)).collect();
        ctx.judge(&stuck, &names);
    }
    // Let whoever sleeps go: each notification must release exactly that wait.
    let done = |c: &Ctx| c.waits.borrow().iter().filter(|w| w.done).count();
    for (ctx, own) in ctxs.iter().zip(&ids) {
        let others = || -> Vec<usize> { ctxs.iter().filter(|c| !Rc::ptr_eq(c, ctx)).map(|c| done(c)).collect() };
        let had = others();
        ctx.stop.set(true);
        for _ in 0..64 {
            if own.iter().all(|&t| mc::is_done(t)) {
                break;
            }
            let before = done(ctx);
            ctx.notify();
            let stuck = mc::quiesce();
            if done(ctx) == before && stuck.iter().any(|t| own.contains(t)) {
                mc::fail("the final notification did not wake the sleeping wait");
            }
        }
        if others() != had {
            mc::fail("the notification of one poller ended a wait on another one");
        }
    }
    for t in ids.into_iter().flatten() {
        mc::join(t);
    }
    for ctx in &ctxs {
        still_works(ctx);
    }
}
fn still_works(ctx: &Ctx) {
    // The poller still works: a notification ends the next wait, once.
    let mut events = Events::with_capacity(NonZeroUsize::new(64).unwrap());
    let drain = |events: &mut Events| {
        for s in 0..ctx.prog.kinds.len() {
            if let Some(f) = ctx.linearize(s) {
                if f.iter().any(|f| f.is_some()) {
                    let _ = ctx.poller.delete(bfd(ctx.src.borrow()[s].fd));
                }
            }
        }
        events.clear();
    };
    drain(&mut events);
    if let Err(e) = ctx.poller.notify() {
        mc::fail(format!("notify failed: {e}"));
    }
    match ctx.poller.wait(&mut events, None) {
        Ok(0) => {}
        r => mc::fail(format!("a notified wait on an empty poller gave {r:?}")),
    }
    events.clear();
    let t0 = mc::now();
    match ctx.poller.wait(&mut events, Some(Duration::from_millis(2))) {
        Ok(0) if mc::now() - t0 >= 2_000_000 => {}
        Ok(0) => mc::fail(format!("the notification was not used up: the next wait ended after {} ns", mc::now() - t0)),
        r => mc::fail(format!("a wait on an empty poller gave {r:?}")),
    }
    // And it still serves a source.
    let mut s = Source::new(Kind::PipeR);
    if let Err(e) = unsafe { ctx.poller.add(rfd(s.fd), Event::readable(1)) } {
        mc::fail(format!("add after the history failed: {e}"));
    }
    s.act(Act::Feed);
    events.clear();
    match ctx.poller.wait(&mut events, None) {
        Ok(1) => {}
        r => mc::fail(format!("a ready source was not reported after the history: {r:?}")),
    }
    if let Err(e) = ctx.poller.delete(bfd(s.fd)) {
        mc::fail(format!("delete after the history failed: {e}"));
    }
}
