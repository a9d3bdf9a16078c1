//! The explorer: cooperative threads on their own stacks, one scheduling decision per visible
//! operation, depth-first enumeration of every decision within stated budgets, virtual time.
use crate::sysc;
use std::cell::Cell;
use std::collections::HashSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::Duration;

// ------------------------------------------------------------------ operations
/// What the next step of a thread touches: used to tell which steps commute.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    a: usize,
    b: usize,
    write: bool,
}
const KERNEL: usize = 1;
const HISTORY: usize = 2;
const ALL: usize = usize::MAX;
impl Op {
    pub const NONE: Op = Op { a: 0, b: 0, write: false };
    pub const fn obj(a: usize) -> Op {
        Op { a, b: 0, write: true }
    }
    pub const fn obj2(a: usize, b: usize) -> Op {
        Op { a, b, write: true }
    }
    pub const fn read(a: usize) -> Op {
        Op { a, b: 0, write: false }
    }
    pub const fn kernel() -> Op {
        Op::obj(KERNEL)
    }
    /// A kernel object and the history of calls.
    pub const fn kernel_act() -> Op {
        Op::obj2(KERNEL, HISTORY)
    }
    pub const fn begin() -> Op {
        Op { a: HISTORY, b: 0, write: false }
    }
    pub const fn end() -> Op {
        Op { a: HISTORY, b: 0, write: true }
    }
    pub const fn all() -> Op {
        Op::obj(ALL)
    }
    fn depends(self, o: Op) -> bool {
        if self.a == ALL || o.a == ALL {
            return true;
        }
        if !self.write && !o.write {
            return false;
        }
        let hit = |x: usize| x != 0 && (x == o.a || x == o.b);
        hit(self.a) || hit(self.b)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct PollReq {
    pub fd: i32,
    pub events: i16,
}

pub enum Block {
    /// Until the lock word reads false.
    Lock(*const Cell<bool>),
    RwRead(*const Cell<isize>),
    RwWrite(*const Cell<isize>),
    /// Until the ticket reads true, or the deadline.
    Cond(*const Cell<bool>, Option<u128>),
    /// Until the kernel says one of these is ready, or the deadline.
    Kernel(Vec<PollReq>, Option<u128>, bool),
    /// Until the deadline.
    Sleep(u128),
    /// Until this thread is done.
    Join(usize),
    /// Until nobody else can move.
    Quiesce,
}

enum Status {
    New,
    Ready,
    Blocked(Block),
    Done,
}

struct Th {
    name: String,
    status: Status,
    op: Op,
    sp: usize,
    stack: Option<Stack>,
    entry: Option<Box<dyn FnOnce()>>,
    eintr: bool,
    no_unwind: bool,
    spurious: bool,
    yielded: bool,
    steps: u64,
    kernel_blocks: u64,
    last_blocked_at: u128,
}

struct VTimer {
    fd: i32,
    deadline: Option<u128>,
    interval: u128,
}

// ------------------------------------------------------------------ options, report
#[derive(Clone, Debug)]
pub struct Opts {
    /// None: every schedule (with sleep sets); Some(n): schedules with at most n preemptions.
    pub preemptions: Option<u32>,
    /// How many times time may jump to the next deadline while somebody can still run.
    pub clock: u32,
    /// How many times, while everybody sleeps, time may stop halfway to the next deadline.
    pub half: u32,
    /// How many calls may find that what was written to a pipe has not arrived (Vita).
    pub late: u32,
    /// How many signals may interrupt blocked system calls.
    pub signals: u32,
    /// How many spurious condition-variable wake-ups.
    pub spurious: u32,
    pub max_steps: u64,
    pub max_execs: u64,
    pub max_secs: f64,
    /// Only explore this share of the tree: (index, count), split on the first decisions.
    pub shard: (u64, u64),
    pub shard_depth: usize,
    pub start_now: u128,
    /// Replay exactly these decisions instead of exploring.
    pub replay: Option<Vec<u32>>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            preemptions: Some(2),
            clock: 0,
            half: 0,
            late: 2,
            signals: 0,
            spurious: 0,
            max_steps: 4000,
            max_execs: u64::MAX,
            max_secs: 1e9,
            shard: (0, 1),
            shard_depth: 2,
            start_now: 1_000_000_000_000,
            replay: None,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub execs: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_depth: u64,
    pub outcomes: HashSet<u64>,
    pub nontrivial: u64,
    pub capped: bool,
    pub horizon_hits: u64,
    pub violation: Option<Violation>,
    pub sample: Vec<String>,
    pub sample_trail: Vec<u32>,
    pub multi: bool,
    /// The bound on preemptions under which the last execution ran: its decisions depend on it.
    pub bound: Option<u32>,
    pub counters: std::collections::BTreeMap<&'static str, u64>,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub trail: Vec<u32>,
    pub log: Vec<String>,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.execs += o.execs;
        self.pruned += o.pruned;
        self.states += o.states;
        self.transitions += o.transitions;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.outcomes.extend(o.outcomes);
        self.nontrivial += o.nontrivial;
        self.capped |= o.capped;
        self.horizon_hits += o.horizon_hits;
        if self.violation.is_none() {
            self.violation = o.violation;
        }
        if self.sample.is_empty() {
            self.sample = o.sample;
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
    }
}

struct Node {
    n: u32,
    pick: u32,
    sig: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Action {
    Run(usize),
    Advance,
    Half,
    Signal(usize),
    Spurious(usize),
    Stuck,
}

struct World {
    opts: Opts,
    preempt_bound: Option<u32>,
    threads: Vec<Th>,
    cur: usize,
    in_thread: bool,
    main_sp: usize,
    now: u128,
    timers: Vec<VTimer>,
    under_way: Vec<(i32, usize)>,
    late_used: u32,
    hash_order: u64,
    trail: Vec<Node>,
    cursor: usize,
    replaying: bool,
    preempts: u32,
    clock_used: u32,
    half_used: u32,
    sig_used: u32,
    spur_used: u32,
    sleep: Vec<usize>,
    steps: u64,
    new_steps: u64,
    new_states: u64,
    fair: bool,
    nobranch: bool,
    dying: bool,
    dying_calls: u64,
    pruned: bool,
    diverged: Option<String>,
    violation: Option<String>,
    log: Vec<String>,
    tracing: bool,
    outcome: Option<u64>,
    nontrivial: bool,
    last_panic: Option<String>,
    horizon: bool,
    fault: Option<Box<dyn FnMut(sysc::Sys, i32) -> Option<i32>>>,
    counters: std::collections::BTreeMap<&'static str, u64>,
    seen: HashSet<u64>,
    shard_seq: u64,
    eintr_delivered: u64,
    multi: bool,
    cut: bool,
    closed: Vec<i32>,
}

static mut WORLD: *mut World = std::ptr::null_mut();
#[inline]
fn w() -> Option<&'static mut World> {
    unsafe {
        if WORLD.is_null() {
            None
        } else {
            Some(&mut *WORLD)
        }
    }
}
fn wx() -> &'static mut World {
    w().expect("not inside an exploration")
}

struct Killed;

// ------------------------------------------------------------------ stacks and switching
const STACK: usize = 256 * 1024;
struct Stack {
    base: *mut u8,
}
static mut STACK_POOL: Vec<*mut u8> = Vec::new();
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
impl Stack {
    fn get() -> Stack {
        unsafe {
            #[allow(static_mut_refs)]
            if let Some(b) = STACK_POOL.pop() {
                return Stack { base: b };
            }
            let b = mmap(std::ptr::null_mut(), STACK, 3, 0x22, -1, 0);
            assert!(b as isize != -1);
            mprotect(b, 4096, 0);
            Stack { base: b }
        }
    }
}
impl Drop for Stack {
    fn drop(&mut self) {
        #[allow(static_mut_refs)]
        unsafe {
            STACK_POOL.push(self.base)
        }
    }
}

std::arch::global_asm!(
    ".global mcstd_switch",
    "mcstd_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global mcstd_entry",
    "mcstd_entry:",
    "xor ebp, ebp",
    "call {main}",
    "ud2",
    main = sym co_main,
);
extern "C" {
    fn mcstd_switch(save: *mut usize, to: usize);
    fn mcstd_entry();
}

extern "C" fn co_main() {
    {
        let me = wx().cur;
        let f = wx().threads[me].entry.take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(f));
        let w = wx();
        if let Err(e) = r {
            if !e.is::<Killed>() && w.violation.is_none() && !w.dying {
                let m = w.last_panic.take().unwrap_or_else(|| "panic".into());
                w.violation = Some(format!("panic in {}: {m}", w.threads[me].name));
            }
        }
        w.threads[me].status = Status::Done;
        w.threads[me].op = Op::all();
    }
    to_main();
    unreachable!();
}

fn to_main() {
    let w = wx();
    let cur = w.cur;
    w.in_thread = false;
    let save: *mut usize = &mut w.threads[cur].sp;
    let to = w.main_sp;
    let counting = crate::heap::set(false);
    unsafe { mcstd_switch(save, to) };
    crate::heap::set(counting);
}

fn resume(t: usize) {
    let w = wx();
    w.cur = t;
    w.in_thread = true;
    if let Status::New = w.threads[t].status {
        let st = Stack::get();
        unsafe {
            let top = (st.base as usize + STACK) & !15;
            // [rsp] = six registers, then the return address; after `ret`, rsp must be 16-aligned
            // for the `call` in mcstd_entry.
            let sp = top - 128 + 8;
            let p = sp as *mut usize;
            for i in 0..6 {
                *p.add(i) = 0;
            }
            *p.add(6) = mcstd_entry as *const () as usize;
            // after popping 6 and ret: rsp = sp + 56
            w.threads[t].sp = sp;
        }
        w.threads[t].stack = Some(st);
    }
    w.threads[t].status = Status::Ready;
    let to = w.threads[t].sp;
    let save: *mut usize = &mut w.main_sp;
    unsafe { mcstd_switch(save, to) }
    wx().in_thread = false;
}

// ------------------------------------------------------------------ what code under test calls
/// Is the caller one of the explored threads (as opposed to the explorer itself)?
#[inline]
pub fn in_thread() -> bool {
    w().map_or(false, |w| w.in_thread)
}
pub fn dying() -> bool {
    w().map_or(false, |w| w.dying)
}
pub fn hash_seed() -> u64 {
    w().map_or(0, |w| w.hash_order)
}
/// In which of two opposite orders hash tables made from here on are iterated.
pub fn set_hash_order(n: u64) {
    wx().hash_order = n;
}
pub fn now() -> u128 {
    w().map_or(0, |w| w.now)
}

/// A visible operation is about to happen.
pub fn point(op: Op) {
    if !in_thread() || std::thread::panicking() {
        return;
    }
    if wx().dying {
        killed();
    }
    yield_with(op);
    if wx().dying {
        killed();
    }
}
/// Like `point`, but code that uses atomics need not be ready to unwind there: when the execution
/// is being given up, it just goes on.
pub fn point_atomic(op: Op) {
    if !in_thread() || std::thread::panicking() {
        return;
    }
    if !wx().dying {
        yield_with(op);
    }
    if wx().dying {
        dying_call();
    }
}
/// From here on (until `false`) the calling thread cannot unwind: it is left where it stands when
/// the execution is given up.
pub fn no_unwind(on: bool) {
    let w = wx();
    let c = w.cur;
    w.threads[c].no_unwind = on;
}
fn killed() -> ! {
    let w = wx();
    let c = w.cur;
    if w.threads[c].no_unwind {
        w.threads[c].status = Status::Done;
        to_main();
    }
    resume_unwind(Box::new(Killed))
}
/// Like `point`, for places that must not unwind.
pub fn point_in_drop(op: Op) {
    if !in_thread() || std::thread::panicking() || wx().dying {
        return;
    }
    yield_with(op);
}
/// Before a system call; false: the execution is over, fail the call.
pub(crate) fn point_sys(op: Op) -> bool {
    if std::thread::panicking() {
        return true;
    }
    if wx().dying {
        return dying_call();
    }
    yield_with(op);
    if wx().dying {
        return dying_call();
    }
    true
}
fn dying_call() -> bool {
    let w = wx();
    w.dying_calls += 1;
    if w.dying_calls > 10_000 {
        // The code under test retries a failing call for ever: abandon its stack.
        let c = w.cur;
        w.threads[c].status = Status::Done;
        to_main();
    }
    false
}
fn yield_with(op: Op) {
    let w = wx();
    let c = w.cur;
    w.threads[c].op = op;
    w.threads[c].status = Status::Ready;
    to_main();
}
/// Block the calling thread. The condition is re-evaluated at every decision.
pub fn block(b: Block, op: Op) {
    if !in_thread() || std::thread::panicking() {
        panic!("mcstd: blocking outside an explored thread");
    }
    if wx().dying {
        killed();
    }
    block_inner(b, op);
    if wx().dying {
        killed();
    }
}
fn block_inner(b: Block, op: Op) {
    let w = wx();
    let c = w.cur;
    w.threads[c].op = op;
    if let Block::Kernel(..) = b {
        w.threads[c].kernel_blocks += 1;
        w.threads[c].last_blocked_at = w.now;
    }
    w.threads[c].status = Status::Blocked(b);
    to_main();
}
/// Block in a system call. Returns false if the execution is over.
pub(crate) fn block_sys(b: Block) -> bool {
    if std::thread::panicking() || wx().dying {
        return dying_call();
    }
    block_inner(b, Op::kernel());
    if wx().dying {
        return dying_call();
    }
    true
}
pub(crate) fn take_eintr() -> bool {
    let w = wx();
    let c = w.cur;
    let r = std::mem::take(&mut w.threads[c].eintr);
    if r {
        w.eintr_delivered += 1;
        count("interrupted", 1);
    }
    r
}
pub fn eintr_delivered() -> u64 {
    wx().eintr_delivered
}
pub fn yield_now() {
    if !in_thread() {
        return;
    }
    let w = wx();
    let c = w.cur;
    w.threads[c].yielded = true;
    point(Op::all());
}
pub fn sleep(d: Duration) {
    if !in_thread() {
        return std::thread::sleep(d);
    }
    let dl = now().saturating_add(d.as_nanos());
    block(Block::Sleep(dl), Op::all());
}

// virtual timers
pub(crate) fn timer_create(fd: i32) {
    let _o = crate::heap::outside();
    let w = wx();
    w.timers.retain(|t| t.fd != fd);
    w.timers.push(VTimer { fd, deadline: None, interval: 0 });
}
pub(crate) fn timer_is(fd: i32) -> bool {
    w().map_or(false, |w| w.timers.iter().any(|t| t.fd == fd))
}
pub(crate) fn timer_set(fd: i32, deadline: Option<u128>, interval: u128) {
    let w = wx();
    sysc::drain_eventfd(fd);
    if let Some(t) = w.timers.iter_mut().find(|t| t.fd == fd) {
        t.deadline = deadline;
        t.interval = interval;
    }
    fire(w);
}
pub(crate) fn timer_get(fd: i32) -> (u128, u128) {
    let w = wx();
    w.timers
        .iter()
        .find(|t| t.fd == fd)
        .map_or((0, 0), |t| (t.deadline.map_or(0, |d| d.saturating_sub(w.now)), t.interval))
}
pub(crate) fn timer_close(fd: i32) {
    if let Some(w) = w() {
        w.timers.retain(|t| t.fd != fd);
    }
}
fn fire(w: &mut World) {
    let now = w.now;
    for t in w.timers.iter_mut() {
        if let Some(d) = t.deadline {
            if d <= now {
                t.deadline = if t.interval > 0 { Some(now + t.interval) } else { None };
                sysc::bump_eventfd(t.fd);
            }
        }
    }
}
pub(crate) fn note_close(fd: i32) {
    let _o = crate::heap::outside();
    wx().closed.push(fd);
}
/// Descriptors the explored code closed so far in this execution.
pub fn closed_fds() -> Vec<i32> {
    wx().closed.clone()
}
pub(crate) fn fault_for(s: sysc::Sys, fd: i32) -> Option<i32> {
    let _o = crate::heap::outside();
    let w = wx();
    if w.dying {
        return None;
    }
    let mut f = w.fault.take()?;
    let r = f(s, fd);
    let w = wx();
    if w.fault.is_none() {
        w.fault = Some(f);
    }
    if r.is_some() {
        count(s.refused(), 1);
    }
    r
}

/// Bytes written to a pipe that its reader does not see yet.
pub(crate) fn send_late(fd: i32, n: usize) {
    let _o = crate::heap::outside();
    wx().under_way.push((fd, n));
}
/// Whether something has been written that its reader does not see yet; now that a call is made, it
/// may arrive. How often it does not is bounded.
pub(crate) fn late() {
    let w = wx();
    if !w.under_way.is_empty() {
        if w.late_used < w.opts.late && choose(2) == 1 {
            wx().late_used += 1;
        } else {
            arrive();
        }
    }
}
pub(crate) fn arrive() {
    for (fd, n) in std::mem::take(&mut wx().under_way) {
        sysc::raw_write(fd, &[0u8; 64][..n.min(64)]);
    }
}
pub(crate) fn forget_late(fd: i32) {
    wx().under_way.retain(|x| x.0 != fd);
}

// ------------------------------------------------------------------ what harnesses call
/// Enumerate: every value in 0..n is tried.
pub fn choose(n: usize) -> usize {
    let _o = crate::heap::outside();
    assert!(n > 0);
    if n == 1 {
        return 0;
    }
    let w = wx();
    if w.dying || w.nobranch {
        return 0;
    }
    pick(w, n as u32, 0x5555 ^ n as u64) as usize
}
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> usize {
    let w = wx();
    w.multi = true;
    w.threads.push(new_thread(name, Box::new(f)));
    w.threads.len() - 1
}
fn new_thread(name: &str, f: Box<dyn FnOnce()>) -> Th {
    Th {
        name: name.into(),
        status: Status::New,
        op: Op::NONE,
        sp: 0,
        stack: None,
        entry: Some(f),
        eintr: false,
        no_unwind: false,
        spurious: false,
        yielded: false,
        steps: 0,
        kernel_blocks: 0,
        last_blocked_at: 0,
    }
}
pub fn join(t: usize) {
    block(Block::Join(t), Op::all());
}
pub fn is_done(t: usize) -> bool {
    matches!(wx().threads[t].status, Status::Done)
}
/// Let everyone else run until nothing can move any more (not even time). Afterwards no decision
/// is enumerated: the caller may probe the final state.
pub fn quiesce() -> Vec<usize> {
    block(Block::Quiesce, Op::all());
    let w = wx();
    w.nobranch = true;
    let me = w.cur;
    (0..w.threads.len()).filter(|&t| t != me && !is_done(t)).collect()
}
/// Enumerate decisions again after `quiesce`.
pub fn rebranch() {
    wx().nobranch = false;
}
pub fn current() -> usize {
    wx().cur
}
pub fn kernel_blocks() -> u64 {
    let w = wx();
    w.threads[w.cur].kernel_blocks
}
/// The property is violated in this execution.
pub fn fail(msg: impl Into<String>) -> ! {
    let w = wx();
    if w.dying {
        resume_unwind(Box::new(Killed))
    }
    let m = msg.into();
    if w.tracing && w.violation.is_none() {
        w.log.push(format!("VIOLATED: {m}"));
    }
    if w.violation.is_none() {
        w.violation = Some(m);
    }
    resume_unwind(Box::new(Killed))
}
/// The same from a place that must not unwind.
pub(crate) fn flag(msg: impl Into<String>) {
    let _o = crate::heap::outside();
    let w = wx();
    if w.dying || w.violation.is_some() {
        return;
    }
    let m = msg.into();
    if w.tracing {
        w.log.push(format!("VIOLATED: {m}"));
    }
    w.violation = Some(m);
}
/// Leave this execution (uninteresting).
pub fn abandon() -> ! {
    wx().pruned = true;
    resume_unwind(Box::new(Killed))
}
pub fn log(f: impl FnOnce() -> String) {
    let _o = crate::heap::outside();
    let w = wx();
    if w.tracing && !w.dying && w.violation.is_none() {
        let s = f();
        let w = wx();
        let who = if w.in_thread { w.threads[w.cur].name.clone() } else { "explorer".into() };
        let now = w.now - w.opts.start_now;
        w.log.push(format!("[t={now}ns] {who}: {s}"));
        if w.log.len() >= 3000 {
            w.log.drain(1000..2000);
            w.log[1000] = "...".into();
        }
    }
}
pub fn observe(h: u64) {
    let w = wx();
    w.outcome = Some(w.outcome.unwrap_or(0xcbf2_9ce4_8422_2325).wrapping_mul(0x100_0000_01b3) ^ h);
}
pub fn nontrivial() {
    wx().nontrivial = true
}
pub fn count(k: &'static str, n: u64) {
    let _o = crate::heap::outside();
    *wx().counters.entry(k).or_insert(0) += n;
}
/// True if this state was met before in this exploration (across executions): for deduplication.
/// While replaying a decided prefix nothing is recorded.
pub fn seen(h: u64) -> bool {
    let w = wx();
    if w.replaying || w.cursor < w.trail.len() {
        return false;
    }
    !w.seen.insert(h)
}
pub fn set_fault(f: Option<Box<dyn FnMut(sysc::Sys, i32) -> Option<i32>>>) {
    wx().fault = f;
}
pub fn advance(ns: u128) {
    let w = wx();
    w.now += ns;
    fire(w);
}
/// Is this exploration unbounded (so that only dependent steps are reordered)?
pub fn unbounded() -> bool {
    wx().preempt_bound.is_none()
}
/// Is some other thread asleep in a system call?
/// Another thread that sits in a blocking system call.
pub fn other_kernel_blocked() -> Option<usize> {
    let w = wx();
    let me = w.cur;
    (0..w.threads.len()).find(|&t| t != me && matches!(w.threads[t].status, Status::Blocked(Block::Kernel(..))))
}
pub fn clock_steps() -> u32 {
    wx().clock_used
}

// ------------------------------------------------------------------ decisions
fn pick(w: &mut World, n: u32, sig: u64) -> u32 {
    if let Some(r) = &w.opts.replay {
        let v = if w.cursor < r.len() { r[w.cursor] } else { 0 };
        w.cursor += 1;
        if v >= n {
            w.diverged = Some(format!("replay: decision {} of {n} at {}", v, w.cursor));
            return 0;
        }
        w.trail.push(Node { n, pick: v, sig });
        return v;
    }
    if w.cursor < w.trail.len() {
        let nd = &w.trail[w.cursor];
        if nd.n != n || nd.sig != sig {
            w.diverged = Some(format!(
                "nondeterminism: at decision {} found {} alternatives (sig {:x}), recorded {} (sig {:x})",
                w.cursor, n, sig, nd.n, nd.sig
            ));
            w.cursor += 1;
            return 0;
        }
        let p = nd.pick;
        w.cursor += 1;
        return p;
    }
    w.trail.push(Node { n, pick: 0, sig });
    w.cursor += 1;
    w.new_states += 1;
    0
}

fn kernel_ready(reqs: &[PollReq]) -> bool {
    sysc::ready_now(reqs)
}

fn enabled(w: &World, t: usize) -> bool {
    match &w.threads[t].status {
        Status::New | Status::Ready => true,
        Status::Done => false,
        Status::Blocked(b) => match b {
            Block::Lock(c) => unsafe { !(**c).get() },
            Block::RwRead(c) => unsafe { (**c).get() >= 0 },
            Block::RwWrite(c) => unsafe { (**c).get() == 0 },
            Block::Cond(c, d) => {
                w.threads[t].spurious || unsafe { (**c).get() } || d.map_or(false, |d| d <= w.now)
            }
            Block::Kernel(r, d, _) => {
                w.threads[t].eintr || d.map_or(false, |d| d <= w.now) || kernel_ready(r)
            }
            Block::Sleep(d) => *d <= w.now,
            Block::Join(j) => matches!(w.threads[*j].status, Status::Done),
            Block::Quiesce => false,
        },
    }
}

fn next_deadline(w: &World) -> Option<u128> {
    let mut m: Option<u128> = None;
    let mut add = |d: u128| {
        if d > w.now {
            m = Some(m.map_or(d, |x| x.min(d)))
        }
    };
    for t in &w.threads {
        match &t.status {
            Status::Blocked(Block::Cond(_, Some(d))) => add(*d),
            Status::Blocked(Block::Kernel(_, Some(d), _)) => add(*d),
            Status::Blocked(Block::Sleep(d)) => add(*d),
            _ => {}
        }
    }
    for t in &w.timers {
        if let Some(d) = t.deadline {
            add(d)
        }
    }
    m
}

fn step(w: &mut World) -> bool {
    fire(w);
    let n = w.threads.len();
    if !w.under_way.is_empty() && !(0..n).any(|t| enabled(w, t)) {
        arrive();
    }
    let mut run: Vec<usize> = Vec::with_capacity(n);
    let cur = w.cur;
    let cur_en = enabled(w, cur);
    let cur_yield = cur_en && std::mem::take(&mut w.threads[cur].yielded);
    if cur_en && !cur_yield && !w.fair {
        run.push(cur);
    }
    if w.fair {
        for i in 1..=n {
            let t = (cur + i) % n;
            if enabled(w, t) {
                run.push(t);
            }
        }
        run.truncate(1);
    } else {
        for t in 0..n {
            if (t != cur || (cur_yield && n == 1)) && enabled(w, t) {
                run.push(t);
            }
        }
        if cur_yield && n > 1 {
            run.push(cur);
        }
    }
    let dl = next_deadline(w);
    let branching = !w.nobranch && !w.fair;
    let mut acts: Vec<Action> = Vec::with_capacity(run.len() + 2);
    let preemptive = cur_en && !cur_yield;
    for (i, &t) in run.iter().enumerate() {
        if i > 0 && (!branching || (preemptive && w.preempt_bound.map_or(false, |b| w.preempts >= b))) {
            break;
        }
        acts.push(Action::Run(t));
    }
    if run.is_empty() {
        if dl.is_some() {
            acts.push(Action::Advance);
        } else {
            acts.push(Action::Stuck);
        }
    } else if branching && dl.is_some() && w.clock_used < w.opts.clock {
        acts.push(Action::Advance);
    }
    if branching {
        if let Some(d) = dl {
            if run.is_empty() && w.half_used < w.opts.half && d - w.now > 1 {
                acts.push(Action::Half);
            }
        }
        if w.sig_used < w.opts.signals {
            for t in 0..n {
                if let Status::Blocked(Block::Kernel(_, _, true)) = &w.threads[t].status {
                    if !w.threads[t].eintr {
                        acts.push(Action::Signal(t));
                    }
                }
            }
        }
        if w.spur_used < w.opts.spurious {
            for t in 0..n {
                if let Status::Blocked(Block::Cond(..)) = &w.threads[t].status {
                    if !w.threads[t].spurious {
                        acts.push(Action::Spurious(t));
                    }
                }
            }
        }
    }
    // Sleep sets (only when schedules are not bounded by preemptions).
    let por = w.preempt_bound.is_none() && branching;
    if por && !w.sleep.is_empty() {
        let before = acts.len();
        let sl = std::mem::take(&mut w.sleep);
        acts.retain(|a| !matches!(a, Action::Run(t) if sl.contains(t)));
        w.sleep = sl;
        if acts.is_empty() && before > 0 {
            w.pruned = true;
            return false;
        }
    }
    let i = if acts.len() > 1 {
        let mut sig = 0u64;
        for a in &acts {
            let v = match a {
                Action::Run(t) => 1 + *t as u64,
                Action::Advance => 101,
                Action::Half => 102,
                Action::Signal(t) => 200 + *t as u64,
                Action::Spurious(t) => 300 + *t as u64,
                Action::Stuck => 400,
            };
            sig = sig.wrapping_mul(1_000_003) ^ v;
        }
        pick(w, acts.len() as u32, sig) as usize
    } else {
        0
    };
    let act = acts[i];
    if por {
        let opx = match act {
            Action::Run(t) => w.threads[t].op,
            _ => Op::all(),
        };
        let mut s: Vec<usize> = w.sleep.clone();
        for a in &acts[..i] {
            if let Action::Run(t) = a {
                if !s.contains(t) {
                    s.push(*t);
                }
            }
        }
        s.retain(|&t| !w.threads[t].op.depends(opx));
        w.sleep = s;
    }
    w.steps += 1;
    if w.cursor >= w.trail.len() {
        w.new_steps += 1;
    }
    if w.tracing {
        let s = format!(
            "-- {}",
            match act {
                Action::Run(t) => format!("run {} ({:x?})", w.threads[t].name, w.threads[t].op.a),
                Action::Advance => "time passes".into(),
                Action::Half => "half the time passes".into(),
                Action::Signal(t) => format!("signal interrupts {}", w.threads[t].name),
                Action::Spurious(t) => format!("spurious wake-up of {}", w.threads[t].name),
                Action::Stuck => "nothing can move".into(),
            }
        );
        if std::env::var_os("MC_STEPS").is_some() {
            w.log.push(s);
        } else if !matches!(act, Action::Run(_)) {
            w.log.push(s);
        }
    }
    match act {
        Action::Run(t) => {
            if preemptive && t != cur {
                w.preempts += 1;
            }
            w.threads[t].steps += 1;
            w.threads[t].spurious = false;
            resume(t);
        }
        Action::Advance => {
            if !run.is_empty() {
                w.clock_used += 1;
            }
            w.now = dl.unwrap();
            fire(w);
        }
        Action::Half => {
            w.half_used += 1;
            let d = dl.unwrap();
            w.now += (d - w.now) / 2;
            fire(w);
        }
        Action::Signal(t) => {
            w.sig_used += 1;
            w.threads[t].eintr = true;
        }
        Action::Spurious(t) => {
            w.spur_used += 1;
            w.threads[t].spurious = true;
        }
        Action::Stuck => {
            // Hand over to a quiescing thread, if there is one.
            if let Some(q) =
                (0..n).find(|&t| matches!(w.threads[t].status, Status::Blocked(Block::Quiesce)))
            {
                resume(q);
            } else {
                return false;
            }
        }
    }
    true
}

fn shard_skip(w: &mut World) -> bool {
    // Decide at the moment the first `shard_depth` decisions of a new branch are complete.
    let (i, k) = w.opts.shard;
    if k <= 1 || w.opts.replay.is_some() {
        return false;
    }
    let d = w.opts.shard_depth;
    if w.trail.len() < d || w.cursor < d {
        return false;
    }
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for nd in &w.trail[..d] {
        h = (h ^ (nd.pick as u64 + 1)).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    (h.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33) % k != i
}

/// Run one execution to its end. Returns false if it was cut (wrong shard).
fn run_one(w: &mut World, body: &dyn Fn()) {
    let base = sysc::lowest_free_fd();
    w.threads.clear();
    w.cur = 0;
    w.in_thread = false;
    w.now = w.opts.start_now;
    w.timers.clear();
    w.under_way.clear();
    w.late_used = 0;
    w.hash_order = 0;
    w.cursor = 0;
    w.preempts = 0;
    w.clock_used = 0;
    w.half_used = 0;
    w.sig_used = 0;
    w.spur_used = 0;
    w.sleep.clear();
    w.steps = 0;
    w.fair = false;
    w.nobranch = false;
    w.dying = false;
    w.dying_calls = 0;
    w.pruned = false;
    w.violation = None;
    w.outcome = None;
    w.nontrivial = false;
    w.log.clear();
    w.fault = None;
    w.horizon = false;
    w.eintr_delivered = 0;
    w.closed.clear();
    crate::kq::reset();
    crate::win::reset();
    w.cut = false;
    let bodyp: &'static dyn Fn() = unsafe { std::mem::transmute(body) };
    w.threads.push(new_thread("main", Box::new(move || bodyp())));
    loop {
        if !step(w) || w.violation.is_some() || w.diverged.is_some() || w.pruned {
            break;
        }
        if matches!(w.threads[0].status, Status::Done) {
            break;
        }
        if shard_skip(w) {
            w.cut = true;
            w.pruned = true;
            break;
        }
        if w.steps > w.opts.max_steps && !w.fair {
            w.fair = true;
            w.horizon = true;
        }
        if w.steps > w.opts.max_steps * 3 {
            w.violation = Some(format!(
                "no progress: {} steps and still running (a fair schedule included)",
                w.steps
            ));
            break;
        }
    }
    if w.violation.is_none()
        && !w.pruned
        && w.diverged.is_none()
        && !matches!(w.threads[0].status, Status::Done)
    {
        let st: Vec<String> = w
            .threads
            .iter()
            .filter(|t| !matches!(t.status, Status::Done))
            .map(|t| t.name.clone())
            .collect();
        w.violation = Some(format!("deadlock: {} blocked for ever", st.join(", ")));
    }
    // Unwind whatever is left.
    w.dying = true;
    for t in 0..w.threads.len() {
        let mut rounds = 0;
        while !matches!(w.threads[t].status, Status::Done) {
            if let Status::New = w.threads[t].status {
                w.threads[t].entry = None;
                w.threads[t].status = Status::Done;
                break;
            }
            resume(t);
            rounds += 1;
            if rounds > 100 {
                w.threads[t].status = Status::Done;
            }
        }
    }
    w.threads.clear();
    w.fault = None;
    sysc::close_from(base);
}

/// Enumerate every execution of `body` within the budgets.
pub fn explore(opts: &Opts, body: impl Fn()) -> Report {
    let mut total = Report::default();
    let bounds: Vec<Option<u32>> = match (opts.preemptions, &opts.replay) {
        (Some(b), None) => (0..=b).map(Some).collect(),
        (b, _) => vec![b],
    };
    let t0 = crate::sysc::real_now();
    for (bi, b) in bounds.iter().enumerate() {
        let r = explore_bound(opts, *b, &body, t0);
        let stop = r.violation.is_some() || r.capped;
        let last = bi + 1 == bounds.len();
        // A larger bound revisits everything of a smaller one: keep the numbers of the last.
        if last || stop {
            total = r.clone();
        }
        if stop {
            break;
        }
        // One thread only: no preemption is possible, so larger bounds add nothing.
        if !r.multi {
            total = r;
            break;
        }
    }
    total
}

fn explore_bound(opts: &Opts, bound: Option<u32>, body: &dyn Fn(), t0: f64) -> Report {
    install_hook();
    let mut world = World {
        opts: opts.clone(),
        preempt_bound: bound,
        threads: vec![],
        cur: 0,
        in_thread: false,
        main_sp: 0,
        now: 0,
        timers: vec![],
        under_way: vec![],
        late_used: 0,
        hash_order: 0,
        trail: vec![],
        cursor: 0,
        replaying: false,
        preempts: 0,
        clock_used: 0,
        half_used: 0,
        sig_used: 0,
        spur_used: 0,
        sleep: vec![],
        steps: 0,
        new_steps: 0,
        new_states: 0,
        fair: false,
        nobranch: false,
        dying: false,
        dying_calls: 0,
        pruned: false,
        diverged: None,
        violation: None,
        log: vec![],
        tracing: opts.replay.is_some(),
        outcome: None,
        nontrivial: false,
        last_panic: None,
        horizon: false,
        fault: None,
        counters: Default::default(),
        seen: HashSet::new(),
        shard_seq: 0,
        eintr_delivered: 0,
        multi: false,
        cut: false,
        closed: vec![],
    };
    let _ = world.shard_seq;
    let outer = unsafe { WORLD };
    assert!(outer.is_null(), "nested exploration");
    unsafe { WORLD = &mut world };
    let mut rep = Report::default();
    let mut rounds = 0u64;
    let mut sample_steps = 0u64;
    let w = &mut world;
    loop {
        if w.opts.replay.is_some() {
            w.trail.clear();
        }
        unsafe { WORLD = w };
        run_one(w, body);
        // A history shorter than the split depth belongs to the first share.
        let elsewhere = w.opts.shard.0 > 0 && w.trail.len() < w.opts.shard_depth;
        if !w.cut && !elsewhere {
            rep.execs += 1;
            rep.max_depth = rep.max_depth.max(w.steps);
            if w.pruned {
                rep.pruned += 1;
            }
            if w.horizon {
                rep.horizon_hits += 1;
            }
            if w.nontrivial {
                rep.nontrivial += 1;
                if !w.pruned && w.steps > sample_steps {
                    sample_steps = w.steps;
                    rep.sample_trail = w.trail[..w.cursor.min(w.trail.len())].iter().map(|n| n.pick).collect();
                }
            }
        }
        rounds += 1;
        if let Some(o) = w.outcome {
            if rep.outcomes.len() < 1_000_000 {
                rep.outcomes.insert(o);
            }
        }
        if let Some(d) = w.diverged.take() {
            eprintln!("ENGINE: {d}");
            std::process::exit(3);
        }
        if let Some(v) = w.violation.take() {
            let trail: Vec<u32> = w.trail[..w.cursor.min(w.trail.len())].iter().map(|n| n.pick).collect();
            rep.violation = Some(Violation { msg: v, trail, log: w.log.clone() });
            break;
        }
        if w.opts.replay.is_some() {
            rep.sample = w.log.clone();
            break;
        }
        // Next branch.
        w.trail.truncate(w.cursor);
        while let Some(nd) = w.trail.last_mut() {
            if nd.pick + 1 < nd.n {
                nd.pick += 1;
                w.new_states += 1;
                break;
            }
            w.trail.pop();
        }
        if w.trail.is_empty() {
            break;
        }
        if rep.execs >= opts.max_execs || (rounds & 63 == 0 && crate::sysc::real_now() - t0 > opts.max_secs) {
            rep.capped = true;
            break;
        }
    }
    rep.states = w.new_states;
    rep.transitions = w.new_steps;
    rep.multi = w.multi;
    rep.bound = bound;
    rep.counters = std::mem::take(&mut w.counters);
    unsafe { WORLD = std::ptr::null_mut() };
    rep
}

/// Replay one recorded execution, found under this bound, with its log.
pub fn replay(opts: &Opts, bound: Option<u32>, trail: &[u32], body: impl Fn()) -> Report {
    let mut o = opts.clone();
    o.preemptions = bound;
    o.replay = Some(trail.to_vec());
    explore(&o, body)
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if let Some(w) = w() {
                if w.in_thread {
                    let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = i.payload().downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "?".into()
                    };
                    let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
                    w.last_panic = Some(format!("{m}{l}"));
                    return;
                }
            }
            old(i)
        }));
    });
}
