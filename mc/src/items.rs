//! What is explored for each property, per tier.
use crate::conc::{self, Prog, C};
use crate::{faults, values};
use crate::seq::{self, *};
use crate::sys::{Act as A, *};
use mcstd::mc::Opts;
use polling::PollMode::{self, *};

pub struct Item {
    pub prop: &'static str,
    pub name: String,
    pub opts: Opts,
    pub shards: u64,
    pub body: Box<dyn Fn()>,
}

pub struct B {
    pub thorough: bool,
    pub items: Vec<Item>,
    prop: &'static str,
    /// Which family of items, when several go under one property.
    prefix: &'static str,
}
impl B {
    fn q<X>(&self, quick: X, thorough: X) -> X {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    fn push(&mut self, name: String, opts: Opts, shards: u64, body: Box<dyn Fn()>) {
        self.items.push(Item { prop: self.prop, name: format!("{}/{}{}", cfg_name(), self.prefix, name), opts, shards, body });
    }
    /// Every sequence of `depth` steps over an alphabet.
    fn seq(&mut self, name: &str, mut setup: Setup, mut alphabet: Vec<seq::Op>, depth: usize) {
        if WIN {
            // Completions are judged otherwise: iocp.rs.
            return;
        }
        if PORTS && !name.contains("mode") {
            let one = |o: &mut seq::Op| match o {
                seq::Op::Add(.., m) | seq::Op::Mod(.., m) | seq::Op::AddErr(.., m, _) | seq::Op::ModErr(.., m, _) => *m = Oneshot,
                seq::Op::All(seq::Each::Add(_, m) | seq::Each::Mod(_, m), ..) => *m = Oneshot,
                _ => {}
            };
            setup.pre.iter_mut().for_each(one);
            alphabet.iter_mut().for_each(one);
            let mut had = std::collections::HashSet::new();
            alphabet.retain(|o| had.insert(format!("{o:?}")));
        }
        let depth = if SIM && !self.thorough && depth > 4 { depth - 1 } else { depth };
        let n = (alphabet.len() as f64).powi(depth as i32);
        let shards = ((n / 150_000.0).ceil() as u64).clamp(1, 64);
        let mut opts = Opts { preemptions: Some(0), shard_depth: if depth > 2 { 2 } else { 1 }, ..Opts::default() };
        if alphabet.iter().any(|o| matches!(o, seq::Op::Rep(..) | seq::Op::All(..))) {
            opts.max_steps = 3_000_000;
            opts.late = 0;
        }
        let name = format!("seq {name} {:?} len {depth}", setup.variant);
        self.push(name, opts, shards, Box::new(move || seq::sequences(&setup, &alphabet, depth)));
    }
    /// Every pair of boundary keys, registered and changed.
    fn keys(&mut self, v: Variant) {
        if WIN {
            return;
        }
        let ks = seq::all_keys();
        let setup = Setup::new(v, &[Kind::Sock, Kind::Sock]);
        let opts = Opts { preemptions: Some(0), shard_depth: 1, late: 0, ..Opts::default() };
        self.push(format!("pairs of {} keys {v:?}", ks.len()), opts, 2, Box::new(move || seq::keys(&setup, &ks)));
    }
    /// Every sequence, on every kernel variant, compared with one another.
    fn same(&mut self, name: &str, kinds: &[Kind], pre: &[seq::Op], al: Vec<seq::Op>, depth: usize) {
        let setups: Vec<Setup> = Variant::all()
            .into_iter()
            .map(|v| {
                let mut s = Setup::new(v, kinds);
                s.pre = pre.to_vec();
                s
            })
            .collect();
        let shards = ((al.len() as f64).powi(depth as i32) / 50_000.0).ceil().clamp(1.0, 64.0) as u64;
        let opts = Opts { preemptions: Some(0), shard_depth: 2, ..Opts::default() };
        self.push(format!("same {name} len {depth}"), opts, shards, Box::new(move || seq::same_everywhere(&setups, &al, depth)));
    }
    /// One concurrent program under every schedule.
    fn conc(&mut self, name: &str, mut prog: Prog, mut opts: Opts, shards: u64) {
        if PORTS {
            for c in prog.pre.iter_mut().chain(prog.threads.iter_mut().flatten()) {
                if let C::Add(.., m) | C::Mod(.., m) | C::Serve(.., m) = c {
                    *m = Oneshot;
                }
            }
        }
        if WIN && prog.threads.len() > 2 {
            // Each call takes many steps there.
            let most = self.q(3, 5);
            opts.preemptions = Some(opts.preemptions.map_or(most, |p| p.min(most)));
        }
        opts.shard_depth = 8;
        prog.timed = opts.clock == 0;
        let cap = if prog.cap == 8 { String::new() } else { format!(" cap {}", prog.cap) };
        let name = format!("conc {name}{cap} {:?}", prog.variant);
        self.push(name, opts, shards, Box::new(move || conc::run(&prog)));
    }
}
impl B {
    /// A program on each of two pollers.
    fn both(&mut self, name: &str, mut progs: Vec<Prog>, mut opts: Opts) {
        opts.shard_depth = 8;
        for p in &mut progs {
            p.timed = opts.clock == 0;
        }
        let name = format!("conc {name}: two pollers {:?}", progs[0].variant);
        self.push(name, opts, 1, Box::new(move || conc::run_all(&progs)));
    }
}
pub fn every() -> Opts {
    Opts { preemptions: None, ..Opts::default() }
}
pub fn upto(p: u32) -> Opts {
    Opts { preemptions: Some(p), ..Opts::default() }
}

fn modes() -> Vec<PollMode> {
    if PORTS {
        vec![Oneshot]
    } else if POLL_BACKEND || WIN {
        vec![Oneshot, Level]
    } else {
        vec![Oneshot, Level, Edge, EdgeOneshot]
    }
}
const MS: u64 = 1_000_000;

pub const PROPS: &[(&str, fn(&mut B))] = &[
    ("C01", c01),
    ("C02", c02),
    ("C03", c03),
    ("C04", c04),
    ("C05", c05),
    ("C06", c06),
    ("C07", c07),
    ("C08", c08),
    ("C09", c09),
    ("C10", c10),
    ("C11", c11),
    ("C12", c12),
    ("C13", c13),
    ("C14", c14),
    ("C15", c15),
    ("C16", c16),
    ("C17", c17),
    ("C18", c18),
    ("C19", c19),
    ("C20", c20),
    ("C21", c21),
    ("C22", c22),
    ("C23", c23),
    ("C24", c24),
    ("C25", c25),
    ("C26", c26),
    ("C27", c27),
    ("C28", c28),
];

pub fn items(prop: &str, thorough: bool) -> Vec<Item> {
    let mut b = B { thorough, items: vec![], prop: "", prefix: "" };
    for (p, f) in PROPS {
        if *p == prop {
            b.prop = p;
            f(&mut b);
        }
    }
    b.items
}

/// C01: a notification is never lost.
fn c01(b: &mut B) {
    for v in Variant::main() {
        many_times(b, v);
    }
    let pipe = &[Kind::PipeR];
    let add = C::Add(0, R, Oneshot);
    let feed = C::Act(0, A::Feed);
    let modr = C::Mod(0, R, Oneshot);
    for v in Variant::all() {
        let main = Variant::main().contains(&v);
        for (wn, w) in [
            ("W", vec![C::Wait]),
            ("WW", vec![C::Wait, C::Wait]),
            ("TW", vec![C::WaitT(MS), C::Wait]),
            ("WWW", vec![C::Wait, C::Wait, C::Wait]),
        ] {
            for (nn, n) in [("N", vec![C::Notify]), ("NN", vec![C::Notify, C::Notify]), ("NNN", vec![C::Notify; 3])] {
                b.conc(&format!("{wn}|{nn}"), Prog::new(v, &[], &[], &[&w, &n]), every(), 1);
            }
        }
        // A third party changes registrations or makes a source ready meanwhile.
        for (name, pre, w, n, t) in [
            ("W|N|N", vec![], vec![C::Wait], vec![C::Notify], vec![C::Notify]),
            ("WW|N|N", vec![], vec![C::Wait, C::Wait], vec![C::Notify], vec![C::Notify]),
            ("WW|N|add", vec![], vec![C::Wait, C::Wait], vec![C::Notify], vec![add]),
            ("WW|N|mod", vec![add], vec![C::Wait, C::Wait], vec![C::Notify], vec![modr]),
            ("WW|N|del", vec![add], vec![C::Wait, C::Wait], vec![C::Notify], vec![C::Del(0)]),
            ("WW|N|feed", vec![add], vec![C::Wait, C::Wait], vec![C::Notify], vec![feed]),
            ("WW|NN|feed", vec![add], vec![C::Wait, C::Wait], vec![C::Notify, C::Notify], vec![feed]),
            ("W|N|W", vec![], vec![C::Wait], vec![C::Notify], vec![C::Wait]),
            ("W|NN|W", vec![], vec![C::Wait], vec![C::Notify, C::Notify], vec![C::Wait]),
            ("TW|N|add", vec![], vec![C::WaitT(MS), C::Wait], vec![C::Notify], vec![add]),
        ] {
            let heavy = POLL_BACKEND && matches!(name, "WW|N|add" | "WW|N|mod" | "WW|N|del" | "TW|N|add");
            if !main && !b.thorough && heavy {
                continue;
            }
            let o = if heavy && !b.thorough { upto(3) } else { every() };
            b.conc(name, Prog::new(v, pipe, &pre, &[&w, &n, &t]), o, if heavy { 4 } else { 1 });
        }
        if b.thorough {
            for (name, pre, w, n, t) in [
                ("WWW|NN|add,del", vec![], vec![C::Wait; 3], vec![C::Notify; 2], vec![add, C::Del(0)]),
                ("WW|NN|N", vec![], vec![C::Wait; 2], vec![C::Notify; 2], vec![C::Notify]),
                ("WWW|NN|N", vec![], vec![C::Wait; 3], vec![C::Notify; 2], vec![C::Notify]),
                ("WW|NN|mod", vec![add], vec![C::Wait; 2], vec![C::Notify; 2], vec![modr]),
                ("WW|NN|W", vec![], vec![C::Wait; 2], vec![C::Notify; 2], vec![C::Wait]),
                ("WW|N,mod|feed", vec![add], vec![C::Wait; 2], vec![C::Notify, modr], vec![feed]),
                ("WW|N,add|N", vec![], vec![C::Wait; 2], vec![C::Notify, add], vec![C::Notify]),
            ] {
                b.conc(name, Prog::new(v, pipe, &pre, &[&w, &n, &t]), upto(4), 8);
            }
        }
        // Time passes at will.
        for (name, w) in [("TW|N+clock", vec![C::WaitT(MS), C::Wait]), ("TTW|N+clock", vec![C::WaitT(MS), C::WaitT(MS), C::Wait])] {
            let o = Opts { clock: 2, ..every() };
            b.conc(name, Prog::new(v, &[], &[], &[&w, &[C::Notify]]), o.clone(), 1);
            b.conc(&format!("{name},N"), Prog::new(v, &[], &[], &[&w, &[C::Notify, C::Notify]]), o, 1);
        }
    }
}

/// More notifications, waits or registrations than any counter or buffer is likely to hold.
fn many_times(b: &mut B, v: Variant) {
    use seq::Op::*;
    const NOTIFY: &[seq::Op] = &[Notify(0)];
    const WAIT: &[seq::Op] = &[Wait(0, T::Zero)];
    const BOTH: &[seq::Op] = &[Notify(0), Wait(0, T::Zero)];
    const TIMED: &[seq::Op] = &[Wait(0, T::Ns(MS + 1)), Wait(0, T::Zero)];
    const REGS: &[seq::Op] = &[Add(0, 0, 7, R, Level), Mod(0, 0, 8, R, Oneshot), Del(0, 0)];
    const REARM: &[seq::Op] = &[Wait(0, T::Zero), ModD(0, 1, 5, R)];
    let mut s = Setup::new(v, &[Kind::PipeR, Kind::PipeR]);
    s.pre = vec![AddD(0, 1, 2, R), Act(0, A::Feed)];
    let mut al = vec![
        Rep(NOTIFY, 300),
        Rep(WAIT, 300),
        Rep(BOTH, 300),
        Rep(TIMED, 300),
        Rep(REGS, 300),
        Rep(REARM, 300),
        Wait(0, T::Inf),
        Act(1, A::Feed),
        Act(1, A::Drain),
    ];
    b.seq("hundreds", s.clone(), al.clone(), b.q(3, 4));
    al.truncate(3);
    al[0] = Rep(NOTIFY, 70_000);
    al[1] = Rep(BOTH, 70_000);
    al.extend([Wait(0, T::Inf), Act(1, A::Feed), ModD(0, 1, 5, R)]);
    b.seq("tens of thousands", s, al, b.q(2, 3));
}
/// Hundreds of sources.
fn many_sources(b: &mut B, v: Variant, n: usize, cap: usize, depth: usize) {
    many_modes(b, v, n, cap, depth, Level, Oneshot);
}
fn many_modes(b: &mut B, v: Variant, n: usize, cap: usize, depth: usize, stay: PollMode, once: PollMode) {
    use seq::Op::*;
    let n = n.min(fd_limit() as usize - 60);
    let mut s = Setup::new(v, &vec![Kind::Evt; n]);
    s.cap = cap;
    s.pre = vec![All(Each::Add(R, stay), 0, 1)];
    s.post = vec![Sweep(0), Sweep(0)];
    let al = vec![
        All(Each::Act(A::Feed), 0, 1),
        All(Each::Act(A::Drain), 1, 3),
        All(Each::Mod(R, once), 0, 2),
        All(Each::Mod(RW, stay), 1, 2),
        All(Each::Del, 0, 2),
        All(Each::Del, 0, 1),
        All(Each::Add(R, once), 0, 1),
        Notify(0),
        Wait(0, T::Zero),
        Sweep(0),
    ];
    b.seq(&format!("{n} sources cap {cap} {stay:?} {once:?}"), s, al, depth);
}

/// C02: a notification ends one wait, is not an event, and harms nothing.
fn c02(b: &mut B) {
    use seq::Op::*;
    for v in Variant::all() {
        many_times(b, v);
        for cap in [1, 64] {
            let mut s = Setup::new(v, &[Kind::Sock]);
            s.cap = cap;
            let mut al = vec![
                Notify(0),
                Wait(0, T::Zero),
                Wait(0, T::Ns(MS + 1)),
                Wait(0, T::Inf),
                Act(0, A::Feed),
                Act(0, A::Drain),
                ModD(0, 0, 3, R),
                ModD(0, 0, 4, NO),
            ];
            if cap == 1 {
                al.push(Mod(0, 0, 5, RW, Level));
            }
            s.pre = vec![AddD(0, 0, 2, R)];
            b.seq(&format!("notify cap {cap}"), s, al, b.q(5, 6));
        }
        b.keys(v);
        // Keys next to the reserved one.
        let s = Setup::new(v, &[Kind::Sock, Kind::Evt]);
        let al = vec![
            Notify(0),
            Add(0, 0, MAXKEY - 1, RW, Level),
            Add(0, 1, 0, W, Level),
            Add(0, 1, MAXKEY, W, Level),
            Mod(0, 0, MAXKEY, R, Level),
            Wait(0, T::Zero),
            Wait(0, T::Inf),
        ];
        b.seq("notify keys", s, al, b.q(5, 6));
        for (wn, w) in [("WWT", vec![C::Wait, C::Wait, C::WaitT(MS)]), ("TTT", vec![C::WaitT(MS); 3])] {
            for k in 1..=2 {
                let n = vec![C::Notify; k];
                b.conc(&format!("{wn}|N{k}"), Prog::new(v, &[], &[], &[&w, &n]), every(), 1);
                let pre = [C::Add(0, R, Oneshot)];
                b.conc(
                    &format!("{wn}|N{k}|mod"),
                    Prog::new(v, &[Kind::PipeR], &pre, &[&w, &n, &[C::Mod(0, R, Oneshot)]]),
                    if POLL_BACKEND { upto(b.q(2, 4)) } else { upto(b.q(3, 6)) },
                    b.q(2, 8),
                );
            }
        }
    }
}

fn kinds_acts() -> Vec<(Kind, Vec<Act>)> {
    vec![
        (Kind::PipeR, vec![A::Feed, A::Drain, A::Hangup]),
        (Kind::PipeW, vec![A::Fill, A::Unfill, A::Hangup]),
        (Kind::Sock, vec![A::Feed, A::Drain, A::Fill, A::Unfill, A::Hangup, A::Shut]),
        (Kind::Evt, vec![A::Feed, A::Drain, A::Fill]),
        (Kind::Tcp, vec![A::Feed, A::Drain, A::Shut, A::Reset]),
        (Kind::Dgram, vec![A::Feed, A::Take, A::Fill, A::Unfill]),
        (Kind::Listen, vec![A::Feed, A::Take, A::Drain]),
        (Kind::Conn, vec![A::Connect, A::Refuse, A::AskError]),
    ]
}
fn acts(i: usize, v: &[Act]) -> Vec<seq::Op> {
    v.iter().map(|&a| seq::Op::Act(i, a)).collect()
}

/// C03: what is ready and wanted is reported.
fn c03(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        for (k, av) in kinds_acts() {
            for m in [Oneshot, Level] {
                let s = Setup::new(v, &[k]);
                let mut al = acts(0, &av);
                al.extend([Add(0, 0, 1, R, m), Add(0, 0, 2, W, m), Mod(0, 0, 3, RW, m), Mod(0, 0, 4, R, m), Mod(0, 0, 5, W, m), Mod(0, 0, 6, NO, m), Wait(0, T::Zero), Wait(0, T::Inf)]);
                b.seq(&format!("{k:?} {m:?}"), s, al, b.q(if matches!(k, Kind::Sock | Kind::Dgram) { 4 } else { 5 }, 6));
            }
        }
        // Several sources at once, registered, modified and removed in every order.
        let mut s = Setup::new(v, &[Kind::PipeR, Kind::PipeR, Kind::PipeR]);
        s.pre = vec![Act(0, A::Feed), Act(1, A::Feed), Act(2, A::Feed)];
        let mut al = vec![Wait(0, T::Zero)];
        for i in 0..3 {
            al.extend([Add(0, i, 10 + i, R, Level), Del(0, i), Mod(0, i, 20 + i, R, Oneshot)]);
        }
        b.seq("three sources", s, al, b.q(5, 6));
    }
    for v in Variant::main() {
        many_sources(b, v, 130, 256, b.q(3, 4));
        many_sources(b, v, 1100, 0, b.q(2, 3));
    }
    for v in Variant::all() {
        conc_ready(b, v);
    }
}
fn conc_ready(b: &mut B, v: Variant) {
    let feed = C::Act(0, A::Feed);
    let pipe = &[Kind::PipeR];
    let mut ms = vec![Oneshot, Level];
    if !POLL_BACKEND {
        ms.extend([Edge, EdgeOneshot]);
    }
    for m in ms {
        let add = C::Add(0, R, m);
        let md = C::Mod(0, R, m);
        let none = C::Mod(0, NO, m);
        for (name, pre, w, t) in [
            ("W|feed", vec![add], vec![C::Wait], vec![feed]),
            ("W|add", vec![feed], vec![C::Wait], vec![add]),
            ("W|add,feed", vec![], vec![C::Wait], vec![add, feed]),
            ("W|feed,add", vec![], vec![C::Wait], vec![feed, add]),
            ("W|mod", vec![feed, C::Add(0, NO, m)], vec![C::Wait], vec![md]),
            ("W|none,mod", vec![feed, C::Add(0, NO, m)], vec![C::Wait], vec![none, md]),
            ("W|del,add", vec![add], vec![C::Wait], vec![C::Del(0), feed, add]),
            ("WW|feed,mod", vec![add], vec![C::Wait, C::Wait], vec![feed, md]),
        ] {
            b.conc(&format!("{m:?} {name}"), Prog::new(v, pipe, &pre, &[&w, &t]), every(), 1);
        }
        let serve = [C::Serve(2, R, m)];
        b.conc(&format!("{m:?} serve|feed,feed"), Prog::new(v, pipe, &[add], &[&serve, &[feed, feed]]), every(), 1);
        b.conc(
            &format!("{m:?} serve|feed|feed"),
            Prog::new(v, &[Kind::PipeR, Kind::PipeR], &[add, C::Add(1, R, m)], &[&serve, &[feed], &[C::Act(1, A::Feed)]]),
            upto(b.q(3, 6)),
            b.q(1, 8),
        );
        b.conc(
            &format!("{m:?} W|add0|add1,feed1"),
            Prog::new(v, &[Kind::PipeR, Kind::PipeR], &[], &[&[C::Wait], &[add], &[C::Add(1, R, m), C::Act(1, A::Feed)]]),
            upto(b.q(2, 4)),
            b.q(1, 8),
        );
    }
}

/// C04: what is reported is true, current and carries the registered key.
fn c04(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        b.keys(v);
        for (k, av) in kinds_acts() {
            let s = Setup::new(v, &[k]);
            let mut al = acts(0, &av);
            al.extend([Add(0, 0, 0, NO, Level), Mod(0, 0, 1, W, Level), Mod(0, 0, 1 << 63, R, Level), Mod(0, 0, 9, RW, Oneshot), Del(0, 0), Wait(0, T::Zero)]);
            b.seq(&format!("{k:?}"), s, al, b.q(if matches!(k, Kind::Sock | Kind::Dgram) { 4 } else { 5 }, 6));
        }
        let mut s = Setup::new(v, &[Kind::Sock, Kind::Sock]);
        s.pre = vec![Add(0, 0, 7, R, Level), Add(0, 1, 7, W, Level)];
        let al = vec![
            Act(0, A::Feed),
            Act(1, A::Fill),
            Act(0, A::Drain),
            Act(1, A::Unfill),
            Mod(0, 0, 8, R, Level),
            Mod(0, 1, 8, W, Level),
            Mod(0, 0, 7, NO, Level),
            Del(0, 1),
            Wait(0, T::Zero),
        ];
        b.seq("shared keys", s, al, b.q(5, 6));
        many_sources(b, v, 300, 512, b.q(3, 4));
    }
    for v in Variant::all() {
        let feed = C::Act(0, A::Feed);
        let drain = C::Act(0, A::Drain);
        for m in modes() {
            let add = C::Add(0, R, m);
            for (name, pre, w, t) in [
                ("TT|mod,mod", vec![add, feed], vec![C::WaitT(MS), C::WaitT(MS)], vec![C::Mod(0, R, m), C::Mod(0, NO, m)]),
                ("TT|feed,drain", vec![add], vec![C::WaitT(MS), C::WaitT(MS)], vec![feed, drain]),
                ("TT|del,add", vec![add, feed], vec![C::WaitT(MS), C::WaitT(MS)], vec![C::Del(0), add]),
                ("TT|w,r", vec![add, feed], vec![C::WaitT(MS), C::WaitT(MS)], vec![C::Mod(0, W, m), C::Mod(0, R, m)]),
            ] {
                b.conc(&format!("{m:?} {name}"), Prog::new(v, &[Kind::PipeR], &pre, &[&w, &t]), if POLL_BACKEND { upto(b.q(3, 6)) } else { every() }, b.q(1, 4));
            }
        }
    }
}

/// C05: one event per arming in oneshot modes.
fn c05(b: &mut B) {
    use seq::Op::*;
    let os: Vec<PollMode> = if POLL_BACKEND { vec![Oneshot] } else { vec![Oneshot, EdgeOneshot] };
    for v in Variant::main() {
        for (k, av) in kinds_acts() {
            for &m in &os {
                let s = Setup::new(v, &[k]);
                let mut al = acts(0, &av);
                al.extend([Add(0, 0, 1, RW, m), Mod(0, 0, 2, RW, m), Mod(0, 0, 3, R, m), Wait(0, T::Zero), Wait(0, T::Ns(10)), Notify(0)]);
                b.seq(&format!("{k:?} {m:?}"), s, al, b.q(if matches!(k, Kind::Sock | Kind::Dgram) { 4 } else { 5 }, 6));
                let mut s = Setup::new(v, &[k]);
                s.pre = vec![Add(0, 0, 1, R, m)];
                let mut al = acts(0, &av);
                al.push(Wait(0, T::Zero));
                al.extend([RW, R, W, NO].iter().enumerate().map(|(i, &int)| Mod(0, 0, 2 + i, int, m)));
                b.seq(&format!("{k:?} {m:?}, any interest"), s, al, b.q(if matches!(k, Kind::Sock | Kind::Dgram) { 4 } else { 5 }, 6));
            }
        }
        // The default mode of add() and modify() is oneshot; other sources do not rearm it.
        let mut s = Setup::new(v, &[Kind::Sock, Kind::PipeR]);
        s.pre = vec![AddD(0, 0, 1, RW)];
        let al = vec![
            ModD(0, 0, 2, R),
            Wait(0, T::Zero),
            AddD(0, 1, 3, R),
            ModD(0, 1, 4, R),
            Del(0, 1),
            Act(0, A::Feed),
            Act(0, A::Hangup),
            Act(1, A::Feed),
            Act(1, A::Hangup),
        ];
        b.seq("default mode", s, al, b.q(5, 6));
        for &m in &os {
            many_modes(b, v, 300, 512, b.q(3, 4), m, m);
        }
    }
    for v in Variant::all() {
        let feed = C::Act(0, A::Feed);
        for &m in &os {
            let add = C::Add(0, RW, m);
            for (name, pre, w, t) in [
                ("TTT|mod", vec![add, feed], vec![C::WaitT(MS); 3], vec![C::Mod(0, RW, m)]),
                ("TTT|feed,feed", vec![add], vec![C::WaitT(MS); 3], vec![feed, feed]),
                ("TTT|hup", vec![add, feed], vec![C::WaitT(MS); 3], vec![C::Act(0, A::Hangup)]),
                ("TTT|mod,hup", vec![add, feed], vec![C::WaitT(MS); 3], vec![C::Mod(0, R, m), C::Act(0, A::Hangup)]),
            ] {
                b.conc(&format!("{m:?} {name}"), Prog::new(v, &[Kind::Sock], &pre, &[&w, &t]), if POLL_BACKEND { upto(b.q(3, 6)) } else { every() }, b.q(1, 4));
            }
            b.conc(
                &format!("{m:?} T|T|mod"),
                Prog::new(v, &[Kind::Sock], &[add, feed], &[&[C::WaitT(MS)], &[C::WaitT(MS)], &[C::Mod(0, R, m)]]),
                upto(b.q(2, 5)),
                b.q(1, 4),
            );
        }
    }
}

/// C06: what each mode means, and changing it.
fn c06(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        many_sources(b, v, 300, 512, b.q(3, 4));
        if !POLL_BACKEND {
            many_modes(b, v, 300, 512, b.q(3, 4), Edge, EdgeOneshot);
        }
        for (k, av) in kinds_acts() {
            let mut s = Setup::new(v, &[k]);
            s.pre = vec![Add(0, 0, 1, RW, Level)];
            let mut al = acts(0, &av);
            al.push(Wait(0, T::Zero));
            for (i, m) in modes().into_iter().enumerate() {
                al.push(Mod(0, 0, 10 + i, RW, m));
            }
            b.seq(&format!("{k:?} RW"), s.clone(), al, b.q(if matches!(k, Kind::Sock | Kind::Dgram) { 4 } else { 5 }, 6));
            // Every change from one interest and mode to another.
            let mut s = Setup::new(v, &[k]);
            s.pre = vec![Add(0, 0, 1, NO, modes()[0])];
            let mut al = acts(0, &av);
            al.push(Wait(0, T::Zero));
            for (i, m) in modes().into_iter().enumerate() {
                for (j, int) in [NO, R, W, RW].into_iter().enumerate() {
                    al.push(Mod(0, 0, 10 * i + j, int, m));
                }
            }
            b.seq(&format!("{k:?} any mode"), s, al, b.q(4, 5));
            if !POLL_BACKEND {
                for int in [R, W] {
                    for m in [Edge, EdgeOneshot] {
                        let mut s = Setup::new(v, &[k]);
                        s.pre = vec![Add(0, 0, 1, int, m)];
                        let mut al = acts(0, &av);
                        al.extend([Wait(0, T::Zero), Wait(0, T::Ns(10)), Mod(0, 0, 2, int, m)]);
                        b.seq(&format!("{k:?} {int:?} {m:?}"), s, al, b.q(5, 6));
                    }
                }
            }
        }
    }
    for v in Variant::all() {
        for k in [Kind::PipeR, Kind::PipeW, Kind::Sock, Kind::Evt] {
            let setup = Setup::new(v, &[k]);
            let opts = Opts { preemptions: Some(0), shard_depth: 1, ..Opts::default() };
            b.push(format!("modes as announced {k:?} {v:?}"), opts, 1, Box::new(move || seq::announced(&setup)));
        }
    }
    if POLL_BACKEND || PORTS {
        // Refused modes leave the registration as it was.
        let s = Setup::new(Variant::Plain, &[Kind::Sock]);
        let mut al = vec![Act(0, A::Feed), Act(0, A::Drain), Wait(0, T::Zero)];
        for m in [Oneshot, Level, Edge, EdgeOneshot] {
            al.push(Add(0, 0, 1, RW, m));
            al.push(Mod(0, 0, 2, R, m));
        }
        b.seq("refused modes", s, al, b.q(5, 6));
    }
}

/// C07: add, modify, delete succeed and fail exactly as documented, and failures change nothing.
fn c07(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        let mut s = Setup::new(v, &[Kind::Sock]);
        s.pre = vec![Act(0, A::Feed)];
        let mut al = vec![
            AddD(0, 0, 1, R),
            AddD(0, 0, MAXKEY, R),
            Add(0, 0, MAXKEY - 1, W, Level),
            Add(0, 0, MAXKEY, W, Level),
            ModD(0, 0, 2, W),
            ModD(0, 0, MAXKEY, RW),
            Mod(0, 0, 0, RW, Level),
            Mod(0, 0, MAXKEY, NO, Level),
            Add(0, 0, 3, RW, Edge),
            Mod(0, 0, 4, RW, EdgeOneshot),
            Mod(0, 0, 4, W, Edge),
            Del(0, 0),
            Wait(0, T::Zero),
        ];
        b.seq("one source", s.clone(), al.clone(), b.q(4, 5));
        al.truncate(5);
        al.extend([Mod(0, 0, 5, RW, Edge), Del(0, 0), Wait(0, T::Zero)]);
        b.seq("one source, few calls", s, al, b.q(5, 6));
        // Any call at all, twice.
        let mut s = Setup::new(v, &[Kind::Sock]);
        s.pre = vec![Act(0, A::Feed)];
        s.post = vec![Wait(0, T::Zero), Wait(0, T::Zero)];
        let mut al = vec![Del(0, 0), Wait(0, T::Zero)];
        for i in 0..16 {
            let int = Int { r: i & 1 != 0, w: i & 2 != 0, pri: i & 4 != 0, hup: i & 8 != 0 };
            for m in [Oneshot, Level, Edge, EdgeOneshot] {
                for k in [1, MAXKEY] {
                    al.extend([Add(0, 0, k, int, m), Mod(0, 0, k, int, m)]);
                }
            }
            for k in [1, MAXKEY] {
                al.extend([AddD(0, 0, k, int), ModD(0, 0, k, int)]);
            }
        }
        b.seq("any calls", s, al, 2);
        if !SIM {
            let s = Setup::new(v, &[Kind::File, Kind::PipeR]);
            let mut al = vec![Act(1, A::Feed), Wait(0, T::Zero), Wait(0, T::Ns(MS)), Renew(0)];
            for i in 0..2 {
                al.extend([AddD(0, i, 1 + i, R), Add(0, i, 3 + i, RW, Level), ModD(0, i, 5 + i, RW), Mod(0, i, 7 + i, NO, Level), Del(0, i)]);
            }
            al.extend([AddRef(0, 0, 9, W), Add(0, 0, MAXKEY, R, Level), Add(0, 0, 10, R, Edge)]);
            b.seq("a regular file", s, al, b.q(4, 5));
        }
        // Removal from every position, then everything must still be found.
        let n = 4;
        let mut s = Setup::new(v, &[Kind::PipeR; 4]);
        for i in 0..n {
            s.pre.push(Add(0, i, i, R, Level));
            s.pre.push(Act(i, A::Feed));
        }
        let mut al = vec![];
        for i in 0..n {
            al.extend([Del(0, i), Add(0, i, 10 + i, R, Oneshot), Mod(0, i, 20 + i, R, Level)]);
        }
        al.push(Wait(0, T::Zero));
        b.seq("four sources", s, al, b.q(4, 5));
        // Two descriptors for one file.
        let mut s = Setup::new(v, &[Kind::Sock]);
        s.dups = vec![0];
        let al = vec![
            Add(0, 0, 1, R, Level),
            Add(0, 1, 2, W, Level),
            Mod(0, 0, 3, RW, Oneshot),
            Mod(0, 1, 4, R, Oneshot),
            Del(0, 0),
            Del(0, 1),
            Act(0, A::Feed),
            Act(0, A::Drain),
            Wait(0, T::Zero),
        ];
        b.seq("duplicate descriptors", s, al, b.q(5, 6));
        // Oneshot entries that fired, among others, then removed from every position.
        let mut s = Setup::new(v, &[Kind::PipeR; 3]);
        for i in 0..3 {
            s.pre.push(AddD(0, i, i, R));
            s.pre.push(Act(i, A::Feed));
        }
        s.pre.push(Wait(0, T::Zero));
        let mut al = vec![];
        for i in 0..3 {
            al.extend([Del(0, i), AddD(0, i, 10 + i, R), ModD(0, i, 20 + i, R)]);
        }
        al.push(Wait(0, T::Zero));
        b.seq("fired oneshots", s, al, b.q(5, 6));
        many_sources(b, v, 300, 512, b.q(3, 4));
    }
}

/// C08: concurrent registration changes act one after another and reach a wait in progress.
fn c08(b: &mut B) {
    let v0 = Variant::Plain;
    let add = C::Add(0, R, Oneshot);
    let md = C::Mod(0, R, Level);
    let del = C::Del(0);
    let feed = C::Act(0, A::Feed);
    let names = |c: &C| match c {
        C::Add(..) => "a",
        C::Mod(..) => "m",
        C::Del(..) => "d",
        _ => "f",
    };
    let ops = [add, md, del];
    for pre in [vec![feed], vec![feed, C::Add(0, W, Oneshot)]] {
        for (i, x) in ops.iter().enumerate() {
            for y in &ops[i..] {
                let nm = format!("{}|{}", names(x), names(y));
                b.conc(&format!("pre{} {nm}", pre.len()), Prog::new(v0, &[Kind::PipeR], &pre, &[&[*x], &[*y]]), every(), 1);
                // With a wait in progress.
                b.conc(
                    &format!("pre{} {nm}|W", pre.len()),
                    Prog::new(v0, &[Kind::PipeR], &pre, &[&[*x], &[*y], &[C::Wait]]),
                    if POLL_BACKEND { upto(b.q(2, 4)) } else { every() },
                    b.q(1, 4),
                );
                for z in &ops {
                    b.conc(
                        &format!("pre{} {nm}{}", pre.len(), names(z)),
                        Prog::new(v0, &[Kind::PipeR], &pre, &[&[*x], &[*y, *z]]),
                        if POLL_BACKEND { upto(b.q(2, 4)) } else { every() },
                        1,
                    );
                    if b.thorough {
                        b.conc(
                            &format!("pre{} {nm}|{}", pre.len(), names(z)),
                            Prog::new(v0, &[Kind::PipeR], &pre, &[&[*x], &[*y], &[*z]]),
                            upto(4),
                            4,
                        );
                    }
                }
            }
        }
    }
    // Different sources, one wait.
    let two = &[Kind::PipeR, Kind::PipeR];
    for v in Variant::main() {
        for (name, pre, a, c, w) in [
            ("add0|add1|W", vec![feed], vec![add], vec![C::Add(1, R, Oneshot)], vec![C::Wait]),
            ("add0|add1,feed1|WW", vec![feed], vec![add], vec![C::Add(1, R, Oneshot), C::Act(1, A::Feed)], vec![C::Wait, C::Wait]),
            ("mod0|del1|W", vec![feed, C::Add(0, NO, Oneshot), C::Add(1, R, Level)], vec![C::Mod(0, R, Oneshot)], vec![C::Del(1)], vec![C::Wait]),
            ("del0|mod1|W", vec![C::Act(1, A::Feed), C::Add(0, R, Oneshot), C::Add(1, NO, Level)], vec![C::Del(0)], vec![C::Mod(1, R, Oneshot)], vec![C::Wait]),
            ("del0|del1|T", vec![feed, C::Add(0, R, Level), C::Add(1, R, Level)], vec![C::Del(0)], vec![C::Del(1)], vec![C::WaitT(MS)]),
        ] {
            b.conc(name, Prog::new(v, two, &pre, &[&a, &c, &w]), if POLL_BACKEND { upto(b.q(2, 4)) } else { upto(b.q(4, 8)) }, b.q(2, 8));
        }
    }
}

/// C09: time-outs.
fn c09(b: &mut B) {
    use seq::Op::*;
    let week = 7 * 86_400_000 * MS;
    for v in Variant::all() {
        let mut s = Setup::new(v, &[Kind::PipeR]);
        s.pre = vec![AddD(0, 0, 1, R)];
        let mut al: Vec<seq::Op> = [0, 1, MS - 1, MS, MS + 1, 1_500_000, 999 * MS + 999_999, week + 1]
            .into_iter()
            .map(|n| Wait(0, if n == 0 { T::Zero } else { T::Ns(n) }))
            .collect();
        al.extend([Notify(0), Act(0, A::Feed), Act(0, A::Drain), ModD(0, 0, 2, R), Wait(0, T::Inf)]);
        b.seq("after any history", s, al, b.q(4, 5));
        // Extremes.
        let s = Setup::new(v, &[Kind::PipeR]);
        let imax = i32::MAX as u64 * MS;
        let mut al: Vec<seq::Op> = [imax - 1, imax, imax + 1, imax + MS, 2 * imax + 2 * MS, u32::MAX as u64 * MS + 1, u32::MAX as u64 * 1000 * MS, (u32::MAX as u64 + 2) * 1000 * MS, u64::MAX]
            .into_iter()
            .map(|n| Wait(0, T::Ns(n)))
            .collect();
        al.extend([Wait(0, T::Max), Wait(0, T::Inf), Notify(0), AddD(0, 0, 3, R), Act(0, A::Feed), Wait(0, T::Zero), Wait(0, T::Ns(5))]);
        b.seq("extremes", s, al, b.q(4, 5));
        // Level sources that are ready or not, nothing else.
        let mut s = Setup::new(v, &[Kind::Sock]);
        s.pre = vec![Add(0, 0, 1, NO, Level)];
        let al = vec![
            Wait(0, T::Ns(1)),
            Wait(0, T::Ns(MS + 1)),
            Wait(0, T::Zero),
            Wait(0, T::Inf),
            Mod(0, 0, 2, W, Level),
            Mod(0, 0, 3, R, Level),
            Act(0, A::Fill),
            Act(0, A::Unfill),
        ];
        b.seq("level", s, al, b.q(5, 6));
        // Registration changes and events by others do not move the deadline.
        for (name, t) in [
            ("T|add,del", vec![C::Add(0, R, Oneshot), C::Del(0)]),
            ("T|add,mod", vec![C::Add(0, R, Oneshot), C::Mod(0, R, Oneshot)]),
        ] {
            for ns in [1, MS, MS + 1, 5 * MS - 1] {
                let p = Prog::new(v, &[Kind::PipeR], &[], &[&[C::WaitT(ns), C::WaitT(ns)], &t]);
                let o = Opts { half: 1, ..upto(b.q(2, 5)) };
                b.conc(&format!("{name} {ns}"), p, o, 1);
            }
        }
        // Likewise in the middle of the wait.
        let (p1, p2) = (C::Pause(2 * MS + 1), C::Pause(MS / 2));
        for (name, t) in [
            ("T|-add-mod-del", vec![p1, C::Add(0, R, Oneshot), p2, C::Mod(0, W, Level), p2, C::Del(0)]),
            ("T|-add-feed-add", vec![p1, C::Add(0, R, Oneshot), p2, C::Act(0, A::Feed), p2, C::Del(0), C::Add(0, R, Level)]),
            ("T|-notify-notify", vec![p1, C::Notify, p1, C::Notify, p2, C::Notify]),
            ("T|-wait-wait", vec![p1, C::WaitT(1), p1, C::WaitT(0), p2, C::Add(0, R, Oneshot)]),
        ] {
            for ns in [3 * MS, 5 * MS - 1, 1000 * MS] {
                let p = Prog::new(v, &[Kind::PipeR], &[], &[&[C::WaitT(ns), C::WaitT(ns)], &t]);
                b.conc(&format!("{name} {ns}"), p, upto(b.q(2, 5)), 1);
            }
        }
    }
}

/// C10: signals do not show.
fn c10(b: &mut B) {
    let feed = C::Act(0, A::Feed);
    let add = C::Add(0, R, Oneshot);
    for v in Variant::all() {
        for ns in [0, 1, MS, MS + 1, 3 * MS + 7, 10_000 * MS] {
            let p = Prog::new(v, &[Kind::PipeR], &[add], &[&[C::WaitT(ns), C::WaitT(ns)]]);
            let o = Opts { half: b.q(2, 3), signals: b.q(3, 4), ..every() };
            b.conc(&format!("T {ns} + signals"), p, o, 1);
        }
        for (name, pre, w, t) in [
            ("W|N", vec![], vec![C::Wait], vec![C::Notify]),
            ("WW|NN", vec![], vec![C::Wait; 2], vec![C::Notify; 2]),
            ("W|feed", vec![add], vec![C::Wait], vec![feed]),
            ("serve|feed,feed", vec![add], vec![C::Serve(2, R, Oneshot)], vec![feed, feed]),
            ("TW|N", vec![], vec![C::WaitT(MS), C::Wait], vec![C::Notify]),
            ("W|add", vec![feed], vec![C::Wait], vec![add]),
            ("TT|mod", vec![add, feed], vec![C::WaitT(2 * MS); 2], vec![C::Mod(0, R, Oneshot)]),
            ("TT|feed", vec![add], vec![C::WaitT(2 * MS); 2], vec![feed]),
        ] {
            let o = Opts { half: 1, signals: 2, ..upto(b.q(3, 8)) };
            b.conc(&format!("{name} + signals"), Prog::new(v, &[Kind::PipeR], &pre, &[&w, &t]), o, b.q(1, 4));
        }
        // Many of them on end.
        let p = Prog::new(v, &[Kind::PipeR], &[add], &[&[C::WaitT(MS + 1), C::WaitT(0)]]);
        b.conc("T0 + 1000 signals", Prog { storm: 1000, ..p }, every(), 1);
        for (name, pre, w, t) in [
            ("W|N", vec![], vec![C::Wait], vec![C::Notify]),
            ("W|feed", vec![add], vec![C::Wait], vec![feed]),
            ("TW|N", vec![], vec![C::WaitT(MS), C::Wait], vec![C::Notify]),
        ] {
            let p = Prog::new(v, &[Kind::PipeR], &pre, &[&w, &t]);
            b.conc(&format!("{name} + 70 signals"), Prog { storm: 70, ..p }, upto(b.q(1, 2)), 1);
        }
    }
}

/// C11: one waiter at a time; the others return at once and disturb nothing.
fn c11(b: &mut B) {
    let feed = C::Act(0, A::Feed);
    let add = C::Add(0, R, Oneshot);
    for v in Variant::all() {
        for (name, pre, t) in [
            ("W|W", vec![], vec![vec![C::Wait], vec![C::Wait]]),
            ("W|T", vec![], vec![vec![C::Wait], vec![C::WaitT(MS)]]),
            ("T|T", vec![], vec![vec![C::WaitT(MS)], vec![C::WaitT(2 * MS)]]),
            ("W|W|N", vec![], vec![vec![C::Wait], vec![C::Wait], vec![C::Notify]]),
            ("W|T|N", vec![], vec![vec![C::Wait], vec![C::WaitT(MS)], vec![C::Notify]]),
            ("W|TT|feed", vec![add], vec![vec![C::Wait], vec![C::WaitT(MS); 2], vec![feed]]),
            ("WW|T|N", vec![], vec![vec![C::Wait; 2], vec![C::WaitT(MS)], vec![C::Notify]]),
            ("W|W|feed", vec![add], vec![vec![C::Wait], vec![C::Wait], vec![feed]]),
            ("W|W|W", vec![], vec![vec![C::Wait], vec![C::Wait], vec![C::Wait]]),
            ("W|W|add", vec![feed], vec![vec![C::Wait], vec![C::Wait], vec![add]]),
            ("W|T0,T0|N", vec![], vec![vec![C::Wait], vec![C::WaitT(0); 2], vec![C::Notify]]),
        ] {
            let th: Vec<&[C]> = t.iter().map(|x| &x[..]).collect();
            let o = if th.len() == 2 { every() } else { upto(b.q(2, 5)) };
            b.conc(name, Prog::new(v, &[Kind::PipeR], &pre, &th), o, b.q(1, 4));
        }
    }
}

/// C12: making a poller while the kernel refuses things.
fn c12(b: &mut B) {
    const FEW: &[i32] = &[ENOSYS, EMFILE];
    const MANY: &[i32] = &[ENOSYS, EMFILE, ENOMEM, EPERM, 22, 23];
    for n in 1..=b.q(3, 6) {
        let o = Opts { preemptions: Some(0), ..Opts::default() };
        let errnos = if n <= b.q(2, 4) { MANY } else { FEW };
        b.push(format!("new with {n} refusals of {errnos:?}"), o, 1, Box::new(move || faults::construct(n, errnos)));
    }
}

/// C13: a kernel without eventfd, timerfd or pipe2 makes no observable difference but granularity.
fn c13(b: &mut B) {
    use seq::Op::*;
    for (k, av) in kinds_acts() {
        for m in modes() {
            let mut al = acts(0, &av);
            al.extend([Add(0, 0, 1, RW, m), Mod(0, 0, 2, R, m), Del(0, 0), Notify(0), Wait(0, T::Zero), Wait(0, T::Ns(MS + 1)), Wait(0, T::Inf)]);
            b.same(&format!("{k:?} {m:?}"), &[k], &[], al, b.q(if matches!(k, Kind::Sock | Kind::Dgram) { 3 } else { 4 }, 5));
        }
    }
    let times = [1, 999_999, MS, MS + 1, 2 * MS - 1, 1000 * MS + 1, 86_400_000 * MS];
    let mut al: Vec<seq::Op> = times.iter().map(|&n| Wait(0, T::Ns(n))).collect();
    al.extend([Wait(0, T::Max), Wait(0, T::Zero), Notify(0), Act(0, A::Feed), Act(0, A::Drain), ModD(0, 0, 3, R)]);
    b.same("timeouts", &[Kind::PipeR], &[AddD(0, 0, 1, R)], al, b.q(4, 5));
    let mut al = vec![Wait(0, T::Zero), Notify(0), Renew(0)];
    for i in 0..3 {
        al.extend([Add(0, i, 10 + i, RW, Level), ModD(0, i, 20 + i, R), Del(0, i), Act(i, A::Feed)]);
    }
    b.same("three sources", &[Kind::PipeR, Kind::Sock, Kind::Evt], &[], al, b.q(4, 5));
}

/// C14: pollers do not disturb each other.
fn c14(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        for m in modes() {
            let mut s = Setup::new(v, &[Kind::Sock]);
            s.pollers = 2;
            s.post = vec![Wait(0, T::Zero), Wait(1, T::Zero), Wait(0, T::Zero), Wait(1, T::Zero)];
            let al = vec![
                Add(0, 0, 1, RW, m),
                Add(1, 0, 2, R, m),
                Mod(0, 0, 3, R, m),
                Mod(1, 0, 4, R, m),
                Del(0, 0),
                Del(1, 0),
                Act(0, A::Feed),
                Act(0, A::Drain),
                Wait(0, T::Zero),
                Wait(1, T::Zero),
                Notify(0),
            ];
            b.seq(&format!("two pollers {m:?}"), s, al, b.q(4, 6));
        }
        let mut s = Setup::new(v, &[Kind::PipeR]);
        s.pollers = 2;
        s.pre = vec![AddD(0, 0, 1, R), Add(1, 0, 2, R, Level)];
        let al = vec![
            Notify(0),
            Notify(1),
            Wait(0, T::Inf),
            Wait(1, T::Inf),
            Wait(0, T::Ns(MS)),
            Wait(1, T::Ns(7)),
            Act(0, A::Feed),
            Renew(0),
            Renew(1),
        ];
        b.seq("notify the one, not the other", s, al, b.q(5, 6));
    }
    at_once(b);
}
/// Two pollers in use at the same time.
fn at_once(b: &mut B) {
    let pipe = &[Kind::PipeR];
    let add = C::Add(0, R, Oneshot);
    let feed = C::Act(0, A::Feed);
    let modr = C::Mod(0, R, Oneshot);
    for v in Variant::main() {
        let one = |pre: &[C], t: &[&[C]]| Prog::new(v, pipe, pre, t);
        let (w, n) = (C::Wait, C::Notify);
        let all = |p: usize| if POLL_BACKEND || WIN { upto(p as u32) } else { every() };
        for (name, a, c, p) in [
            ("W|N + W", one(&[], &[&[w], &[n]]), one(&[], &[&[w]]), 4),
            ("WW + N,W", one(&[], &[&[w, w]]), one(&[], &[&[n, w]]), 4),
            ("T + T", one(&[], &[&[C::WaitT(MS)]]), one(&[], &[&[C::WaitT(3 * MS)]]), 4),
            ("TT + T0", one(&[], &[&[C::WaitT(MS), C::WaitT(5 * MS)]]), one(&[], &[&[C::WaitT(0), C::WaitT(0)]]), 4),
            ("T + W|N", one(&[], &[&[C::WaitT(MS)]]), one(&[], &[&[w], &[n]]), 3),
            ("W|feed + W|feed", one(&[add], &[&[w], &[feed]]), one(&[add], &[&[w], &[feed]]), 3),
            ("W|add + W|mod", one(&[feed], &[&[w], &[add]]), one(&[feed, C::Add(0, NO, Oneshot)], &[&[w], &[modr]]), 3),
            ("W|N + add,del", one(&[], &[&[w], &[n]]), one(&[], &[&[add, C::Del(0)]]), 3),
        ] {
            let o = match p {
                4 => all(4),
                _ if POLL_BACKEND => upto(b.q(1, 2)),
                _ => upto(b.q(2, 4)),
            };
            b.both(name, vec![a, c], o);
        }
        for (name, p) in [
            ("W|N|other", one(&[], &[&[w], &[n], &[C::Fresh]])),
            ("TT|other", one(&[], &[&[C::WaitT(MS), C::WaitT(3 * MS)], &[C::Fresh]])),
            ("W|feed|other", one(&[add], &[&[w], &[feed], &[C::Fresh]])),
        ] {
            b.conc(name, p, upto(b.q(2, 3)), 1);
        }
    }
}

/// C15: priority, interrupt and error information.
fn c15(b: &mut B) {
    use seq::Op::*;
    let o = Opts { preemptions: Some(0), ..Opts::default() };
    let n = b.q(4, 5);
    b.push(format!("event values len {n}"), o, 1, Box::new(move || values::events(n)));
    for v in Variant::main() {
        for m in modes() {
            let mut s = Setup::new(v, &[Kind::Tcp]);
            s.pre = vec![Add(0, 0, 1, NO, m)];
            let al = vec![
                Mod(0, 0, 2, PRI, m),
                Mod(0, 0, 3, R, m),
                Mod(0, 0, 4, WPRI, m),
                Del(0, 0),
                Add(0, 0, 6, PRI, m),
                Act(0, A::Urgent),
                Act(0, A::TakeUrgent),
                Act(0, A::Feed),
                Wait(0, T::Zero),
            ];
            b.seq(&format!("urgent data {m:?}"), s, al, b.q(4, 5));
            for (k, av) in kinds_acts() {
                let mut s = Setup::new(v, &[k]);
                s.pre = vec![Add(0, 0, 1, HUP, m)];
                let mut al = acts(0, &av);
                al.extend([Mod(0, 0, 2, PRI, m), Mod(0, 0, 3, HUP, m), Mod(0, 0, 4, RHUP, m), Mod(0, 0, 5, NO, m), Mod(0, 0, 6, W, m), Del(0, 0), Add(0, 0, 7, HUP, m), Wait(0, T::Zero)]);
                b.seq(&format!("hang-up {k:?} {m:?}"), s, al, b.q(4, 5));
            }
        }
    }
}

/// C16: small containers deliver in batches and lose nothing.
fn c16(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        many_sources(b, v, 130, 16, b.q(3, 4));
        many_sources(b, v, 70, 1, b.q(3, 4));
        many_sources(b, v, 2100, 0, b.q(2, 2));
        for cap in [1, 2, 3] {
            for m in [Oneshot, Level] {
                let n = 4;
                let mut s = Setup::new(v, &[Kind::PipeR; 4]);
                s.cap = cap;
                for i in 0..n {
                    s.pre.push(Add(0, i, i, R, m));
                }
                s.post = vec![Wait(0, T::Zero); 8];
                let mut al = vec![Wait(0, T::Zero), Wait(0, T::Inf), Notify(0), Wait(0, T::Ns(MS))];
                for i in 0..n {
                    al.push(Act(i, A::Feed));
                }
                al.push(Act(0, A::Drain));
                al.push(Mod(0, 1, 9, R, m));
                b.seq(&format!("cap {cap} {m:?}"), s, al, b.q(4, 6));
            }
        }
        // Containers that nobody empties in between.
        for m in modes() {
            for cap in [1, 8] {
                let mut s = Setup::new(v, &[Kind::PipeR, Kind::Sock]);
                s.cap = cap;
                s.dirty = true;
                s.pre = vec![Add(0, 0, 1, R, m), Add(0, 1, 2, RW, m)];
                s.post = vec![Wait(0, T::Zero); 3];
                let al = vec![
                    Act(0, A::Feed), Act(0, A::Drain), Act(1, A::Feed), Mod(0, 0, 3, R, m), Mod(0, 1, 4, W, m), Mod(0, 1, 5, NO, m), Del(0, 0),
                    Wait(0, T::Zero), Wait(0, T::Inf), Wait(0, T::Ns(MS)), Notify(0),
                ];
                b.seq(&format!("used container of {cap} {m:?}"), s, al, b.q(4, 6));
            }
        }
        for (name, pre, t) in [
            ("T0 W|T0 W|N", vec![C::Add(0, R, Level), C::Act(0, A::Feed)], vec![vec![C::WaitT(0), C::Wait], vec![C::WaitT(0), C::Wait], vec![C::Notify]]),
            ("T0 W|N", vec![C::Add(0, R, Oneshot), C::Act(0, A::Feed)], vec![vec![C::WaitT(0), C::Wait], vec![C::Notify]]),
            ("T0 T T|del", vec![C::Add(0, R, Level), C::Act(0, A::Feed)], vec![vec![C::WaitT(0), C::WaitT(MS), C::WaitT(MS)], vec![C::Del(0)]]),
            ("T0 W W|drain,feed", vec![C::Add(0, R, Level), C::Act(0, A::Feed)], vec![vec![C::WaitT(0), C::WaitT(MS), C::WaitT(MS)], vec![C::Act(0, A::Drain), C::Act(0, A::Feed)]]),
        ] {
            let th: Vec<&[C]> = t.iter().map(|t| &t[..]).collect();
            let mut p = Prog::new(v, &[Kind::PipeR], &pre, &th);
            p.dirty = true;
            b.conc(&format!("used containers {name}"), p, if POLL_BACKEND || t.len() > 2 { upto(b.q(3, 5)) } else { every() }, b.q(1, 4));
        }
        // A container of one while others notify and change things.
        let two = &[Kind::PipeR, Kind::PipeR];
        let feed = C::Act(0, A::Feed);
        let feed1 = C::Act(1, A::Feed);
        for m in modes() {
            let add = C::Add(0, R, m);
            let add1 = C::Add(1, R, m);
            let t = C::WaitT(MS);
            for (name, pre, w, x) in [
                ("TTT|N", vec![add, add1, feed, feed1], vec![t; 3], vec![C::Notify]),
                ("TTT|feed,feed1", vec![add, add1], vec![t; 3], vec![feed, feed1]),
                ("TTT|N,feed,feed1", vec![add, add1], vec![t; 3], vec![C::Notify, feed, feed1]),
                ("serve|feed,feed1", vec![add, add1], vec![C::Serve(3, R, m)], vec![feed, feed1]),
                ("serve|feed,feed1,N", vec![add, add1], vec![C::Serve(3, R, m)], vec![feed, feed1, C::Notify]),
                ("WW|feed,add1", vec![add, feed1], vec![C::Wait; 2], vec![feed, add1]),
                ("WW|mod,N", vec![add, add1, feed], vec![C::Wait; 2], vec![C::Mod(0, R, m), C::Notify]),
            ] {
                let mut p = Prog::new(v, two, &pre, &[&w, &x]);
                p.cap = 1;
                b.conc(&format!("{m:?} {name}"), p, if POLL_BACKEND { upto(b.q(3, 6)) } else { every() }, b.q(1, 4));
            }
        }
        if !POLL_BACKEND {
            for m in [Edge, EdgeOneshot] {
                let mut s = Setup::new(v, &[Kind::Evt; 3]);
                s.cap = 1;
                for i in 0..3 {
                    s.pre.push(Add(0, i, i, R, m));
                }
                s.post = vec![Wait(0, T::Zero); 6];
                let mut al = vec![Wait(0, T::Zero), Notify(0), Wait(0, T::Ns(MS))];
                for i in 0..3 {
                    al.push(Act(i, A::Feed));
                    al.push(Act(i, A::Drain));
                }
                b.seq(&format!("cap 1 {m:?}"), s, al, b.q(5, 6));
            }
        }
    }
}

/// C17: descriptors: numbers reused, high numbers, duplicates, pollers dropped and made anew.
fn c17(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        for m in [Oneshot, Level] {
            let s = Setup::new(v, &[Kind::PipeR, Kind::Sock]);
            let al = vec![
                Add(0, 0, 1, R, m),
                Add(0, 1, 2, R, m),
                Del(0, 0),
                Del(0, 1),
                Reopen(0),
                Reopen(1),
                Act(0, A::Feed),
                Act(1, A::Feed),
                Wait(0, T::Zero),
                Renew(0),
            ];
            b.seq(&format!("reuse {m:?}"), s, al, b.q(5, 6));
        }
        for (name, at) in [
            ("high numbers", vec![(0, 1023), (1, 1024), (2, 1500)]),
            ("standard numbers", vec![(0, 0), (2, 255)]),
            ("highest numbers", vec![(0, fd_limit() - 1), (1, fd_limit() - 2), (2, fd_limit() / 2)]),
        ] {
            let mut s = Setup::new(v, &[Kind::PipeR, Kind::Sock, Kind::PipeW]);
            s.at = at;
            let al = vec![
                Add(0, 0, 1, R, Level),
                AddD(0, 1, 2, RW),
                Add(0, 2, 3, W, Level),
                ModD(0, 1, 4, R),
                Del(0, 0),
                Del(0, 2),
                AddRef(0, 0, 5, R),
                Act(0, A::Feed),
                Act(1, A::Feed),
                Wait(0, T::Zero),
            ];
            b.seq(name, s, al, if name == "high numbers" { b.q(5, 6) } else { b.q(4, 5) });
        }
        for m in modes() {
            let mut s = Setup::new(v, &[Kind::PipeR, Kind::Sock, Kind::Evt]);
            s.plain = true;
            let al = vec![
                Add(0, 0, 1, RW, m),
                Add(0, 1, 2, R, m),
                Add(0, 2, 3, R, m),
                Mod(0, 0, 4, R, m),
                Mod(0, 1, 5, PRI, m),
                Del(0, 2),
                Act(0, A::Feed),
                Act(1, A::Shut),
                Act(2, A::Feed),
                Act(2, A::Drain),
                Wait(0, T::Zero),
                Wait(0, T::Ns(MS)),
                Renew(0),
            ];
            b.seq(&format!("blocking sources {m:?}"), s, al, b.q(4, 5));
        }
        // Two descriptors for one file.
        for m in modes() {
            let mut s = Setup::new(v, &[Kind::Sock]);
            s.dups = vec![0];
            let al = vec![
                Add(0, 0, 1, R, m),
                Add(0, 1, 2, RW, m),
                Mod(0, 0, 3, W, m),
                Mod(0, 1, 4, NO, m),
                Del(0, 0),
                Del(0, 1),
                Act(0, A::Feed),
                Act(1, A::Drain),
                Wait(0, T::Zero),
                Wait(0, T::Inf),
            ];
            b.seq(&format!("duplicates {m:?}"), s, al, b.q(4, 5));
        }
    }
}

/// C18: a poller's own descriptor, watched by another poller.
fn c18(b: &mut B) {
    use seq::Op::*;
    if POLL_BACKEND {
        return;
    }
    for v in Variant::all() {
        for m in modes() {
            for k in [Kind::PipeR, Kind::Sock] {
                let mut s = Setup::new(v, &[k]);
                s.nested = true;
                s.post = vec![Outer(0), Wait(0, T::Zero), Wait(0, T::Zero), Outer(0)];
                let al = vec![
                    Add(0, 0, 1, RW, m),
                    Mod(0, 0, 2, R, m),
                    Del(0, 0),
                    Act(0, A::Feed),
                    Act(0, A::Drain),
                    Notify(0),
                    Wait(0, T::Zero),
                    Wait(0, T::Ns(MS)),
                    Wait(0, T::Inf),
                    Outer(0),
                ];
                b.seq(&format!("nested {k:?} {m:?}"), s, al, b.q(4, 6));
            }
        }
    }
    // An event loop sleeps on the outer poller while others use the inner one.
    let feed = C::Act(0, A::Feed);
    let (o, n, t) = (C::Outer, C::Notify, C::WaitT(MS));
    for v in Variant::all() {
        for how in if PORTS { vec![Oneshot] } else { vec![Level, Oneshot] } {
            for (name, threads) in [
                ("OO|n", vec![vec![o, o], vec![n]]),
                ("OO|n,n", vec![vec![o, o], vec![n, n]]),
                ("OO|n|n", vec![vec![o, o], vec![n], vec![n]]),
                ("O|n|T", vec![vec![o], vec![n], vec![t]]),
            ] {
                let mut p = Prog::new(v, &[], &[], &threads.iter().map(|t| &t[..]).collect::<Vec<_>>());
                p.outer = Some(how);
                b.conc(&format!("outer {how:?} {name}"), p, if threads.len() > 2 { upto(b.q(2, 4)) } else { every() }, b.q(1, 4));
            }
            for m in modes() {
                let add = C::Add(0, R, m);
                let md = C::Mod(0, R, m);
                let none = C::Mod(0, NO, m);
                for (name, pre, threads) in [
                    ("OO|feed", vec![add], vec![vec![o, o], vec![feed]]),
                    ("OO|add", vec![feed], vec![vec![o, o], vec![add]]),
                    ("OO|none,mod", vec![feed, C::Add(0, NO, m)], vec![vec![o, o], vec![none, md]]),
                    ("OO|del,add", vec![add], vec![vec![o, o], vec![C::Del(0), feed, add]]),
                    ("OOO|feed,n,mod", vec![add], vec![vec![o, o, o], vec![feed, n, md]]),
                    ("O|T|feed", vec![add], vec![vec![o], vec![t], vec![feed]]),
                ] {
                    let mut p = Prog::new(v, &[Kind::PipeR], &pre, &threads.iter().map(|t| &t[..]).collect::<Vec<_>>());
                    p.outer = Some(how);
                    b.conc(&format!("outer {how:?} {m:?} {name}"), p, if threads.len() > 2 { upto(b.q(2, 4)) } else { every() }, b.q(1, 4));
                }
            }
        }
    }
}

/// C19: calls the kernel refuses report it and change nothing.
fn c19(b: &mut B) {
    use seq::Op::*;
    for v in Variant::main() {
        for m in modes() {
            let s = Setup::new(v, &[Kind::Sock]);
            let mut al = vec![
                AddErr(0, 0, 11, RW, m, ENOSPC),
                AddErr(0, 0, 12, R, m, ENOMEM),
                ModErr(0, 0, 13, W, m, ENOMEM),
                WaitErr(0, ENOMEM),
                DelErr(0, 0, EPERM),
                Add(0, 0, 1, R, m),
                Mod(0, 0, 2, RW, m),
                Del(0, 0),
                Act(0, A::Feed),
                Act(0, A::Drain),
                Notify(0),
                Wait(0, T::Zero),
                Wait(0, T::Inf),
            ];
            if POLL_BACKEND {
                al.drain(0..3);
                al.remove(1);
            }
            if PORTS {
                al.push(NotifyErr(0, EAGAIN));
            } else if !SIM && !POLL_BACKEND {
                al.push(NotifyErr(0, ENOMEM));
            }
            b.seq(&format!("refusals {m:?}"), s, al, b.q(5, 6));
        }
        let mut s = Setup::new(v, &[Kind::PipeR; 3]);
        for i in 0..3 {
            s.pre.push(Add(0, i, i, R, Oneshot));
            s.pre.push(Act(i, A::Feed));
        }
        let mut al = vec![WaitErr(0, 22), Wait(0, T::Zero), Wait(0, T::Ns(MS + 1)), Notify(0)];
        for i in 0..3 {
            al.extend([Del(0, i), ModErr(0, i, 40 + i, R, Level, ENOMEM), AddErr(0, i, 50 + i, R, Level, ENOSPC), ModD(0, i, 20 + i, R)]);
        }
        b.seq("refusals, three sources", s, al, b.q(4, 5));
    }
    // A wait that fails while others work.
    for v in Variant::all() {
        let feed = C::Act(0, A::Feed);
        let add = C::Add(0, R, Oneshot);
        for (name, pre, t) in [
            ("WW|N", vec![], vec![vec![C::Wait, C::Wait], vec![C::Notify]]),
            ("WW|NN", vec![], vec![vec![C::Wait, C::Wait], vec![C::Notify, C::Notify]]),
            ("WW|add,feed", vec![], vec![vec![C::Wait, C::Wait], vec![add, feed]]),
            ("WW|mod", vec![add, feed], vec![vec![C::Wait, C::Wait], vec![C::Mod(0, R, Oneshot)]]),
            ("WW|del", vec![add], vec![vec![C::Wait, C::Wait], vec![C::Del(0)]]),
            ("WW|W", vec![add, feed], vec![vec![C::Wait, C::Wait], vec![C::Wait]]),
            ("WW|add|N", vec![feed], vec![vec![C::Wait, C::Wait], vec![add], vec![C::Notify]]),
        ] {
            let th: Vec<&[C]> = t.iter().map(|x| &x[..]).collect();
            let mut p = Prog::new(v, &[Kind::PipeR], &pre, &th);
            p.faults = b.q(1, 2);
            let o = if th.len() == 2 { every() } else { upto(b.q(2, 4)) };
            b.conc(&format!("{name} + refusals"), p, o, b.q(1, 4));
        }
        // A notification that is refused, and sent again.
        if !KQ {
            for (name, pre, t) in [
                ("WW|NN", vec![], vec![vec![C::Wait, C::Wait], vec![C::Notify, C::Notify]]),
                ("TW|NNN", vec![], vec![vec![C::WaitT(MS), C::Wait], vec![C::Notify; 3]]),
                ("WW|N,feed,N", vec![add], vec![vec![C::Wait, C::Wait], vec![C::Notify, feed, C::Notify]]),
                ("WW|NN|mod", vec![add], vec![vec![C::Wait, C::Wait], vec![C::Notify, C::Notify], vec![C::Mod(0, RW, Oneshot)]]),
            ] {
                let th: Vec<&[C]> = t.iter().map(|x| &x[..]).collect();
                let mut p = Prog::new(v, &[Kind::PipeR], &pre, &th);
                p.nfaults = b.q(1, 2);
                let o = if th.len() == 2 { every() } else { upto(b.q(2, 3)) };
                b.conc(&format!("{name} + refused notifications"), p, o, b.q(1, 4));
            }
        }
    }
}

impl B {
    /// The items of other properties, on a simulated system.
    fn all_of(&mut self, fs: &[(&'static str, fn(&mut B))]) {
        for (p, f) in fs {
            self.prefix = p;
            f(self);
        }
        self.prefix = "";
    }
}
/// C20: kqueue: registration and delivery.
fn c20(b: &mut B) {
    b.all_of(&[
        ("report ", c03),
        ("truth ", c04),
        ("oneshot ", c05),
        ("modes ", c06),
        ("results ", c07),
        ("pollers ", c14),
        ("batches ", c16),
        ("descriptors ", c17),
        ("refusals ", c19),
    ]);
}
/// C21: kqueue: notifications, time-outs, threads.
fn c21(b: &mut B) {
    b.all_of(&[
        ("lost ", c01),
        ("once ", c02),
        ("changes ", c08),
        ("time ", c09),
        ("signals ", c10),
        ("waiters ", c11),
        ("new ", c12),
    ]);
}
/// C22: kqueue: signals, processes and timers.
#[cfg(not(any(mcbk = "freebsd", mcbk = "netbsd")))]
fn c22(_: &mut B) {}
#[cfg(any(mcbk = "freebsd", mcbk = "netbsd"))]
fn c22(b: &mut B) {
    use crate::kqf::{self, Op::*, F};
    use polling::os::kqueue::ProcessOps::*;
    let th = b.thorough;
    let mut seq = |name: String, pre: Vec<kqf::Op>, al: Vec<kqf::Op>, depth: usize| {
        let shards = ((al.len() as f64).powi(depth as i32) / 100_000.0).ceil().clamp(1.0, 64.0) as u64;
        let opts = Opts { preemptions: Some(0), shard_depth: 2, ..Opts::default() };
        b.push(format!("filters {name} len {depth}"), opts, shards, Box::new(move || kqf::sequences(&pre, &al, depth)));
    };
    for m in [Oneshot, Level, Edge, EdgeOneshot] {
        let s = F::Sig(10);
        seq(format!("signal {m:?}"), vec![], vec![
            Add(s, 1, m), Mod(s, 2, m), Del(s), AddErr(s, 3, m), Signal(10), Signal(12), Add(F::Sig(12), 4, m), Wait(0), Wait(5), Notify,
        ], if th { 6 } else { 5 });
        let p = F::Proc(4242, Exit);
        let f = F::Proc(4242, Fork);
        let x = F::Proc(4242, Exec);
        seq(format!("process {m:?}"), vec![], vec![
            Add(p, 1, m), Mod(p, 2, m), Del(p), AddErr(f, 3, m), Add(f, 4, m), Mod(x, 5, m), Does(4242, Exit), Does(4242, Fork), Does(4242, Exec), Wait(0), Wait(5),
        ], if th { 6 } else { 5 });
        let t = |n| F::Timer(1, n);
        seq(format!("timer {m:?}"), vec![], vec![
            Add(t(5 * MS), 1, m), Mod(t(7 * MS), 2, m), Mod(t(2_500_000), 3, m), Del(t(0)), Add(F::Timer(usize::MAX, 6 * MS), 4, m), AddErr(t(MS), 5, m),
            Wait(0), Wait(2 * MS), Wait(100 * MS), Sleep(3 * MS), Sleep(20 * MS), Notify,
        ], if th { 6 } else { 5 });
        seq(format!("all with one number {m:?}"), vec![Feed], vec![
            AddFd(1), DelFd, Add(F::Sig(5), 2, m), Del(F::Sig(5)), Signal(5), Add(F::Proc(5, Fork), 3, m), Del(F::Proc(5, Fork)), Does(5, Fork),
            Add(F::Timer(5, 5 * MS), 4, m), Del(F::Timer(5, 5 * MS)), Mod(F::Sig(5), 6, m), Mod(F::Timer(5, 4 * MS), 7, m), Wait(0), Wait(9 * MS),
        ], if th { 5 } else { 4 });
    }
    use kqf::C as K;
    let ops = [K::Add, K::Mod, K::Del];
    for f in [F::Sig(10), F::Proc(4242, Fork), F::Timer(3, 5 * MS)] {
        for pre in [vec![], vec![K::Add]] {
            for (i, &x) in ops.iter().enumerate() {
                for &y in &ops[i..] {
                    let mut ths = vec![vec![vec![x], vec![y]], vec![vec![x], vec![y], vec![K::Fire, K::Wait]]];
                    for &z in &ops {
                        ths.push(vec![vec![x], vec![y, z]]);
                        ths.push(vec![vec![x, z], vec![y]]);
                    }
                    for t in ths {
                        let pre = pre.clone();
                        let mut o = every();
                        o.shard_depth = 8;
                        b.push(format!("filter {f:?} after {pre:?}: {t:?}"), o, 1, Box::new(move || kqf::threads(f, &pre, &t)));
                    }
                }
            }
        }
    }
}
/// C23: event ports.
fn c23(b: &mut B) {
    c20(b);
    c21(b);
}
/// C27: poll() and epoll as other systems have them.
fn c27(b: &mut B) {
    if REDOX || HAIKU {
        return b.all_of(&[("lost ", c01), ("once ", c02), ("results ", c07), ("time ", c09), ("new ", c12)]);
    }
    if VITA && !b.thorough {
        return b.all_of(&[("lost ", c01), ("once ", c02), ("changes ", c08), ("waiters ", c11), ("new ", c12)]);
    }
    c20(b);
    c21(b);
    b.all_of(&[("faults ", c18)]);
}
/// C24: completion ports: registration and delivery.
#[cfg(not(mcbk = "windows"))]
fn c24(_: &mut B) {}
#[cfg(not(mcbk = "windows"))]
fn c26(_: &mut B) {}
#[cfg(mcbk = "windows")]
impl B {
    fn iocp(&mut self, name: &str, setup: crate::iocp::Setup, alphabet: Vec<crate::iocp::Op>, depth: usize) {
        let big = alphabet.iter().any(|o| matches!(o, crate::iocp::Op::Many(n) if *n > 100));
        let shards = ((alphabet.len() as f64).powi(depth as i32) / if big { 60.0 } else { 150_000.0 }).ceil().clamp(1.0, 64.0) as u64;
        let mut opts = Opts { preemptions: Some(0), shard_depth: if depth > 2 { 2 } else { 1 }, ..Opts::default() };
        if alphabet.iter().any(|o| matches!(o, crate::iocp::Op::Many(_))) {
            opts.max_steps = 3_000_000;
        }
        self.push(format!("ports {name} len {depth}"), opts, shards, Box::new(move || crate::iocp::sequences(&setup, &alphabet, depth)));
    }
}
#[cfg(mcbk = "windows")]
fn c24(b: &mut B) {
    use crate::iocp::{Op::*, Setup};
    use mcstd::sysc::Sys;
    for (k, av) in kinds_acts().into_iter().filter(|(k, _)| matches!(k, Kind::Sock | Kind::Tcp)) {
        for layered in [false, true] {
            for m in [Oneshot, Level] {
                let mut s = Setup::new(&[k], &[]);
                s.layered = layered;
                let mut al: Vec<_> = av.iter().map(|&a| Act(0, a)).collect();
                al.extend([Add(0, 1, RW, m), Mod(0, 2, R, m), Mod(0, 3, W, m), Del(0), Wait(0), Wait(MS + 1)]);
                b.iocp(&format!("one {k:?} {m:?} layered {layered}"), s.clone(), al.clone(), b.q(if layered { 4 } else { 5 }, 6));
                s.pre = vec![Add(0, 1, R, m)];
                al.extend([Mod(0, 4, NO, m), Mod(0, 5, PRI, m), Mod(0, 6, HUP, m), Mod(0, 7, RHUP, m), Forever, Notify, Fresh]);
                b.iocp(&format!("interests {k:?} {m:?} layered {layered}"), s, al, b.q(if layered { 3 } else { 4 }, 5));
            }
        }
    }
    // Several sources and a small container.
    for cap in [1, 2] {
        let mut s = Setup::new(&[Kind::Sock, Kind::Sock, Kind::Sock], &[]);
        s.cap = cap;
        s.pre = vec![Add(0, 1, R, Level), Add(1, 2, W, Oneshot), Add(2, 3, R, Oneshot)];
        let mut al = vec![
            Act(0, A::Feed), Act(0, A::Drain), Act(2, A::Feed), Act(2, A::Hangup), Mod(0, 4, NO, Level), Mod(1, 5, RW, Level), Mod(1, 2, W, Oneshot),
            Mod(2, 6, R, Oneshot), Del(1), Add(1, 7, RW, Oneshot), Wait(0), Wait(MS), Notify, Post(21),
        ];
        b.iocp(&format!("three cap {cap}"), s.clone(), al.clone(), b.q(4, 5));
        s.dirty = true;
        al.truncate(10);
        al.extend([Wait(0), Wait(MS), Notify]);
        b.iocp(&format!("used container of {cap}"), s, al, b.q(3, 4));
    }
    // Errors.
    let s = Setup::new(&[Kind::Sock, Kind::Sock], &[]);
    let al = vec![
        Add(0, 1, RW, Oneshot), Add(0, 2, R, Edge), Add(0, 3, R, EdgeOneshot), Mod(0, 4, R, Edge), Mod(0, 5, W, Level), Mod(1, 6, RW, Level), Del(0),
        Del(1), Add(1, 7, R, Level), Act(0, A::Feed), Act(1, A::Hangup), Renew(0), Fresh, Wait(0), Wait(MS),
    ];
    b.iocp("results", s, al, b.q(4, 6));
    // Refusals.
    let mut s = Setup::new(&[Kind::Sock, Kind::Sock], &[]);
    s.pre = vec![Act(0, A::Feed)];
    let al = vec![
        AddErr(0, 1, R, Sys::KqDevice), AddErr(0, 2, R, Sys::KqAssoc), AddErr(0, 3, R, Sys::KqChanges), AddErr(0, 4, R, Sys::KqChange),
        AddErr(1, 5, RW, Sys::KqDevice), Add(0, 6, RW, Oneshot), Mod(0, 7, R, Level), Del(0), Del(1), WaitErr(Sys::KqChange), WaitErr(Sys::KqWait),
        NotifyErr, Notify, PostErr(8), Act(1, A::Feed), Wait(0), Wait(MS), Fresh,
    ];
    b.iocp("refusals", s, al, b.q(4, 5));
    // More sources than one device takes.
    let mut s = Setup::new(&[Kind::Sock, Kind::Sock], &[]);
    s.pre = vec![Act(0, A::Feed), Act(1, A::Feed)];
    for n in [30, 31, 32, 63, 1030] {
        let al = vec![Many(n), Add(0, 1, R, Oneshot), Add(1, 2, RW, Level), Del(0), Mod(1, 3, R, Oneshot), Wait(0), Wait(MS), Fresh];
        b.iocp(&format!("many {n}"), s.clone(), al, if n > 1000 { 3 } else { b.q(4, 5) });
    }
}
/// C26: waitable objects and posted packets.
#[cfg(mcbk = "windows")]
fn c26(b: &mut B) {
    use crate::iocp::{Op::*, Setup};
    use mcstd::sysc::Sys;
    for auto in [false, true] {
        for m in [Oneshot, Level] {
            let s = Setup::new(&[], &[auto]);
            let al = vec![
                AddH(0, 1, R, m), ModH(0, 2, W, m), ModH(0, 3, NO, m), DelH(0), Set(0), Unset(0), Pool, Wait(0), Wait(MS + 1), Notify, AddHErr(0, 4, RW),
                WaitErr(Sys::KqChange), Fresh, AddH(0, 5, R, Edge), ModH(0, 6, R, EdgeOneshot),
            ];
            b.iocp(&format!("object auto {auto} {m:?}"), s.clone(), al.clone(), b.q(4, 5));
            let mut s = s;
            s.pre = vec![AddH(0, 1, RW, m), Wait(0)];
            let mut al = al;
            al.truncate(10);
            b.iocp(&format!("waiting object auto {auto} {m:?}"), s, al, b.q(5, 6));
        }
        let mut s = Setup::new(&[Kind::Sock], &[auto, false]);
        s.pre = vec![Add(0, 1, R, Oneshot), AddH(0, 2, R, Oneshot), AddH(1, 3, W, Level)];
        let al = vec![
            Act(0, A::Feed), Mod(0, 4, RW, Level), Set(0), Set(1), Unset(1), ModH(0, 5, RW, Oneshot), ModH(1, 6, NO, Level), DelH(1), Pool, Post(30), Wait(0),
            Wait(MS), Notify,
        ];
        for cap in [1, 32] {
            s.cap = cap;
            b.iocp(&format!("socket and objects auto {auto} cap {cap}"), s.clone(), al.clone(), b.q(4, 5));
        }
    }
    for cap in [1, 2, 32] {
        let mut s = Setup::new(&[Kind::Sock], &[]);
        s.cap = cap;
        s.pre = vec![Add(0, 1, R, Level)];
        let al = vec![Post(10), Post(13), Post(usize::MAX - 3), Again, PostErr(14), NotifyErr, Notify, Act(0, A::Feed), Act(0, A::Drain), Wait(0), Wait(MS), Forever, Fresh];
        b.iocp(&format!("packets cap {cap}"), s, al, b.q(5, 6));
    }
    // Threads.
    use crate::iocp::{threads, T};
    for auto in [false, true] {
        let mut progs: Vec<(Vec<T>, Vec<Vec<T>>)> = vec![];
        for m in [Oneshot, Level] {
            let (add, mo, off) = (T::Add(0, R, m), T::Mod(0, W, m), T::Mod(0, NO, m));
            progs.extend([
                (vec![add], vec![vec![T::Set(0)], vec![T::Wait]]),
                (vec![], vec![vec![add], vec![T::Set(0)], vec![T::Wait]]),
                (vec![add], vec![vec![mo], vec![T::Set(0)], vec![T::Wait]]),
                (vec![add], vec![vec![off], vec![T::Set(0)], vec![T::WaitT(MS)]]),
                (vec![add], vec![vec![off, mo], vec![T::Set(0)], vec![T::Wait]]),
                (vec![add], vec![vec![T::Del(0)], vec![T::Set(0)], vec![T::WaitT(MS), T::WaitT(0)]]),
                (vec![add], vec![vec![T::Del(0), add], vec![T::Set(0)], vec![T::Wait]]),
                (vec![add, T::Set(0), T::WaitT(0)], vec![vec![mo], vec![T::Wait]]),
                (vec![add, T::Set(0), T::WaitT(0)], vec![vec![mo], vec![mo], vec![T::Wait]]),
                (vec![add], vec![vec![T::Set(0), T::Unset(0)], vec![T::WaitT(MS)], vec![mo]]),
                (vec![add], vec![vec![T::Set(0)], vec![T::Wait, mo, T::Wait]]),
                (vec![], vec![vec![add], vec![add], vec![T::Del(0)]]),
                (vec![add], vec![vec![mo], vec![T::Del(0)], vec![T::Set(0)]]),
                (vec![add], vec![vec![T::Set(0)], vec![T::Notify], vec![T::Wait, T::Wait]]),
            ]);
        }
        if !auto {
            progs.extend([
                (vec![], vec![vec![T::Post], vec![T::Wait]]),
                (vec![], vec![vec![T::Post, T::Post], vec![T::Wait], vec![T::Wait]]),
                (vec![], vec![vec![T::Post], vec![T::Post], vec![T::Wait, T::Wait]]),
                (vec![], vec![vec![T::Post, T::Notify], vec![T::Notify, T::Post], vec![T::Wait, T::Wait]]),
            ]);
        }
        for (pre, ths) in progs {
            let n = if ths.iter().flatten().any(|t| matches!(t, T::Set(_) | T::Add(..) | T::Mod(..))) { ths.len() + 1 } else { ths.len() };
            let mut o = upto(b.q([4, 3, 2], [6, 5, 4])[n.clamp(2, 4) - 2]);
            o.shard_depth = 8;
            b.push(format!("threads auto {auto} after {pre:?}: {ths:?}"), o, b.q(1, 4), Box::new(move || threads(&[auto], &pre, &ths)));
        }
    }
}
/// C25: completion ports: notifications, time-outs, threads.
fn c25(b: &mut B) {
    #[cfg(mcbk = "windows")]
    {
        use crate::iocp::{Op::*, Setup};
        let most = u32::MAX as u64;
        let mut s = Setup::new(&[Kind::Sock], &[false]);
        s.pre = vec![Add(0, 1, R, Level), AddH(0, 2, R, Oneshot)];
        let al: Vec<_> = [0, 1, MS - 1, MS, MS + 1, 2 * MS, (most - 1) * MS, (most - 1) * MS + 1, most * MS, (most + 1) * MS, 3 * most * MS]
            .into_iter()
            .map(Wait)
            .chain([Notify, Act(0, A::Feed), Act(0, A::Drain), Set(0), Unset(0), Mod(0, 3, NO, Level), ModH(0, 4, W, Level)])
            .collect();
        b.iocp("times", s, al, b.q(3, 4));
    }
    b.all_of(&[("lost ", c01), ("once ", c02), ("changes ", c08), ("time ", c09), ("signals ", c10), ("waiters ", c11), ("new ", c12), ("pollers ", at_once)]);
}
/// C28: what a poller holds on to.
fn c28(b: &mut B) {
    use crate::held::{self, Op::*};
    use mcstd::sysc::Sys;
    let vs = if b.thorough { Variant::all() } else { Variant::main() };
    for v in vs {
        for m in modes() {
            // One source in every mode, two with the default one.
            for two in [false, true] {
                if two && m != Oneshot {
                    continue;
                }
                let mut al = vec![
                    Add(0, 1, R, m),
                    Add(0, 2, NO, m),
                    Mod(0, 3, RW, m),
                    Mod(0, 4, R, m),
                    Del(0),
                    Act(0, A::Feed),
                    Act(0, A::Drain),
                    Notify,
                    Wait(64, 0),
                    Wait(1, 0),
                    Wait(64, MS),
                ];
                if two {
                    al.retain(|o| !matches!(o, Mod(..) | Wait(64, MS)));
                    al.extend([Add(1, 5, RW, m), Mod(1, 6, R, m), Del(1), Other, OtherUsed]);
                }
                if !two {
                    let s: &[Sys] = if WIN {
                        &[Sys::KqChange, Sys::KqPost, Sys::KqDevice, Sys::KqAssoc, Sys::KqWait]
                    } else if SIM {
                        &[Sys::KqChanges, Sys::KqChange, Sys::KqPost, Sys::KqWait]
                    } else if POLL_BACKEND {
                        &[Sys::Write, Sys::Poll, Sys::Read]
                    } else {
                        &[Sys::EpollAdd, Sys::EpollMod, Sys::EpollDel, Sys::EpollWait, Sys::TimerSet]
                    };
                    al.extend(s.iter().map(|&s| No(s)));
                    al.push(if WIN || SIM {
                        Signal(Sys::KqWait)
                    } else if POLL_BACKEND {
                        Signal(Sys::Poll)
                    } else {
                        Signal(Sys::EpollWait)
                    });
                }
                let depth = b.q(3, 4);
                let setup = held::Setup {
                    variant: v,
                    kinds: vec![Kind::Sock; 1 + two as usize],
                    pre: vec![],
                    post: if WIN { vec![Wait(64, 0), Wait(64, 0)] } else { vec![] },
                    rounds: 40,
                };
                b.held(&format!("{} {m:?} {v:?}", if two { "two" } else { "one" }), setup, al, depth);
            }
        }
        if FREEBSD || NETBSD || WIN {
            let m = Oneshot;
            let mut al = vec![AddX(0, 1, m), ModX(0, 2, Level), DelX(0), AddX(1, 3, Level), DelX(1), Notify, Wait(64, MS), Wait(1, 0)];
            if WIN {
                al.extend([Set(0), Set(1), Unset(0), Pool, Post, Add(0, 9, R, m), Del(0)]);
            }
            let mut post = vec![Wait(64, 0), Wait(64, 0)];
            if WIN {
                post.insert(0, Pool);
            }
            let setup = held::Setup { variant: v, kinds: vec![Kind::Sock], pre: vec![], post, rounds: 40 };
            b.held("others", setup, al, b.q(3, 4));
        }
        // Many sources.
        let n = 40;
        for m in modes() {
            let al = vec![
                AddAll(R, m),
                ModAll(RW, m),
                DelAll,
                ActAll(A::Feed),
                ActAll(A::Drain),
                Add(0, 500, W, m),
                Del(1),
                Notify,
                Wait(64, 0),
                Wait(7, MS),
            ];
            let post = if WIN { vec![Wait(200, 0), Wait(200, 0)] } else { vec![] };
            let setup = held::Setup { variant: v, kinds: vec![Kind::Sock; n], pre: vec![], post, rounds: 10 };
            b.held(&format!("{n} sources {m:?} {v:?}"), setup, al, b.q(2, 3));
        }
        // Threads: what remains when they and the poller are gone?
        let m = Oneshot;
        let wait = Wait(8, MS);
        let mut progs: Vec<(&str, Vec<held::Op>, Vec<Vec<held::Op>>)> = vec![
            ("add, delete / wait", vec![Notify], vec![vec![Add(0, 1, R, m), Del(0)], vec![wait, wait]]),
            ("modify, delete / wait", vec![Add(0, 1, R, m), Act(0, A::Feed)], vec![vec![Mod(0, 2, RW, m), Del(0)], vec![wait, wait]]),
            ("add / add", vec![], vec![vec![Add(0, 1, R, m), Notify], vec![Add(0, 2, W, m), Del(0)]]),
            ("delete / delete", vec![Add(0, 1, R, m)], vec![vec![Del(0), Add(0, 2, R, m)], vec![Del(0)]]),
            ("modify / delete", vec![Add(0, 1, R, m)], vec![vec![Mod(0, 2, RW, m)], vec![Del(0)]]),
        ];
        if WIN {
            let a = AddX(0, 1, m);
            progs.extend([
                ("object: remove", vec![a], vec![vec![Set(0)], vec![DelX(0)]]),
                ("object: remove / wait", vec![a], vec![vec![Set(0), DelX(0)], vec![wait]]),
                ("object: add, remove", vec![Set(0)], vec![vec![a, DelX(0), a]]),
                ("object: modify", vec![AddX(0, 1, Level)], vec![vec![Set(0), Unset(0)], vec![ModX(0, 2, m)], vec![wait]]),
                ("object: remove twice", vec![a], vec![vec![Set(0)], vec![DelX(0)], vec![DelX(0), AddX(0, 2, m)]]),
                ("object: gone", vec![], vec![vec![AddX(0, 1, Level), AddX(1, 2, Level)], vec![Set(0), Set(1)]]),
                ("posted", vec![], vec![vec![Post, Post, Notify], vec![wait]]),
            ]);
        }
        for (name, pre, threads) in progs {
            let mut setup = held::Setup { variant: v, kinds: vec![Kind::Sock], pre, post: vec![], rounds: 0 };
            for late in [false, true] {
                // Another wait before the poller goes, or not.
                setup.post = if late { vec![Wait(64, 0)] } else { vec![] };
                let (setup, threads) = (setup.clone(), threads.clone());
                let many = threads.len() > 2;
                let mut opts = if WIN { upto(b.q(if many { 2 } else { 3 }, if many { 4 } else { 5 })) } else { every() };
                opts.shard_depth = 8;
                let shards = if WIN { b.q(2, 16) } else { 1 };
                b.push(format!("held {name}{} {v:?}", if late { ", wait" } else { "" }), opts, shards, Box::new(move || held::together(&setup, &threads)));
            }
        }
    }
}
impl B {
    fn held(&mut self, name: &str, setup: crate::held::Setup, al: Vec<crate::held::Op>, depth: usize) {
        let n = (al.len() as f64).powi(depth as i32);
        let shards = ((n / 2_000.0).ceil() as u64).clamp(1, 32);
        let opts = Opts { preemptions: Some(0), shard_depth: 2, late: 0, max_steps: 3_000_000, ..Opts::default() };
        self.push(format!("held {name} len {depth}"), opts, shards, Box::new(move || crate::held::rounds(&setup, &al, depth)));
    }
}
