//! Events as values: every sequence of constructors and setters against a record of five fields.
use mcstd::mc;
use polling::Event;

pub fn events(depth: usize) {
    const KEYS: [usize; 5] = [0, 1, 42, 1 << 63, usize::MAX - 1];
    let key = KEYS[mc::choose(KEYS.len())];
    let (mut e, mut r, mut w) = match mc::choose(7) {
        0 => (Event::none(key), false, false),
        1 => (Event::readable(key), true, false),
        2 => (Event::writable(key), false, true),
        3 => (Event::all(key), true, true),
        4 => (Event::new(key, false, true), false, true),
        5 => (Event::new(key, true, false), true, false),
        _ => (Event::new(key, true, true), true, true),
    };
    let (mut pri, mut hup) = (false, false);
    let mut k = key;
    for _ in 0..depth {
        let s = match mc::choose(11) {
            0 => {
                e.set_priority(true);
                pri = true;
                "set_priority(true)"
            }
            1 => {
                e.set_priority(false);
                pri = false;
                "set_priority(false)"
            }
            2 => {
                e.set_interrupt(true);
                hup = true;
                "set_interrupt(true)"
            }
            3 => {
                e.set_interrupt(false);
                hup = false;
                "set_interrupt(false)"
            }
            4 => {
                e = e.with_priority();
                pri = true;
                "with_priority()"
            }
            5 => {
                e = e.with_interrupt();
                hup = true;
                "with_interrupt()"
            }
            6 => {
                e.clear_extra();
                pri = false;
                hup = false;
                "clear_extra()"
            }
            7 => {
                e = e.with_no_extra();
                pri = false;
                hup = false;
                "with_no_extra()"
            }
            8 => {
                e.readable = !e.readable;
                r = !r;
                "readable = !readable"
            }
            9 => {
                e.writable = !e.writable;
                w = !w;
                "writable = !writable"
            }
            _ => {
                e.key = 9;
                k = 9;
                "key = 9"
            }
        };
        mc::log(|| format!("{s} -> {e:?}"));
        let got = (e.key, e.readable, e.writable, e.is_priority(), e.is_interrupt(), e.is_err());
        let want = (k, r, w, pri, hup, Some(false));
        if got != want {
            mc::fail(format!("after {s}: (key, readable, writable, priority, interrupt, error) is {got:?}, should be {want:?}"));
        }
        if (e == Event::new(k, r, w)) != (!pri && !hup) || e.with_no_extra() != Event::new(k, r, w) {
            mc::fail(format!("after {s}: comparison with Event::new({k}, {r}, {w}) is wrong"));
        }
    }
    mc::nontrivial();
}
