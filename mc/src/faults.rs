//! Making pollers while the kernel refuses this and that: every combination within the bounds.
use crate::seq::open_fds;
use crate::sys::*;
use mcstd::mc;
use mcstd::sysc::{self, Sys};
use polling::{Event, Events, Poller};
use std::cell::RefCell;
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::time::Duration;

/// What a poller is for, in brief.
pub fn battery(po: &Poller) {
    let mut evs = Events::with_capacity(NonZeroUsize::new(16).unwrap());
    macro_rules! ok {
        ($what:expr, $e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => mc::fail(format!("{} failed: {e}", $what)),
            }
        };
    }
    for round in 0..2 {
        // Nothing to report: the timeout.
        evs.clear();
        let t0 = mc::now();
        let n = ok!("wait", po.wait(&mut evs, Some(Duration::from_micros(1500))));
        let el = mc::now() - t0;
        if n != 0 || el < 1_500_000 || el > 2_500_000 {
            mc::fail(format!("wait(1.5 ms) gave {n} after {el} ns"));
        }
        // A notification, twice as it were.
        ok!("notify", po.notify());
        ok!("notify", po.notify());
        evs.clear();
        let n = ok!("wait", po.wait(&mut evs, None));
        let t0 = mc::now();
        let m = ok!("wait", po.wait(&mut evs, Some(Duration::from_millis(1))));
        if n != 0 || m != 0 || mc::now() - t0 < 1_000_000 {
            mc::fail(format!("notified wait gave {n}, the next one {m} after {} ns", mc::now() - t0));
        }
        // A source.
        let mut s = Source::new(Kind::PipeR);
        ok!("add", unsafe { po.add(rfd(s.fd), Event::readable(7)) });
        evs.clear();
        if ok!("wait", po.wait(&mut evs, Some(Duration::ZERO))) != 0 {
            mc::fail("an event from a source that is not ready");
        }
        s.act(Act::Feed);
        if ok!("wait", po.wait(&mut evs, None)) != 1 || evs.iter().next().map(|e| (e.key, e.readable)) != Some((7, true)) {
            mc::fail("a ready source was not reported");
        }
        evs.clear();
        if ok!("wait", po.wait(&mut evs, Some(Duration::ZERO))) != 0 {
            mc::fail("a oneshot event came twice");
        }
        ok!("modify", po.modify(bfd(s.fd), Event::readable(8)));
        if ok!("wait", po.wait(&mut evs, None)) != 1 || evs.iter().next().map(|e| e.key) != Some(8) {
            mc::fail("a ready source was not reported after modify");
        }
        ok!("delete", po.delete(bfd(s.fd)));
        sysc::raw_close(s.fd);
        sysc::raw_close(s.peer);
        let _ = round;
    }
}

/// Up to `max` refusals, of any kind, anywhere in Poller::new.
pub fn construct(max: usize, errnos: &'static [i32]) {
    let before = open_fds();
    let hits: Rc<RefCell<Vec<(Sys, i32)>>> = Default::default();
    let h = hits.clone();
    mc::set_fault(Some(Box::new(move |s, _| {
        // Looking at flags of an open descriptor cannot fail; nor can closing matter.
        if matches!(s, Sys::Close | Sys::FcntlGetFd) || h.borrow().len() >= max {
            return None;
        }
        match mc::choose(1 + errnos.len()) {
            0 => None,
            k => {
                h.borrow_mut().push((s, errnos[k - 1]));
                mc::log(|| format!("{s:?} is refused with errno {}", errnos[k - 1]));
                Some(errnos[k - 1])
            }
        }
    })));
    let r = Poller::new();
    mc::set_fault(None);
    let hits = hits.borrow().clone();
    mc::log(|| format!("Poller::new with {hits:?} -> {}", if r.is_ok() { "Ok" } else { "Err" }));
    let optional = |s: Sys| matches!(s, Sys::TimerCreate | Sys::Pipe2) || s == Sys::Eventfd && !(ESPIDF || HERMIT);
    match r {
        Err(e) => {
            if hits.iter().all(|&(s, e)| optional(s) && [ENOSYS, EPERM, EINVAL].contains(&e)) {
                mc::fail(format!("Poller::new failed ({e}) though only {hits:?} was refused"));
            }
            // ESP-IDF's way (and Hermit's) to say that eventfds have not been set up.
            let hint = (ESPIDF || HERMIT) && e.kind() == std::io::ErrorKind::PermissionDenied && hits.contains(&(Sys::Eventfd, EPERM));
            if !WIN && !hint && !hits.iter().any(|&(_, n)| e.raw_os_error() == Some(n)) {
                mc::fail(format!("Poller::new failed with {e}, but the kernel said {hits:?}"));
            }
            let now = open_fds();
            if now != before {
                mc::fail(format!("Poller::new failed and left descriptors behind: bits {:#x}", now ^ before));
            }
        }
        Ok(po) => {
            mc::nontrivial();
            let mine = open_fds() & !before;
            for fd in 0..64 {
                if !WIN && mine >> fd & 1 == 1 && sysc::raw_fcntl(fd, 1, 0) & 1 == 0 {
                    mc::fail(format!("a descriptor of the poller would be inherited across exec (refused: {hits:?})"));
                }
            }
            battery(&po);
            drop(po);
            let now = open_fds();
            if now != before {
                mc::fail(format!("dropping the poller left or closed descriptors: bits {:#x}", now ^ before));
            }
        }
    }
    mc::observe(hits.len() as u64);
}
