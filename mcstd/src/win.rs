//! A simulated Windows for the IOCP backend, over real Linux descriptors and the virtual clock:
//! completion ports, the AFD poll, waitable objects and the thread pool that waits on them.
//!
//! * A completion port is a first-in first-out queue of packets (CreateIoCompletionPort,
//!   PostQueuedCompletionStatus, GetQueuedCompletionStatusEx; times in whole milliseconds).
//! * IOCTL_AFD_POLL completes at once when one of the conditions asked for holds, otherwise at the
//!   moment the first of them arises; what held then is what it reports, and its packet goes to the
//!   port. Also when it completes at once (the crate does not ask to skip that).
//! * NtCancelIoFileEx completes a pending poll with STATUS_CANCELLED; a poll that has completed
//!   already cannot be found any more.
//! * RegisterWaitForSingleObject: when the object is signaled the wait is over and its callback
//!   runs, on another thread. UnregisterWait does not wait for a callback that is on its way or
//!   running; it says so (ERROR_IO_PENDING).
//!
//! A socket is a Linux descriptor; conditions are what poll(2) says: POLLIN is RECEIVE, POLLPRI
//! RECEIVE_EXPEDITED, POLLOUT SEND, POLLRDHUP DISCONNECT, POLLHUP and POLLERR ABORT.
//! GetLastError() is errno: errors with a meaning to the crate are given by their Linux names.
#![allow(non_snake_case)]
use crate::mc::{self, Block, Op, PollReq};
use crate::sysc::*;
use std::ffi::c_void;

type HANDLE = *mut c_void;
const INFINITE: u32 = u32::MAX;
const STATUS_PENDING: i32 = 0x103;
const STATUS_CANCELLED: i32 = 0xC000_0120u32 as i32;
const STATUS_INVALID_HANDLE: i32 = 0xC000_0008u32 as i32;
const STATUS_NOT_FOUND: i32 = 0xC000_0225u32 as i32;
pub const STATUS_INSUFFICIENT_RESOURCES: i32 = 0xC000_009Au32 as i32;
pub const RECEIVE: u32 = 1;
pub const RECEIVE_EXPEDITED: u32 = 2;
pub const SEND: u32 = 4;
pub const DISCONNECT: u32 = 8;
pub const ABORT: u32 = 0x10;
const ETIMEDOUT: i32 = 110;
const ERROR_IO_PENDING: i32 = 997;
/// Layered sockets: the base socket of `s` is `s + LAYER`.
const LAYER: usize = 0x10_0000;
/// Pretended descriptor: readable when the thread pool has something to do.
pub const POOL: i32 = 0x7fff_0000;

#[repr(C)]
struct PollInfo {
    timeout: i64,
    count: u32,
    exclusive: u32,
    handle: HANDLE,
    events: u32,
    status: i32,
}
#[repr(C)]
struct Iosb {
    status: i32,
    pad: i32,
    information: usize,
}
#[repr(C)]
pub struct Entry {
    key: usize,
    overlapped: *mut c_void,
    internal: usize,
    bytes: u32,
}
struct Port {
    fd: i32,
    queue: Vec<(usize, usize)>,
}
struct Afd {
    fd: i32,
    port: Option<(i32, usize)>,
}
struct Pend {
    afd: i32,
    sock: i32,
    mask: u32,
    iosb: usize,
    info: usize,
}
struct Object {
    signaled: bool,
    auto: bool,
}
type Callback = unsafe extern "system" fn(*mut c_void, u8);
struct Wait {
    id: usize,
    obj: usize,
    cb: Callback,
    ctx: usize,
    deadline: Option<u128>,
    once: bool,
}
#[derive(Default)]
struct Sim {
    ports: Vec<Port>,
    afds: Vec<Afd>,
    pend: Vec<Pend>,
    objects: Vec<Object>,
    waits: Vec<Wait>,
    /// Callbacks on their way, and those running: what they belong to.
    due: Vec<(Callback, usize, usize)>,
    running: Vec<usize>,
    /// Waits that have not been unregistered, over or not.
    handles: Vec<usize>,
    ids: usize,
    lsp: bool,
}
static mut SIM: Option<Sim> = None;
#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe { SIM.get_or_insert_with(Sim::default) }
}
pub(crate) fn reset() {
    *sim() = Sim::default();
}
pub(crate) fn is_sim(fd: i32) -> bool {
    fd == POOL || sim().ports.iter().any(|p| p.fd == fd)
}
pub(crate) fn ready(fd: i32) -> bool {
    sweep();
    fd == POOL && !sim().due.is_empty() || sim().ports.iter().any(|p| p.fd == fd && !p.queue.is_empty())
}
/// Sockets come in layers.
pub fn layered(on: bool) {
    sim().lsp = on;
}
/// What is still going on: pending polls and waits.
pub fn busy() -> (usize, usize) {
    (sim().pend.len(), sim().waits.len() + sim().due.len())
}
/// Callbacks on their way.
pub fn due() -> usize {
    sweep();
    sim().due.len()
}
/// Waits that nobody has unregistered.
pub fn handles() -> usize {
    sim().handles.len()
}
pub fn queued() -> usize {
    sim().ports.iter().map(|p| p.queue.len()).sum()
}

// ------------------------------------------------------------------ waitable objects
/// An event object; its handle.
pub fn object(auto: bool) -> HANDLE {
    sim().objects.push(Object { signaled: false, auto });
    (0x4000 + 4 * (sim().objects.len() - 1)) as HANDLE
}
fn obj(h: usize) -> Option<&'static mut Object> {
    sim().objects.get_mut(h.wrapping_sub(0x4000) / 4)
}
pub fn is_signaled(h: HANDLE) -> bool {
    obj(h as usize).unwrap().signaled
}
pub fn set(h: HANDLE, on: bool) {
    obj(h as usize).unwrap().signaled = on;
    sweep();
}
/// Run the callbacks that are due (where no other thread does).
pub fn run_due() -> bool {
    let _o = crate::heap::outside();
    sweep();
    let mut any = false;
    while !sim().due.is_empty() {
        let (cb, ctx, id) = sim().due.remove(0);
        call(cb, ctx, id);
        any = true;
    }
    any
}
fn call(cb: Callback, ctx: usize, id: usize) {
    mc::no_unwind(true);
    sim().running.push(id);
    crate::heap::inside(|| unsafe { cb(ctx as *mut c_void, 0) });
    sim().running.retain(|&i| i != id);
    mc::no_unwind(false);
}
/// A thread of the pool: one callback after the other, for ever.
pub fn pool() {
    let _o = crate::heap::outside();
    loop {
        sweep();
        if sim().due.is_empty() {
            if !mc::block_sys(Block::Kernel(vec![PollReq { fd: POOL, events: 0 }], None, false)) {
                return;
            }
            continue;
        }
        let (cb, ctx, id) = sim().due.remove(0);
        call(cb, ctx, id);
        mc::point(Op::kernel());
    }
}
/// Callbacks run when a wait is about to sleep (no thread of the pool exists).
static mut EAGER: bool = false;
pub fn eager(on: bool) {
    unsafe { EAGER = on }
}

// ------------------------------------------------------------------ what completes by itself
fn state(sock: i32) -> u32 {
    flags(truth(sock, POLLIN | POLLPRI | POLLOUT | POLLRDHUP))
}
/// The conditions of a socket in this state.
pub fn flags(m: i16) -> u32 {
    let f = |b: i16, e: u32| if m & b != 0 { e } else { 0 };
    f(POLLIN, RECEIVE) | f(POLLPRI, RECEIVE_EXPEDITED) | f(POLLOUT, SEND) | f(POLLRDHUP, DISCONNECT) | f(POLLHUP | POLLERR, ABORT)
}
fn post(afd: i32, iosb: usize) {
    let s = sim();
    if let Some((p, key)) = s.afds.iter().find(|a| a.fd == afd).and_then(|a| a.port) {
        if let Some(p) = s.ports.iter_mut().find(|x| x.fd == p) {
            p.queue.push((key, iosb));
        }
    }
}
fn complete(p: &Pend, events: u32, status: i32) {
    unsafe {
        let i = p.info as *mut PollInfo;
        (*i).count = (events != 0) as u32;
        (*i).events = events;
        (*i).status = 0;
        (*(p.iosb as *mut Iosb)).status = status;
    }
    post(p.afd, p.iosb);
}
/// The world changed.
pub fn sweep() {
    let s = sim();
    let mut i = 0;
    while i < s.pend.len() {
        let hit = state(s.pend[i].sock) & s.pend[i].mask;
        if hit != 0 {
            let p = s.pend.remove(i);
            complete(&p, hit, 0);
        } else {
            i += 1;
        }
    }
    let mut i = 0;
    while i < s.waits.len() {
        let late = s.waits[i].deadline.map_or(false, |d| mc::now() >= d);
        let o = obj(s.waits[i].obj).unwrap();
        if o.signaled || late {
            if o.signaled && o.auto {
                o.signaled = false;
            }
            s.due.push((s.waits[i].cb, s.waits[i].ctx, s.waits[i].id));
            if s.waits[i].once {
                s.waits.remove(i);
                continue;
            }
        }
        i += 1;
    }
}

fn handle() -> i32 {
    raw_eventfd(0, 0)
}
fn fail(e: i32) -> i32 {
    err(e);
    0
}

// ------------------------------------------------------------------ kernel32
#[no_mangle]
pub unsafe extern "system" fn CreateIoCompletionPort(file: HANDLE, port: HANDLE, key: usize, _threads: u32) -> HANDLE {
    let _o = crate::heap::outside();
    let fresh = file as isize == -1;
    if let Err(e) = enter(if fresh { Sys::Kqueue } else { Sys::KqAssoc }, -1) {
        err(e);
        return std::ptr::null_mut();
    }
    if fresh {
        let fd = handle();
        sim().ports.push(Port { fd, queue: vec![] });
        return fd as usize as HANDLE;
    }
    let pfd = port as usize as i32;
    let known = sim().ports.iter().any(|p| p.fd == pfd);
    match sim().afds.iter_mut().find(|a| a.fd == file as usize as i32) {
        Some(a) if known && a.port.is_none() => {
            a.port = Some((pfd, key));
            port
        }
        _ => {
            err(EINVAL);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "system" fn SetFileCompletionNotificationModes(h: HANDLE, _flags: u8) -> i32 {
    let _o = crate::heap::outside();
    sim().afds.iter().any(|a| a.fd == h as usize as i32) as i32
}
#[no_mangle]
pub unsafe extern "system" fn PostQueuedCompletionStatus(port: HANDLE, _bytes: u32, key: usize, ov: *mut c_void) -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::KqPost, -1) {
        return fail(e);
    }
    match sim().ports.iter_mut().find(|p| p.fd == port as usize as i32) {
        Some(p) => {
            p.queue.push((key, ov as usize));
            1
        }
        None => fail(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "system" fn GetQueuedCompletionStatusEx(
    port: HANDLE,
    out: *mut Entry,
    n: u32,
    removed: *mut u32,
    ms: u32,
    _alertable: i32,
) -> i32 {
    let _o = crate::heap::outside();
    let fd = port as usize as i32;
    if let Err(e) = enter(Sys::KqWait, fd) {
        return fail(e);
    }
    if n == 0 {
        return fail(EINVAL);
    }
    let deadline = if ms == INFINITE { None } else { Some(mc::now() + ms as u128 * 1_000_000) };
    loop {
        sweep();
        let p = match sim().ports.iter_mut().find(|p| p.fd == fd) {
            Some(p) => p,
            None => return fail(EBADF),
        };
        if !p.queue.is_empty() {
            let k = p.queue.len().min(n as usize);
            for (i, (key, ov)) in p.queue.drain(..k).enumerate() {
                *out.add(i) = Entry { key, overlapped: ov as *mut c_void, internal: 0, bytes: 0 };
            }
            *removed = k as u32;
            return 1;
        }
        if deadline.map_or(false, |d| mc::now() >= d) {
            return fail(ETIMEDOUT);
        }
        if EAGER && run_due() {
            continue;
        }
        if !mc::block_sys(Block::Kernel(vec![PollReq { fd, events: 0 }], deadline, false)) {
            return fail(EBADF);
        }
    }
}
#[no_mangle]
pub unsafe extern "system" fn CloseHandle(h: HANDLE) -> i32 {
    let _o = crate::heap::outside();
    if !mc::point_sys(Op::kernel()) {
        // The execution is being given up.
    }
    let fd = h as usize as i32;
    let s = sim();
    if let Some(i) = s.ports.iter().position(|p| p.fd == fd) {
        s.ports.remove(i);
    } else if let Some(i) = s.afds.iter().position(|a| a.fd == fd) {
        while let Some(j) = s.pend.iter().position(|p| p.afd == fd) {
            let p = s.pend.remove(j);
            complete(&p, 0, STATUS_CANCELLED);
        }
        s.afds.remove(i);
    } else {
        mc::flag(format!("CloseHandle({fd}) of what is not open"));
        return fail(EBADF);
    }
    raw_close(fd);
    1
}
#[no_mangle]
pub unsafe extern "system" fn RegisterWaitForSingleObject(
    new: *mut HANDLE,
    object: HANDLE,
    cb: Option<Callback>,
    ctx: *const c_void,
    ms: u32,
    flags: u32,
) -> i32 {
    let _o = crate::heap::outside();
    if let Err(e) = enter(Sys::KqChange, object as usize as i32) {
        return fail(e);
    }
    if obj(object as usize).is_none() {
        return fail(EBADF);
    }
    let s = sim();
    s.ids += 1;
    let id = 0x9000_0000 + s.ids;
    let deadline = if ms == INFINITE { None } else { Some(mc::now() + ms as u128 * 1_000_000) };
    s.waits.push(Wait { id, obj: object as usize, cb: cb.unwrap(), ctx: ctx as usize, deadline, once: flags & 8 != 0 });
    s.handles.push(id);
    *new = id as HANDLE;
    sweep();
    1
}
#[no_mangle]
pub unsafe extern "system" fn UnregisterWait(id: HANDLE) -> i32 {
    let _o = crate::heap::outside();
    mc::point_sys(Op::kernel());
    let s = sim();
    let id = id as usize;
    match s.handles.iter().position(|&h| h == id) {
        Some(i) => s.handles.remove(i),
        None => {
            mc::flag("UnregisterWait of what is not registered");
            return fail(EBADF);
        }
    };
    s.waits.retain(|w| w.id != id);
    if s.due.iter().any(|d| d.2 == id) || s.running.contains(&id) {
        return fail(ERROR_IO_PENDING);
    }
    1
}
#[no_mangle]
pub unsafe extern "system" fn GetModuleHandleW(_: *const u16) -> HANDLE {
    let _o = crate::heap::outside();
    0x7000 as HANDLE
}
#[no_mangle]
pub unsafe extern "system" fn GetProcAddress(_: HANDLE, name: *const u8) -> Option<unsafe extern "system" fn() -> isize> {
    let _o = crate::heap::outside();
    let f = match std::ffi::CStr::from_ptr(name as *const _).to_bytes() {
        b"NtCancelIoFileEx" => nt_cancel as *const (),
        b"NtCreateFile" => nt_create as *const (),
        b"NtDeviceIoControlFile" => nt_ioctl as *const (),
        b"RtlNtStatusToDosError" => nt_error as *const (),
        _ => return None,
    };
    Some(std::mem::transmute(f))
}
// ------------------------------------------------------------------ ws2_32
#[no_mangle]
pub unsafe extern "system" fn WSAIoctl(
    s: usize,
    code: u32,
    _inb: *const c_void,
    _ninb: u32,
    out: *mut c_void,
    _nout: u32,
    bytes: *mut u32,
    _ov: *mut c_void,
    _cb: *const c_void,
) -> i32 {
    let _o = crate::heap::outside();
    let base = sim().lsp && s & LAYER != 0;
    let fd = (s & !LAYER) as i32;
    if let Err(e) = enter(Sys::KqChanges, fd) {
        return err(e);
    }
    if raw_fcntl(fd, 1, 0) < 0 {
        return err(EINVAL);
    }
    let to = match code {
        0x4800_0022 if sim().lsp && !base => return err(95),
        0x4800_0022 => s,
        0x4800_001D if sim().lsp => s | LAYER,
        0x4800_001D => s,
        _ => return err(95),
    };
    *(out as *mut usize) = to;
    *bytes = 8;
    0
}
// ------------------------------------------------------------------ ntdll
unsafe extern "system" fn nt_error(status: i32) -> u32 {
    match status {
        STATUS_PENDING => 997,
        STATUS_INVALID_HANDLE => 6,
        STATUS_INSUFFICIENT_RESOURCES => 1450,
        _ => 317,
    }
}
unsafe extern "system" fn nt_create(
    out: *mut HANDLE,
    _access: u32,
    _attr: *mut c_void,
    _iosb: *mut Iosb,
    _size: *mut i64,
    _fattr: u32,
    _share: u32,
    _disp: u32,
    _opt: u32,
    _ea: *mut (),
    _nea: u32,
) -> i32 {
    let _o = crate::heap::outside();
    if enter(Sys::KqDevice, -1).is_err() {
        return STATUS_INSUFFICIENT_RESOURCES;
    }
    let fd = handle();
    sim().afds.push(Afd { fd, port: None });
    *out = fd as usize as HANDLE;
    0
}
unsafe extern "system" fn nt_ioctl(
    afd: HANDLE,
    _event: HANDLE,
    _apc: *mut (),
    _ctx: *mut (),
    iosb: *mut Iosb,
    code: u32,
    inb: *mut (),
    _ninb: u32,
    outb: *mut (),
    _noutb: u32,
) -> i32 {
    let _o = crate::heap::outside();
    let info = inb as *mut PollInfo;
    let s = (*info).handle as usize;
    let fd = (s & !LAYER) as i32;
    if enter(Sys::KqChange, fd).is_err() {
        return STATUS_INSUFFICIENT_RESOURCES;
    }
    sweep();
    let afd = afd as usize as i32;
    if code != 0x12024 || inb != outb || !sim().afds.iter().any(|a| a.fd == afd) {
        return STATUS_INVALID_HANDLE;
    }
    if sim().lsp && s & LAYER == 0 || raw_fcntl(fd, 1, 0) < 0 {
        return STATUS_INVALID_HANDLE;
    }
    if sim().pend.iter().any(|p| p.iosb == iosb as usize) {
        mc::flag("a packet that is in use was given to the kernel once more");
    }
    let p = Pend { afd, sock: fd, mask: (*info).events, iosb: iosb as usize, info: info as usize };
    let hit = state(fd) & p.mask;
    if hit != 0 {
        complete(&p, hit, 0);
        return 0;
    }
    (*iosb).status = STATUS_PENDING;
    sim().pend.push(p);
    STATUS_PENDING
}
unsafe extern "system" fn nt_cancel(afd: HANDLE, iosb: *mut Iosb, out: *mut Iosb) -> i32 {
    let _o = crate::heap::outside();
    mc::point_sys(Op::kernel());
    sweep();
    let s = sim();
    match s.pend.iter().position(|p| p.iosb == iosb as usize && p.afd == afd as usize as i32) {
        Some(i) => {
            let p = s.pend.remove(i);
            complete(&p, 0, STATUS_CANCELLED);
            (*out).status = 0;
            0
        }
        None => STATUS_NOT_FOUND,
    }
}
