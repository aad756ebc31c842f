//! The network below the simulator connection: the system calls that the
//! standard library makes for TCP, answered by a peer with a given reply, an
//! arbitrary split of the byte streams into packets, interruptions and failures.
//!
//! These definitions take the place of libc's, for the solver and for replays
//! alike; the standard library and the repository's code above them are real.
#![allow(static_mut_refs)]
use crate::nd;
use core::ffi::{c_int, c_uint, c_void};

pub const OUT: usize = 32;
pub const IN: usize = 24;
const EINTR: c_int = 4;

#[derive(Clone, Copy)]
pub struct Port {
    pub fd: c_int,
    /// Port number connected to.
    pub port: u16,
    /// What the client sent.
    pub out: [u8; OUT],
    pub n: usize,
    /// What the peer answers, and how much of it was read.
    pub reply: [u8; IN],
    pub replies: usize,
    pub read: usize,
    /// Reply bytes below the first number are sent once the peer has the second number of bytes.
    pub gate: [(usize, usize); 4],
    pub shut: bool,
    /// Sent or read after the shutdown.
    pub late: bool,
}
const CLOSED: Port = Port {
    fd: -1,
    port: 0,
    out: [0; OUT],
    n: 0,
    reply: [0; IN],
    replies: 0,
    read: 0,
    gate: [(IN, 0); 4],
    shut: false,
    late: false,
};
pub struct Net {
    pub port: [Port; 2],
    pub open: usize,
    pub sockets: usize,
    pub closed: usize,
    pub attempts: usize,
    pub naps: usize,
    /// What may happen.
    pub chunks: bool,
    pub interrupts: bool,
    /// Interruptions so far (at most two).
    pub interrupted: usize,
    pub short_writes: bool,
    /// A call (send or receive) may fail with this errno.
    pub fault: bool,
    pub errno: c_int,
    /// Connection attempts below this number fail.
    pub refuse: usize,
    pub failed: bool,
    pub short: bool,
}
pub static mut NET: Net = Net {
    port: [CLOSED; 2],
    open: 0,
    sockets: 0,
    closed: 0,
    attempts: 0,
    naps: 0,
    chunks: false,
    interrupts: false,
    interrupted: 0,
    short_writes: false,
    fault: false,
    errno: 104,
    refuse: 0,
    failed: false,
    short: false,
};
/// Messages of any length on the command port: all of their lengths, the bytes of
/// the frame around them, and one arbitrary byte of each are followed.
pub struct Long {
    pub on: bool,
    /// Position in the bytes sent, and what was seen there.
    pub watch: usize,
    pub seen: Option<u8>,
    /// The answer: length, end marker, and the byte at a position of the body.
    pub size: usize,
    pub end: u32,
    pub at: usize,
    pub val: u8,
    /// Receive calls that may move less than they could.
    pub pieces: usize,
}
pub static mut LONG: Long =
    Long { on: false, watch: 0, seen: None, size: 0, end: 0, at: 0, val: 0, pieces: 0 };
pub fn long() -> &'static mut Long {
    unsafe { &mut *core::ptr::addr_of_mut!(LONG) }
}
const FRAME: usize = 9;
unsafe fn take_long(k: usize, b: *const u8, len: usize) {
    let p = &mut net().port[k];
    let l = long();
    macro_rules! frame {
        ($($j:literal)*) => {$(
            if $j < len && p.n + $j < FRAME {
                p.out[p.n + $j] = unsafe { *b.add($j) };
            }
        )*}
    }
    frame! { 0 1 2 3 4 5 6 7 8 }
    if l.watch >= p.n && l.watch - p.n < len {
        l.seen = Some(unsafe { *b.add(l.watch - p.n) });
    }
    p.n += len;
}
unsafe fn give_long(k: usize, b: *mut u8, n: usize) -> usize {
    let p = &mut net().port[k];
    let l = long();
    let left = 8 + l.size - p.read;
    let mut m = if n < left { n } else { left };
    if l.pieces > 0 && m > 0 {
        l.pieces -= 1;
        let less = nd::u32() as usize;
        nd::assume(less >= 1 && less <= m);
        m = less;
    }
    let r = p.read;
    let mut j = 0;
    while j < 4 {
        if j >= r && j - r < m {
            unsafe { *b.add(j - r) = (l.size >> (24 - 8 * j)) as u8 };
        }
        let e = 4 + l.size + j;
        if e >= r && e - r < m {
            unsafe { *b.add(e - r) = (l.end >> (24 - 8 * j)) as u8 };
        }
        j += 1;
    }
    let w = 4 + l.at;
    if l.at < l.size && w >= r && w - r < m {
        unsafe { *b.add(w - r) = l.val };
    }
    p.read += m;
    m
}
pub fn net() -> &'static mut Net {
    unsafe { &mut *core::ptr::addr_of_mut!(NET) }
}
/// Makes the definitions below part of the program.
pub fn link() {
    core::hint::black_box([
        socket as *const (),
        connect as *const (),
        close as *const (),
        shutdown as *const (),
        writev as *const (),
        send as *const (),
        recv as *const (),
    ]);
    #[cfg(kani)]
    core::hint::black_box([__errno_location as *const (), nanosleep as *const (), clock_nanosleep as *const ()]);
}

#[cfg(kani)]
mod os {
    use super::*;
    pub static mut ERRNO: c_int = 0;
    pub unsafe fn set_errno(e: c_int) {
        unsafe { ERRNO = e }
    }
    pub unsafe fn open(k: c_int) -> c_int {
        100 + k
    }
    pub unsafe fn other_writev(_: c_int, _: *const Iov, _: c_int) -> isize {
        panic!("write to another file")
    }
    pub unsafe fn os_close(_: c_int) -> c_int {
        0
    }
}
#[cfg(not(kani))]
mod os {
    use super::*;
    use core::ffi::c_long;
    unsafe extern "C" {
        fn __errno_location() -> *mut c_int;
        fn syscall(n: c_long, ...) -> c_long;
    }
    pub unsafe fn set_errno(e: c_int) {
        unsafe { *__errno_location() = e }
    }
    pub unsafe fn open(_: c_int) -> c_int {
        // A file descriptor that exists: openat(AT_FDCWD, "/dev/null", O_RDWR)
        unsafe { syscall(257, -100 as c_long, c"/dev/null".as_ptr(), 2 as c_long, 0 as c_long) as c_int }
    }
    pub unsafe fn other_writev(fd: c_int, v: *const Iov, n: c_int) -> isize {
        unsafe { syscall(20, fd as c_long, v, n as c_long) as isize }
    }
    pub unsafe fn os_close(fd: c_int) -> c_int {
        unsafe { syscall(3, fd as c_long) as c_int }
    }
}
#[cfg(kani)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __errno_location() -> *mut c_int {
    core::ptr::addr_of_mut!(os::ERRNO)
}
#[cfg(kani)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(_: *const c_void, _: *mut c_void) -> c_int {
    net().naps += 1;
    0
}
#[cfg(kani)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(_: c_int, _: c_int, _: *const c_void, _: *mut c_void) -> c_int {
    net().naps += 1;
    0
}

#[repr(C)]
pub struct Iov {
    base: *const u8,
    len: usize,
}
fn which(fd: c_int) -> Option<usize> {
    let t = net();
    if t.open > 0 && fd == t.port[0].fd {
        Some(0)
    } else if t.open > 1 && fd == t.port[1].fd {
        Some(1)
    } else {
        None
    }
}
fn fails(interruptible: bool) -> bool {
    let t = net();
    if t.fault && nd::flag() {
        unsafe { os::set_errno(t.errno) };
        t.failed = true;
        return true;
    }
    if interruptible && t.interrupts && t.interrupted < 2 && nd::flag() {
        t.interrupted += 1;
        unsafe { os::set_errno(EINTR) };
        return true;
    }
    false
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn socket(_: c_int, _: c_int, _: c_int) -> c_int {
    let t = net();
    assert!(t.open < 2, "more than two connections");
    let fd = unsafe { os::open(t.sockets as c_int) };
    t.sockets += 1;
    t.port[t.open] = Port { fd, reply: t.port[t.open].reply, replies: t.port[t.open].replies, gate: t.port[t.open].gate, ..CLOSED };
    t.open += 1;
    fd
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const c_void, _: c_uint) -> c_int {
    let t = net();
    let k = which(fd).expect("connect of an unknown socket");
    let a = addr as *const u8;
    t.port[k].port = unsafe { (*a.add(2) as u16) << 8 | *a.add(3) as u16 };
    t.attempts += 1;
    if t.attempts <= t.refuse {
        unsafe { os::set_errno(111) };
        return -1;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(k) = which(fd) {
        let t = net();
        t.closed += 1;
        // Only the last one can be replaced.
        if k + 1 == t.open {
            t.open -= 1;
        }
    }
    unsafe { os::os_close(fd) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let k = which(fd).expect("shutdown of an unknown socket");
    assert!(how == 2, "both directions are shut down");
    net().port[k].shut = true;
    0
}
fn take(k: usize, b: u8) {
    let p = &mut net().port[k];
    assert!(p.n < OUT, "more bytes sent than expected");
    p.out[p.n] = b;
    p.n += 1;
    p.late |= p.shut;
}
/// How many of `total` bytes one call moves.
fn moved(total: usize, any: bool) -> usize {
    if !any || total == 0 {
        return total;
    }
    let n = nd::u8() as usize;
    nd::assume(n >= 1 && n <= total);
    n
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, v: *const Iov, n: c_int) -> isize {
    let Some(k) = which(fd) else { return unsafe { os::other_writev(fd, v, n) } };
    if fails(false) {
        return -1;
    }
    let mut total = 0;
    let mut i = 0;
    while i < n as usize {
        total += unsafe { (*v.add(i)).len };
        i += 1;
    }
    if long().on {
        let mut i = 0;
        while i < n as usize {
            unsafe { take_long(k, (*v.add(i)).base, (*v.add(i)).len) };
            i += 1;
        }
        return total as isize;
    }
    let m = moved(total, net().short_writes);
    net().short |= m != total;
    let mut left = m;
    let mut i = 0;
    while i < n as usize {
        let s = unsafe { &*v.add(i) };
        let mut j = 0;
        while j < s.len && left > 0 {
            take(k, unsafe { *s.base.add(j) });
            left -= 1;
            j += 1;
        }
        i += 1;
    }
    m as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: usize, _: c_int) -> isize {
    let k = which(fd).expect("send on an unknown socket");
    if fails(true) {
        return -1;
    }
    let b = b as *const u8;
    if long().on {
        unsafe { take_long(k, b, n) };
        return n as isize;
    }
    let m = moved(n, net().chunks);
    let mut j = 0;
    while j < m {
        take(k, unsafe { *b.add(j) });
        j += 1;
    }
    m as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: usize, flags: c_int) -> isize {
    let k = which(fd).expect("receive on an unknown socket");
    assert!(flags == 0, "ordinary receive");
    if fails(true) {
        return -1;
    }
    if long().on {
        return unsafe { give_long(k, b as *mut u8, n) } as isize;
    }
    let t = net();
    let p = &mut t.port[k];
    p.late |= p.shut;
    let left = p.replies - p.read;
    let m = moved(if n < left { n } else { left }, t.chunks);
    let b = b as *mut u8;
    let mut j = 0;
    while j < m {
        let g = &p.gate;
        let r = p.read;
        let need = if r < g[0].0 { g[0].1 } else if r < g[1].0 { g[1].1 } else if r < g[2].0 { g[2].1 } else { g[3].1 };
        assert!(p.n >= need, "waits for an answer to something that was not sent");
        unsafe { *b.add(j) = p.reply[p.read] };
        p.read += 1;
        j += 1;
    }
    m as isize
}
