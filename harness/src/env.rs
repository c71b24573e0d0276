//! Model of the part of the operating system the library talks to: sockets, epoll, a tiny file
//! system, the dynamic loader and the scheduler calls.  The same code is executed symbolically and
//! linked into the native replay binary (where it overrides the C library's symbols).
#![allow(dead_code, static_mut_refs, clippy::missing_safety_doc)]
use crate::sym;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::os::raw::{c_char, c_int, c_long, c_void};

#[derive(Clone, Copy, PartialEq)]
pub enum Fd {
    Closed,
    Tcp,
    Udp,
    Epoll,
    File(usize),
}
#[derive(Clone, Copy)]
pub struct Watch {
    pub ep: i32,
    pub fd: i32,
    pub events: u32,
    pub data: u64,
    pub pending: bool,
}
pub struct VFile {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub exists: bool,
    pub is_dir: bool,
}
pub struct OpenFile {
    pub file: usize,
    pub pos: usize,
}
/// what the peer does when the client waits and nothing is there
#[derive(Clone, Copy, PartialEq)]
pub enum Idle {
    Udp,
    Tcp,
}
pub enum Ev<'a> {
    /// one complete TCP request has arrived at the server
    Request(&'a [u8]),
    /// one UDP datagram has arrived at the server
    Command(&'a [u8]),
    /// the client waits for TCP/UDP data and there is none
    Idle(Idle),
    /// connection established
    Connected,
}
pub type ServerFn = Box<dyn FnMut(Ev)>;

pub struct Net {
    pub fds: Vec<Fd>,
    pub open: Vec<OpenFile>,
    pub nonblock: Vec<bool>,
    pub watches: Vec<Watch>,
    pub tcp_in: VecDeque<u8>,
    pub tcp_eof: bool,
    pub tcp_req: Vec<u8>,
    pub tcp_header: usize,
    pub requests: usize,
    pub udp_in: VecDeque<Vec<u8>>,
    pub udp_port: u16,
    pub peer_port: u16,
    pub last_dest_port: u16,
    pub last_dest_ip: u32,
    pub commands: usize,
    pub idle_polls: u32,
    pub idle_limit: u32,
    pub total_idle: u32,
    pub total_idle_limit: u32,
    pub tcp_send_fail: bool,
    pub files: Vec<VFile>,
    pub short_write: usize,
    /// opening for writing fails
    pub open_fail: bool,
    /// writing fails once a file has this many bytes
    pub disk_full: usize,
    /// content of the file at the time it was loaded
    pub dl_data: Vec<u8>,
    pub rt_ok: i32,
    pub udp_send_fail: bool,
    pub dl_ok: bool,
    pub dl_opened: u32,
    pub dl_closed: u32,
    pub connect_addr: (u32, u16),
    pub connect_fail: bool,
    pub bind_ip: u32,
    pub bound: u32,
    pub sched: [i64; 6],
}
struct Global<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Global<T> {}
static NET: Global<Net> = Global(UnsafeCell::new(None));
static SERVER: Global<ServerFn> = Global(UnsafeCell::new(None));
static ERRNO: Global<c_int> = Global(UnsafeCell::new(None));

/// Short-lived access to the environment; never hold the reference across a library call.
pub fn net() -> &'static mut Net {
    unsafe {
        match &mut *NET.0.get() {
            Some(n) => n,
            None => std::process::abort(),
        }
    }
}
pub fn init(header: usize, server: ServerFn) {
    unsafe {
        *NET.0.get() = Some(Net {
            fds: Vec::new(),
            open: Vec::new(),
            nonblock: Vec::new(),
            watches: Vec::new(),
            tcp_in: VecDeque::new(),
            tcp_eof: false,
            tcp_req: Vec::new(),
            tcp_header: header,
            requests: 0,
            udp_in: VecDeque::new(),
            udp_port: 40000,
            peer_port: 50001,
            last_dest_port: 0,
            last_dest_ip: 0,
            commands: 0,
            idle_polls: 0,
            idle_limit: 50,
            total_idle: 0,
            total_idle_limit: 300,
            tcp_send_fail: false,
            files: Vec::new(),
            short_write: usize::MAX,
            open_fail: false,
            disk_full: usize::MAX,
            dl_data: Vec::new(),
            rt_ok: 0,
            udp_send_fail: false,
            dl_ok: true,
            dl_opened: 0,
            dl_closed: 0,
            connect_addr: (0, 0),
            connect_fail: false,
            bind_ip: u32::MAX,
            bound: 0,
            sched: [0; 6],
        });
        *SERVER.0.get() = Some(server);
    }
}
pub fn set_server(s: ServerFn) {
    unsafe {
        *SERVER.0.get() = Some(s);
    }
}
fn active() -> bool {
    unsafe { (*NET.0.get()).is_some() }
}
fn serve(ev: Ev) {
    if let Ev::Idle(_) = ev {
        // waiting again and again although the peer has nothing new to say
        let n = net();
        n.total_idle += 1;
        if n.total_idle > n.total_idle_limit {
            sym::hang();
        }
    }
    unsafe {
        let mut s = match (*SERVER.0.get()).take() {
            Some(s) => s,
            None => return,
        };
        s(ev);
        if (*SERVER.0.get()).is_none() {
            *SERVER.0.get() = Some(s);
        }
    }
}
// ---- what servers do -------------------------------------------------------------------------
pub fn tcp_deliver(b: &[u8]) {
    let n = net();
    if n.tcp_eof {
        return; // the peer is gone
    }
    n.tcp_in.extend(b.iter().copied());
    arrived(Fd::Tcp);
}
pub fn tcp_close() {
    net().tcp_eof = true;
    arrived(Fd::Tcp);
}
pub fn udp_deliver(b: Vec<u8>) {
    net().udp_in.push_back(b);
    arrived(Fd::Udp);
}
fn arrived(kind: Fd) {
    let n = net();
    for i in 0..n.watches.len() {
        let fd = n.watches[i].fd;
        if n.fds[(fd - BASE) as usize] == kind {
            n.watches[i].pending = true;
        }
    }
    n.idle_polls = 0;
}
pub fn add_file(path: &str, data: Vec<u8>, exists: bool) -> usize {
    let n = net();
    n.files.push(VFile { path: path.as_bytes().to_vec(), data, exists, is_dir: false });
    n.files.len() - 1
}

// ---- libc ------------------------------------------------------------------------------------
const BASE: c_int = 1000;
pub const EAGAIN: c_int = 11;
const ENOENT: c_int = 2;

fn set_errno(e: c_int) {
    unsafe {
        *errno_ptr() = e;
    }
}
#[cfg(not(feature = "replay"))]
unsafe fn errno_ptr() -> *mut c_int {
    let p = ERRNO.0.get();
    if (*p).is_none() {
        *p = Some(0);
    }
    match &mut *p {
        Some(x) => x,
        None => std::process::abort(),
    }
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub unsafe extern "C" fn __errno_location() -> *mut c_int {
    errno_ptr()
}
#[cfg(feature = "replay")]
extern "C" {
    fn __errno_location() -> *mut c_int;
}
#[cfg(feature = "replay")]
unsafe fn errno_ptr() -> *mut c_int {
    __errno_location()
}

#[cfg(feature = "replay")]
unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}
#[cfg(not(feature = "replay"))]
unsafe fn sys(_n: c_long, _a: usize, _b: usize, _c: usize, _d: usize, _e: usize, _f: usize) -> isize {
    set_errno(38);
    -1
}
fn kind(fd: c_int) -> Fd {
    if !active() || fd < BASE {
        return Fd::Closed;
    }
    let n = net();
    let i = (fd - BASE) as usize;
    if i < n.fds.len() {
        n.fds[i]
    } else {
        Fd::Closed
    }
}
fn is_nonblock(fd: c_int) -> bool {
    net().nonblock[(fd - BASE) as usize]
}
fn new_fd(k: Fd, nb: bool) -> c_int {
    let n = net();
    n.fds.push(k);
    n.nonblock.push(nb);
    BASE + n.fds.len() as c_int - 1
}
#[no_mangle]
pub unsafe extern "C" fn socket(_d: c_int, t: c_int, _p: c_int) -> c_int {
    let k = if (t & 0xf) == 1 { Fd::Tcp } else { Fd::Udp };
    new_fd(k, (t & 0o4000) != 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(_fd: c_int, addr: *const u8, _l: u32) -> c_int {
    let n = net();
    if n.connect_fail {
        set_errno(111);
        return -1;
    }
    let port = u16::from_be_bytes([*addr.add(2), *addr.add(3)]);
    let ip = u32::from_be_bytes([*addr.add(4), *addr.add(5), *addr.add(6), *addr.add(7)]);
    n.connect_addr = (ip, port);
    serve(Ev::Connected);
    0
}
#[no_mangle]
pub unsafe extern "C" fn bind(_fd: c_int, addr: *const u8, _l: u32) -> c_int {
    let n = net();
    let port = u16::from_be_bytes([*addr.add(2), *addr.add(3)]);
    if port != 0 {
        n.udp_port = port;
    }
    n.bind_ip = u32::from_be_bytes([*addr.add(4), *addr.add(5), *addr.add(6), *addr.add(7)]);
    n.bound += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(_fd: c_int, _l: c_int, _n: c_int, _v: *const u8, _s: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(_fd: c_int, _l: c_int, _n: c_int, v: *mut u8, s: *mut u32) -> c_int {
    for i in 0..*s as usize {
        *v.add(i) = 0;
    }
    0
}
unsafe fn put_addr(a: *mut u8, l: *mut u32, port: u16) {
    if a.is_null() {
        return;
    }
    *(a as *mut u16) = 2;
    let p = port.to_be_bytes();
    *a.add(2) = p[0];
    *a.add(3) = p[1];
    *a.add(4) = 10;
    *a.add(5) = 0;
    *a.add(6) = 0;
    *a.add(7) = 7;
    for i in 8..16 {
        *a.add(i) = 0;
    }
    *l = 16;
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(_fd: c_int, a: *mut u8, l: *mut u32) -> c_int {
    put_addr(a, l, net().udp_port);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(_fd: c_int, a: *mut u8, l: *mut u32) -> c_int {
    put_addr(a, l, net().peer_port);
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(_fd: c_int, _h: c_int) -> c_int {
    0
}
const MSG_PEEK: c_int = 2;
const MSG_DONTWAIT: c_int = 0x40;

unsafe fn do_recv(fd: c_int, buf: *mut u8, len: usize, flags: c_int, addr: *mut u8, alen: *mut u32) -> isize {
    match kind(fd) {
        Fd::Udp => {
            if net().udp_in.is_empty() {
                if is_nonblock(fd) || (flags & MSG_DONTWAIT) != 0 {
                    set_errno(EAGAIN);
                    return -1;
                }
                serve(Ev::Idle(Idle::Udp));
                if net().udp_in.is_empty() {
                    sym::hang();
                }
            }
            let n = net();
            let m = usize::min(len, n.udp_in[0].len());
            std::ptr::copy_nonoverlapping(n.udp_in[0].as_ptr(), buf, m);
            if (flags & MSG_PEEK) == 0 {
                n.udp_in.pop_front();
            }
            put_addr(addr, alen, n.peer_port);
            m as isize
        }
        Fd::Tcp => {
            if net().tcp_in.is_empty() {
                if net().tcp_eof {
                    let n = net();
                    n.idle_polls += 1;
                    if n.idle_polls > 64 {
                        sym::hang();
                    }
                    return 0;
                }
                if is_nonblock(fd) || (flags & MSG_DONTWAIT) != 0 {
                    set_errno(EAGAIN);
                    return -1;
                }
                if len == 0 {
                    return 0;
                }
                serve(Ev::Idle(Idle::Tcp));
                if net().tcp_in.is_empty() {
                    if net().tcp_eof {
                        return 0;
                    }
                    sym::hang();
                }
            }
            let n = net();
            let m = usize::min(len, n.tcp_in.len());
            let (x, y) = n.tcp_in.as_slices();
            let k = usize::min(m, x.len());
            std::ptr::copy_nonoverlapping(x.as_ptr(), buf, k);
            if m > k {
                std::ptr::copy_nonoverlapping(y.as_ptr(), buf.add(k), m - k);
            }
            if (flags & MSG_PEEK) == 0 {
                n.tcp_in.drain(0..m);
            }
            m as isize
        }
        _ => {
            set_errno(9);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut u8, len: usize, flags: c_int) -> isize {
    do_recv(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut u8, len: usize, flags: c_int, a: *mut u8, l: *mut u32) -> isize {
    do_recv(fd, buf, len, flags, a, l)
}
unsafe fn do_send(fd: c_int, buf: *const u8, len: usize, dest: *const u8) -> isize {
    match kind(fd) {
        Fd::Tcp => {
            let n = net();
            if n.tcp_send_fail {
                set_errno(32);
                return -1;
            }
            n.tcp_req.extend_from_slice(std::slice::from_raw_parts(buf, len));
            loop {
                let n = net();
                let h = n.tcp_header;
                if n.tcp_req.len() < h {
                    break;
                }
                let o = h - 4;
                let size = u32::from_le_bytes([n.tcp_req[o], n.tcp_req[o + 1], n.tcp_req[o + 2], n.tcp_req[o + 3]]) as usize;
                let size = if size < h { h } else { size };
                if n.tcp_req.len() < size {
                    break;
                }
                let req: Vec<u8> = n.tcp_req.drain(0..size).collect();
                n.requests += 1;
                serve(Ev::Request(&req));
            }
            len as isize
        }
        Fd::Udp => {
            let n = net();
            if n.udp_send_fail {
                set_errno(101);
                return -1;
            }
            if !dest.is_null() {
                n.last_dest_port = u16::from_be_bytes([*dest.add(2), *dest.add(3)]);
                n.last_dest_ip = u32::from_be_bytes([*dest.add(4), *dest.add(5), *dest.add(6), *dest.add(7)]);
            }
            n.commands += 1;
            serve(Ev::Command(std::slice::from_raw_parts(buf, len)));
            len as isize
        }
        _ => {
            set_errno(9);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const u8, len: usize, _flags: c_int) -> isize {
    do_send(fd, buf, len, std::ptr::null())
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const u8, len: usize, _flags: c_int, a: *const u8, _l: u32) -> isize {
    do_send(fd, buf, len, a)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, len: usize) -> isize {
    match kind(fd) {
        Fd::Closed => {
            let r = sys(1, fd as usize, buf as usize, len, 0, 0, 0);
            if cfg!(feature = "replay") {
                r
            } else {
                len as isize
            }
        }
        Fd::File(i) => {
            let n = net();
            let p = n.open[i].pos;
            if len > 0 && p >= n.disk_full {
                set_errno(28);
                return -1;
            }
            let len = usize::min(usize::min(len, n.short_write), n.disk_full - p);
            let s = std::slice::from_raw_parts(buf, len);
            let f = n.open[i].file;
            if n.files[f].data.len() < p + len {
                n.files[f].data.resize(p + len, 0);
            }
            n.files[f].data[p..p + len].copy_from_slice(s);
            n.open[i].pos = p + len;
            len as isize
        }
        _ => do_send(fd, buf, len, std::ptr::null()),
    }
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    let mut t = 0;
    for i in 0..n as usize {
        let e = &*v.add(i);
        if e.len == 0 {
            continue;
        }
        let r = write(fd, e.base, e.len);
        if r < 0 {
            return if t > 0 { t } else { r };
        }
        t += r;
        if (r as usize) < e.len {
            break;
        }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, len: usize) -> isize {
    match kind(fd) {
        Fd::Closed => sys(0, fd as usize, buf as usize, len, 0, 0, 0),
        Fd::File(i) => {
            let n = net();
            let f = n.open[i].file;
            let p = n.open[i].pos;
            let l = n.files[f].data.len();
            let m = usize::min(len, l - usize::min(p, l));
            std::ptr::copy_nonoverlapping(n.files[f].data.as_ptr().add(p), buf, m);
            n.open[i].pos = p + m;
            m as isize
        }
        _ => do_recv(fd, buf, len, 0, std::ptr::null_mut(), std::ptr::null_mut()),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if kind(fd) == Fd::Closed {
        if fd < BASE {
            return sys(3, fd as usize, 0, 0, 0, 0, 0) as c_int;
        }
        return 0;
    }
    let n = net();
    n.fds[(fd - BASE) as usize] = Fd::Closed;
    n.watches.retain(|w| w.fd != fd && w.ep != fd);
    0
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(_f: c_int) -> c_int {
    new_fd(Fd::Epoll, false)
}
const EPOLLIN: u32 = 1;
const EPOLLOUT: u32 = 4;
const EPOLLRDHUP: u32 = 0x2000;
const EPOLLET: u32 = 1 << 31;
fn readable(fd: c_int) -> bool {
    match kind(fd) {
        Fd::Tcp => !net().tcp_in.is_empty() || net().tcp_eof,
        Fd::Udp => !net().udp_in.is_empty(),
        _ => false,
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *const u8) -> c_int {
    let n = net();
    match op {
        2 => n.watches.retain(|w| !(w.ep == ep && w.fd == fd)),
        _ => {
            n.watches.retain(|w| !(w.ep == ep && w.fd == fd));
            let events = std::ptr::read_unaligned(ev as *const u32);
            let data = std::ptr::read_unaligned(ev.add(4) as *const u64);
            let pending = readable(fd);
            net().watches.push(Watch { ep, fd, events, data, pending });
        }
    }
    0
}
unsafe fn collect(ep: c_int, out: *mut u8, max: c_int) -> c_int {
    let mut k = 0;
    let cnt = net().watches.len();
    for i in 0..cnt {
        if k >= max {
            break;
        }
        let w = net().watches[i];
        if w.ep != ep {
            continue;
        }
        let r = readable(w.fd);
        let mut e = 0;
        if (w.events & EPOLLIN) != 0 && r && ((w.events & EPOLLET) == 0 || w.pending) {
            e |= EPOLLIN;
            if (w.events & EPOLLRDHUP) != 0 && kind(w.fd) == Fd::Tcp && net().tcp_eof {
                e |= EPOLLRDHUP;
            }
        }
        if (w.events & EPOLLOUT) != 0 {
            e |= EPOLLOUT;
        }
        if e != 0 {
            std::ptr::write_unaligned(out.add(12 * k as usize) as *mut u32, e);
            std::ptr::write_unaligned(out.add(12 * k as usize + 4) as *mut u64, w.data);
            net().watches[i].pending = false;
            k += 1;
        }
    }
    k
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, out: *mut u8, max: c_int, timeout: c_int) -> c_int {
    let k = collect(ep, out, max);
    if k > 0 {
        return k;
    }
    let mut udp = false;
    for w in net().watches.iter() {
        if w.ep == ep && kind(w.fd) == Fd::Udp {
            udp = true;
        }
    }
    // nothing there: time passes, the peer may do something
    if timeout != 0 || !udp {
        serve(Ev::Idle(if udp { Idle::Udp } else { Idle::Tcp }));
    }
    let k = collect(ep, out, max);
    if k == 0 && timeout != 0 {
        let n = net();
        n.idle_polls += 1;
        if n.idle_polls > n.idle_limit {
            sym::hang();
        }
    }
    k
}
#[repr(C)]
pub struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut PollFd, cnt: usize, timeout: c_int) -> c_int {
    if cnt > 0 && kind((*p).fd) == Fd::Closed {
        return sys(7, p as usize, cnt, timeout as usize, 0, 0, 0) as c_int;
    }
    for round in 0..2 {
        let mut k = 0;
        for i in 0..cnt {
            let e = &mut *p.add(i);
            e.revents = 0;
            if (e.events & 1) != 0 && readable(e.fd) {
                e.revents |= 1;
            }
            e.revents |= e.events & 4;
            if e.revents != 0 {
                k += 1;
            }
        }
        if k > 0 || round == 1 {
            return k;
        }
        for i in 0..cnt {
            let fd = (*p.add(i)).fd;
            serve(Ev::Idle(if kind(fd) == Fd::Udp { Idle::Udp } else { Idle::Tcp }));
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if kind(fd) == Fd::Closed {
        return sys(72, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int;
    }
    if cmd == 4 {
        net().nonblock[(fd - BASE) as usize] = (arg & 0o4000) != 0;
    }
    if cmd == 3 && is_nonblock(fd) {
        return 0o4000;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_int) -> c_int {
    match req {
        0x5421 => net().nonblock[(fd - BASE) as usize] = *arg != 0,
        0x541b => {
            *arg = match kind(fd) {
                Fd::Tcp => net().tcp_in.len() as c_int,
                Fd::Udp => {
                    if net().udp_in.is_empty() {
                        0
                    } else {
                        net().udp_in[0].len() as c_int
                    }
                }
                _ => 0,
            }
        }
        _ => {}
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(_a: *const c_void, _b: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: c_int, _f: c_int, _a: *const c_void, _b: *mut c_void) -> c_int {
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    for i in 0..n {
        *p.add(i) = (i as u8).wrapping_mul(17).wrapping_add(3);
    }
    n as isize
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: c_int, t: *mut i64) -> c_int {
    *t = 1000;
    *t.add(1) = 0;
    0
}
// ---- scheduler ---------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn sched_get_priority_max(_p: c_int) -> c_int {
    if active() && net().rt_ok == 1 {
        set_errno(22);
        return -1;
    }
    99
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setschedparam(_t: usize, policy: c_int, p: *const c_int) -> c_int {
    let n = net();
    n.sched[0] += 1;
    n.sched[1] = policy as i64;
    n.sched[2] = *p as i64;
    if n.rt_ok == 2 {
        set_errno(1);
        return 1;
    }
    in_effect(1, policy & 0xff == 1 && *p >= 98);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_setscheduler(_t: c_int, policy: c_int, p: *const c_int) -> c_int {
    let n = net();
    n.sched[0] += 1;
    n.sched[1] = policy as i64;
    n.sched[2] = *p as i64;
    if n.rt_ok == 2 {
        set_errno(1);
        return -1;
    }
    in_effect(1, policy & 0xff == 1 && *p >= 98);
    0
}
#[no_mangle]
pub unsafe extern "C" fn mlockall(flags: c_int) -> c_int {
    let n = net();
    n.sched[3] += 1;
    n.sched[4] = flags as i64;
    if n.rt_ok == 3 {
        set_errno(12);
        return -1;
    }
    in_effect(2, flags & 3 == 3);
    0
}
#[no_mangle]
pub unsafe extern "C" fn munlockall() -> c_int {
    in_effect(2, false);
    0
}
/// what holds for the thread now: bit 0 first-in-first-out scheduling, bit 1 memory locked
fn in_effect(bit: i64, on: bool) {
    let n = net();
    n.sched[5] &= !bit;
    if on {
        n.sched[5] |= bit;
    }
}
// ---- files -------------------------------------------------------------------------------------
unsafe fn cpath(p: *const c_char) -> &'static [u8] {
    let mut l = 0;
    while *p.add(l) != 0 {
        l += 1;
    }
    std::slice::from_raw_parts(p as *const u8, l)
}
fn find(path: &[u8]) -> Option<usize> {
    if !active() {
        return None;
    }
    let n = net();
    for i in 0..n.files.len() {
        if n.files[i].path == path {
            return Some(i);
        }
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: usize) -> c_int {
    let path = cpath(p);
    if !active() {
        return sys(2, p as usize, flags as usize, mode, 0, 0, 0) as c_int;
    }
    let creat = (flags & 0o100) != 0;
    if (flags & 3) != 0 && net().open_fail {
        set_errno(13);
        return -1;
    }
    let idx = match find(path) {
        Some(i) => i,
        None => {
            if !creat {
                set_errno(ENOENT);
                return -1;
            }
            let n = net();
            n.files.push(VFile { path: path.to_vec(), data: Vec::new(), exists: false, is_dir: false });
            n.files.len() - 1
        }
    };
    let n = net();
    if !n.files[idx].exists {
        if !creat {
            set_errno(ENOENT);
            return -1;
        }
        n.files[idx].exists = true;
        n.files[idx].data.clear();
    } else if (flags & 0o200) != 0 && creat {
        set_errno(17);
        return -1;
    }
    if (flags & 0o1000) != 0 {
        n.files[idx].data.clear();
    }
    let pos = if (flags & 0o2000) != 0 { n.files[idx].data.len() } else { 0 };
    n.open.push(OpenFile { file: idx, pos });
    let k = n.open.len() - 1;
    new_fd(Fd::File(k), false)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: usize) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn statx(_d: c_int, p: *const c_char, flags: c_int, _m: u32, b: *mut u8) -> c_int {
    let path = if p.is_null() { &[][..] } else { cpath(p) };
    let (size, dir) = if path.is_empty() && (flags & 0x1000) != 0 {
        match kind(_d) {
            Fd::File(i) => {
                let f = net().open[i].file;
                (net().files[f].data.len(), false)
            }
            _ => {
                set_errno(9);
                return -1;
            }
        }
    } else {
        match find(path) {
            Some(i) if net().files[i].exists => (net().files[i].data.len(), net().files[i].is_dir),
            _ => {
                set_errno(ENOENT);
                return -1;
            }
        }
    };
    for i in 0..256 {
        *b.add(i) = 0;
    }
    *(b as *mut u32) = 0x7ff;
    let mode: u16 = if dir { 0o040755 } else { 0o100644 };
    *(b.add(28) as *mut u16) = mode;
    *(b.add(40) as *mut u64) = size as u64;
    0
}
unsafe fn fill_stat(b: *mut u8, size: usize) {
    for i in 0..144 {
        *b.add(i) = 0;
    }
    *(b.add(24) as *mut u32) = 0o100644;
    *(b.add(48) as *mut u64) = size as u64;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut u8) -> c_int {
    match find(cpath(p)) {
        Some(i) if net().files[i].exists => {
            fill_stat(b, net().files[i].data.len());
            0
        }
        _ => {
            set_errno(ENOENT);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut u8) -> c_int {
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut u8) -> c_int {
    match kind(fd) {
        Fd::File(i) => {
            let f = net().open[i].file;
            fill_stat(b, net().files[f].data.len());
            0
        }
        _ => {
            set_errno(9);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    match kind(fd) {
        Fd::File(i) => {
            let n = net();
            let f = n.open[i].file;
            let base = match wh {
                0 => 0,
                1 => n.open[i].pos as i64,
                _ => n.files[f].data.len() as i64,
            };
            n.open[i].pos = (base + off) as usize;
            n.open[i].pos as i64
        }
        _ => {
            set_errno(9);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, _m: c_int) -> c_int {
    match find(cpath(p)) {
        Some(i) if net().files[i].exists => 0,
        _ => {
            set_errno(ENOENT);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match find(cpath(p)) {
        Some(i) if net().files[i].exists => {
            net().files[i].exists = false;
            net().files[i].data.clear();
            0
        }
        _ => {
            set_errno(ENOENT);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let i = match find(cpath(a)) {
        Some(i) if net().files[i].exists => i,
        _ => {
            set_errno(ENOENT);
            return -1;
        }
    };
    let data = net().files[i].data.clone();
    net().files[i].exists = false;
    let to = cpath(b).to_vec();
    match find(&to) {
        Some(j) => {
            net().files[j].exists = true;
            net().files[j].data = data;
        }
        None => net().files.push(VFile { path: to, data, exists: true, is_dir: false }),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if let Fd::File(i) = kind(fd) {
        let n = net();
        let f = n.open[i].file;
        n.files[f].data.resize(len as usize, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(_n: *const c_char, _s: *const c_char, _h: *const c_void, _r: *mut *mut c_void) -> c_int {
    -2
}
#[no_mangle]
pub unsafe extern "C" fn gai_strerror(_e: c_int) -> *const c_char {
    b"Name or service not known\0".as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn gnu_get_libc_version() -> *const c_char {
    b"2.39\0".as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(_r: *mut c_void) {}
#[no_mangle]
pub unsafe extern "C" fn __res_init() -> c_int {
    0
}
// ---- dynamic loader ----------------------------------------------------------------------------
pub type DlFn = fn(&[u8]) -> *mut c_void;
static DLSYM: Global<DlFn> = Global(UnsafeCell::new(None));
pub fn set_dlsym(f: DlFn) {
    unsafe {
        *DLSYM.0.get() = Some(f);
    }
}
const LIBM: usize = 0x7001;
const MODEL: usize = 0x7002;
#[no_mangle]
pub unsafe extern "C" fn dlopen(p: *const c_char, _f: c_int) -> *mut c_void {
    if p.is_null() {
        return LIBM as *mut c_void;
    }
    let path = cpath(p);
    if let Some(i) = find(path) {
        if net().files[i].exists && net().dl_ok {
            net().dl_opened += 1;
            net().dl_data = net().files[i].data.clone();
            return (MODEL + i) as *mut c_void;
        }
        return std::ptr::null_mut();
    }
    if path.windows(4).any(|w| w == b"libm") {
        return LIBM as *mut c_void;
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void {
    if (h as usize) < MODEL {
        return std::ptr::null_mut();
    }
    match &*DLSYM.0.get() {
        Some(f) => f(cpath(name)),
        None => std::ptr::null_mut(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dlclose(h: *mut c_void) -> c_int {
    if h as usize >= MODEL {
        net().dl_closed += 1;
    }
    0
}
static DLERR: &[u8] = b"symbol or library not found\0";
#[no_mangle]
pub unsafe extern "C" fn dlerror() -> *const c_char {
    DLERR.as_ptr() as *const c_char
}
