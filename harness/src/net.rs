//! Servers for the code under test to talk to, and stand-ins for name lookup, connect, recv and send
//! in this process, so that every connection stays on the loopback interface and can be delayed,
//! refused, cut up and recorded.

use crate::model::{self, V};
use lib::Context;
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- stand-ins

#[derive(Clone, Debug)]
pub enum Reach {
    /// connect to this loopback address, after a delay
    Accept { to: SocketAddr, delay_ms: u64 },
    Refuse { delay_ms: u64 },
    /// neither answers nor refuses until the case is over
    Hang,
}

#[derive(Default)]
struct World {
    names: HashMap<String, Vec<IpAddr>>,
    lookup_delay_ms: u64,
    hosts: HashMap<IpAddr, Reach>,
    lookups: Vec<String>,
    connects: Vec<(SocketAddr, bool)>,
    epoch: u64,
    port: Option<u16>,
}

fn world() -> MutexGuard<'static, World> {
    static W: std::sync::OnceLock<Mutex<World>> = std::sync::OnceLock::new();
    W.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner())
}
static EPOCH: Condvar = Condvar::new();

thread_local! {
    static SERVER: Cell<bool> = const { Cell::new(false) };
}

fn is_server() -> bool {
    SERVER.try_with(|s| s.get()).unwrap_or(true)
}

pub fn mark_server() {
    SERVER.with(|s| s.set(true))
}

static RECV_PLAN: Mutex<Vec<u32>> = Mutex::new(Vec::new());
static RECV_ON: AtomicBool = AtomicBool::new(false);
static RECV_AT: AtomicUsize = AtomicUsize::new(0);
static SEND_PLAN: Mutex<Vec<u32>> = Mutex::new(Vec::new());
static SEND_ON: AtomicBool = AtomicBool::new(false);
static SEND_AT: AtomicUsize = AtomicUsize::new(0);

/// Sizes of the pieces in which the client sees the stream, over and over; empty for no limit.
pub fn plan_recv(plan: &[u32]) {
    *RECV_PLAN.lock().unwrap() = plan.to_vec();
    RECV_AT.store(0, Ordering::SeqCst);
    RECV_ON.store(!plan.is_empty(), Ordering::SeqCst);
}
/// How much of each write the system accepts, over and over.
pub fn plan_send(plan: &[u32]) {
    *SEND_PLAN.lock().unwrap() = plan.to_vec();
    SEND_AT.store(0, Ordering::SeqCst);
    SEND_ON.store(!plan.is_empty(), Ordering::SeqCst);
}

static SEND_NAP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Writes of the client from this size on are the message, not the handshake before it.
pub const MESSAGE: usize = 4000;

/// The next large write of the client takes this long.
pub fn slow_send(ms: u64) {
    SEND_NAP.store(ms, Ordering::SeqCst);
}

fn slow(len: usize) {
    if len >= MESSAGE && SEND_NAP.load(Ordering::SeqCst) > 0 && !is_server() {
        nap(SEND_NAP.swap(0, Ordering::SeqCst));
    }
}

/// # Safety
/// as writev(2)
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, iov: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
    if SEND_NAP.load(Ordering::SeqCst) > 0 {
        slow((0..n as usize).map(|i| (*iov.add(i)).iov_len).sum());
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as libc::ssize_t
}

fn limited(on: &AtomicBool, at: &AtomicUsize, plan: &Mutex<Vec<u32>>, len: usize) -> usize {
    if !on.load(Ordering::SeqCst) || is_server() || len == 0 {
        return len;
    }
    let plan = plan.lock().unwrap();
    if plan.is_empty() {
        return len;
    }
    let i = at.fetch_add(1, Ordering::SeqCst);
    len.min((plan[i % plan.len()] as usize).max(1))
}

/// One byte of what the client receives over TLS is not the byte that was sent.
struct Damage {
    /// counted over the contents of the records, without their heads
    at: usize,
    bits: u8,
    head: Vec<u8>,
    left: usize,
    passed: usize,
    /// the type of the record that was hit
    hit: Option<u8>,
}
static DAMAGE: Mutex<Option<Damage>> = Mutex::new(None);
static DAMAGE_ON: AtomicBool = AtomicBool::new(false);

pub fn plan_damage(at: usize, bits: u8) {
    *DAMAGE.lock().unwrap() = Some(Damage {
        at,
        bits,
        head: vec![],
        left: 0,
        passed: 0,
        hit: None,
    });
    DAMAGE_ON.store(true, Ordering::SeqCst);
}

/// Ends it; the type of the record that was damaged, if one was.
pub fn end_damage() -> Option<u8> {
    DAMAGE_ON.store(false, Ordering::SeqCst);
    DAMAGE.lock().unwrap().take().and_then(|d| d.hit)
}

fn damage(bytes: &mut [u8]) {
    let mut plan = DAMAGE.lock().unwrap();
    let Some(d) = plan.as_mut() else { return };
    for b in bytes {
        if d.left == 0 {
            d.head.push(*b);
            if d.head.len() == 5 {
                d.left = usize::from(d.head[3]) << 8 | usize::from(d.head[4]);
                if d.left == 0 {
                    d.head.clear();
                }
            }
            continue;
        }
        if d.passed == d.at {
            *b ^= d.bits;
            d.hit = Some(d.head[0]);
        }
        d.passed += 1;
        d.left -= 1;
        if d.left == 0 {
            d.head.clear();
        }
    }
}

/// # Safety
/// as recv(2)
#[no_mangle]
pub unsafe extern "C" fn recv(fd: libc::c_int, buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    let len = limited(&RECV_ON, &RECV_AT, &RECV_PLAN, len);
    let n = libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, std::ptr::null_mut::<u8>(), std::ptr::null_mut::<u8>()) as libc::ssize_t;
    if n > 0 && flags & libc::MSG_PEEK == 0 && DAMAGE_ON.load(Ordering::SeqCst) && !is_server() {
        damage(std::slice::from_raw_parts_mut(buf as *mut u8, n as usize));
    }
    n
}

/// # Safety
/// as send(2)
#[no_mangle]
pub unsafe extern "C" fn send(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    slow(len);
    let len = limited(&SEND_ON, &SEND_AT, &SEND_PLAN, len);
    libc::syscall(libc::SYS_sendto, fd, buf, len, flags, std::ptr::null::<u8>(), 0) as libc::ssize_t
}

unsafe fn fail(errno: i32) -> libc::c_int {
    *libc::__errno_location() = errno;
    -1
}

/// # Safety
/// as connect(2)
#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
    let raw = |fd: libc::c_int| libc::syscall(libc::SYS_connect, fd, addr, len) as libc::c_int;
    if is_server() {
        return raw(fd);
    }
    let target = match (*addr).sa_family as i32 {
        libc::AF_INET => {
            let a = &*(addr as *const libc::sockaddr_in);
            SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)), u16::from_be(a.sin_port)))
        }
        libc::AF_INET6 => {
            let a = &*(addr as *const libc::sockaddr_in6);
            SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(a.sin6_addr.s6_addr), u16::from_be(a.sin6_port), 0, 0))
        }
        _ => return raw(fd),
    };
    let (reach, epoch) = {
        let w = world();
        // an attempt of an earlier case that only starts now
        if NEXT_PORT.load(Ordering::SeqCst) > 0 && CASE_PORTS.contains(&target.port()) && w.port != Some(target.port()) {
            return fail(libc::ETIMEDOUT);
        }
        (w.hosts.get(&target.ip()).cloned(), w.epoch)
    };
    let log = |ok: bool| {
        let mut w = world();
        if w.epoch == epoch {
            w.connects.push((target, ok));
        }
    };
    match reach {
        None if target.ip().is_loopback() && target.is_ipv4() => {
            let r = raw(fd);
            let errno = *libc::__errno_location();
            log(r == 0);
            *libc::__errno_location() = errno;
            r
        }
        // nothing leaves the machine
        None => {
            log(false);
            fail(libc::ENETUNREACH)
        }
        // the caller waits by itself, see poll
        Some(Reach::Refuse { delay_ms: 1.. } | Reach::Accept { delay_ms: 1.., .. } | Reach::Hang) if libc::fcntl(fd, libc::F_GETFL) & libc::O_NONBLOCK != 0 => {
            let (to, ms) = match reach {
                Some(Reach::Accept { to, delay_ms }) => (Some(to), Some(delay_ms)),
                Some(Reach::Refuse { delay_ms }) => (None, Some(delay_ms)),
                _ => (None, None),
            };
            if ms.is_none() {
                log(false);
            }
            waiting().insert(fd, Attempt { target, to, epoch, at: ms.map(|ms| Instant::now() + Duration::from_millis(ms)) });
            fail(libc::EINPROGRESS)
        }
        Some(Reach::Refuse { delay_ms }) => {
            nap(delay_ms);
            log(false);
            fail(libc::ECONNREFUSED)
        }
        Some(Reach::Hang) => {
            let mut w = world();
            w.connects.push((target, false));
            while w.epoch == epoch {
                w = EPOCH.wait(w).unwrap_or_else(|e| e.into_inner());
            }
            drop(w);
            fail(libc::ETIMEDOUT)
        }
        Some(Reach::Accept { to, delay_ms }) => {
            nap(delay_ms);
            put(fd, target, to, epoch)
        }
    }
}

/// An attempt to connect under way on a socket that does not block.
struct Attempt {
    target: SocketAddr,
    to: Option<SocketAddr>,
    epoch: u64,
    /// never, if the address hangs
    at: Option<Instant>,
}

fn waiting() -> MutexGuard<'static, HashMap<libc::c_int, Attempt>> {
    static W: std::sync::OnceLock<Mutex<HashMap<libc::c_int, Attempt>>> = std::sync::OnceLock::new();
    W.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner())
}

/// Puts a connection to a server here in the place of the socket.
unsafe fn put(fd: libc::c_int, target: SocketAddr, to: SocketAddr, epoch: u64) -> libc::c_int {
    let SocketAddr::V4(to) = to else { return fail(libc::EINVAL) };
    // never into a later case
    let mut w = world();
    if w.epoch != epoch {
        return fail(libc::ETIMEDOUT);
    }
    let s = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
    if s < 0 {
        return -1;
    }
    let mut a: libc::sockaddr_in = std::mem::zeroed();
    a.sin_family = libc::AF_INET as u16;
    a.sin_port = to.port().to_be();
    a.sin_addr.s_addr = u32::from(*to.ip()).to_be();
    let r = libc::syscall(libc::SYS_connect, s, &a as *const _, std::mem::size_of::<libc::sockaddr_in>()) as libc::c_int;
    let errno = *libc::__errno_location();
    if r == 0 {
        libc::dup3(s, fd, libc::O_CLOEXEC);
    }
    libc::close(s);
    w.connects.push((target, r == 0));
    drop(w);
    *libc::__errno_location() = errno;
    r
}

/// # Safety
/// as poll(2)
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: libc::c_int) -> libc::c_int {
    let at = fds as usize;
    let raw = || libc::syscall(libc::SYS_poll, at, n, timeout) as libc::c_int;
    if n != 1 || is_server() || (*fds).events & libc::POLLOUT == 0 {
        return raw();
    }
    let p = &mut *fds;
    let Some((at, epoch)) = waiting().get(&p.fd).map(|a| (a.at, a.epoch)) else { return raw() };
    let until = (timeout >= 0).then(|| Instant::now() + Duration::from_millis(timeout as u64));
    let mut w = world();
    loop {
        let now = Instant::now();
        if w.epoch != epoch || at.is_some_and(|at| at <= now) {
            break;
        }
        if until.is_some_and(|u| u <= now) {
            p.revents = 0;
            return 0;
        }
        let next = at.into_iter().chain(until).min().map_or(Duration::from_secs(1), |t| t - now);
        w = EPOCH.wait_timeout(w, next).unwrap_or_else(|e| e.into_inner()).0;
    }
    drop(w);
    p.revents = libc::POLLOUT;
    let Some(a) = waiting().remove(&p.fd) else { return raw() };
    let connected = match a.to {
        Some(to) => put(p.fd, a.target, to, a.epoch) == 0,
        None => {
            let mut w = world();
            if w.epoch == a.epoch && a.at.is_some() {
                w.connects.push((a.target, false));
            }
            false
        }
    };
    if !connected {
        p.revents |= libc::POLLHUP | libc::POLLERR;
    }
    1
}

/// # Safety
/// as socket(2): IPv6 sockets are IPv4 ones here, connect puts the right one in place anyway
#[no_mangle]
pub unsafe extern "C" fn socket(domain: libc::c_int, kind: libc::c_int, protocol: libc::c_int) -> libc::c_int {
    let domain = if domain == libc::AF_INET6 { libc::AF_INET } else { domain };
    let fd = libc::syscall(libc::SYS_socket, domain, kind, protocol) as libc::c_int;
    // the number may be that of an attempt that was given up
    waiting().remove(&fd);
    fd
}

/// # Safety
/// as getaddrinfo(3), from the table of names only
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const libc::c_char,
    _service: *const libc::c_char,
    hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> libc::c_int {
    let name = if node.is_null() { String::new() } else { std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned() };
    let (ips, delay) = {
        let mut w = world();
        w.lookups.push(name.clone());
        // names are not case sensitive
        let ips = match w.names.get(&name.to_ascii_lowercase()) {
            Some(ips) => Some(ips.clone()),
            None if name == "localhost" => Some(vec![IpAddr::V4(Ipv4Addr::LOCALHOST)]),
            None => name.parse::<Ipv4Addr>().ok().map(|ip| vec![IpAddr::V4(ip)]),
        };
        (ips, w.lookup_delay_ms)
    };
    nap(delay);
    let Some(ips) = ips else { return libc::EAI_NONAME };
    if ips.is_empty() {
        return libc::EAI_NODATA;
    }
    let kind = if hints.is_null() { libc::SOCK_STREAM } else { (*hints).ai_socktype };
    let mut next: *mut libc::addrinfo = std::ptr::null_mut();
    for ip in ips.iter().rev() {
        let (family, addr, len) = match ip {
            IpAddr::V4(ip) => {
                let mut a: Box<libc::sockaddr_in> = Box::new(std::mem::zeroed());
                a.sin_family = libc::AF_INET as u16;
                a.sin_addr.s_addr = u32::from(*ip).to_be();
                (libc::AF_INET, Box::into_raw(a) as *mut libc::sockaddr, std::mem::size_of::<libc::sockaddr_in>())
            }
            IpAddr::V6(ip) => {
                let mut a: Box<libc::sockaddr_in6> = Box::new(std::mem::zeroed());
                a.sin6_family = libc::AF_INET6 as u16;
                a.sin6_addr.s6_addr = ip.octets();
                (libc::AF_INET6, Box::into_raw(a) as *mut libc::sockaddr, std::mem::size_of::<libc::sockaddr_in6>())
            }
        };
        let info = Box::new(libc::addrinfo {
            ai_flags: 0,
            ai_family: family,
            ai_socktype: kind,
            ai_protocol: 0,
            ai_addrlen: len as libc::socklen_t,
            ai_addr: addr,
            ai_canonname: std::ptr::null_mut(),
            ai_next: next,
        });
        next = Box::into_raw(info);
    }
    *res = next;
    0
}

/// # Safety
/// as freeaddrinfo(3), for lists of the function above
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut res: *mut libc::addrinfo) {
    while !res.is_null() {
        let info = Box::from_raw(res);
        match info.ai_family {
            libc::AF_INET => drop(Box::from_raw(info.ai_addr as *mut libc::sockaddr_in)),
            _ => drop(Box::from_raw(info.ai_addr as *mut libc::sockaddr_in6)),
        }
        res = info.ai_next;
    }
}

fn nap(ms: u64) {
    if ms > 0 {
        std::thread::sleep(Duration::from_millis(ms));
    }
}

/// What the names and addresses of a case are; resets the logs.
pub fn set_world(names: Vec<(String, Vec<IpAddr>)>, hosts: Vec<(IpAddr, Reach)>, lookup_delay_ms: u64) {
    let mut w = world();
    w.epoch += 1;
    w.names = names.into_iter().map(|(n, v)| (n.to_ascii_lowercase(), v)).collect();
    w.hosts = hosts.into_iter().collect();
    w.lookup_delay_ms = lookup_delay_ms;
    w.port = None;
    w.lookups.clear();
    w.connects.clear();
    EPOCH.notify_all();
}

const CASE_PORTS: std::ops::Range<u16> = 10_000..20_000;

static NEXT_PORT: AtomicUsize = AtomicUsize::new(0);

/// A port for the URLs of this case only, so that attempts to connect that start late are known for what they are.
pub fn case_port() -> u16 {
    let mut w = world();
    let port = CASE_PORTS.start + (NEXT_PORT.fetch_add(1, Ordering::SeqCst) % CASE_PORTS.len()) as u16;
    w.port = Some(port);
    port
}

/// Ends what attempts to connect are still under way; the names and addresses stay.
fn end_attempts() {
    world().epoch += 1;
    EPOCH.notify_all();
}

pub fn take_logs() -> (Vec<String>, Vec<(SocketAddr, bool)>) {
    let mut w = world();
    (std::mem::take(&mut w.lookups), std::mem::take(&mut w.connects))
}

// ---------------------------------------------------------------- servers

#[derive(Clone, Debug)]
pub enum Act {
    /// read a whole request, by its Content-Length
    ReadRequest,
    /// read this many bytes
    ReadTotal(usize),
    Send(Vec<u8>),
    Pause(u64),
    /// close at once, with a reset
    Reset,
    /// close without reading more
    Close,
    /// end the sending side, read what still comes
    Finish,
    /// keep the connection open until the client closes it, at most this long
    Hold(u64),
}

#[derive(Clone)]
pub struct Script {
    pub acts: Vec<Act>,
    pub tls: Option<Arc<rustls::ServerConfig>>,
}

impl Script {
    pub fn new(acts: Vec<Act>) -> Script {
        Script { acts, tls: None }
    }
    pub fn reply(response: Vec<u8>) -> Script {
        Script::new(vec![Act::ReadRequest, Act::Send(response)])
    }
    pub fn tls(mut self, config: Arc<rustls::ServerConfig>) -> Script {
        self.tls = Some(config);
        self
    }
}

#[derive(Default, Debug, Clone)]
pub struct Conn {
    /// bytes of the application
    pub bytes: Vec<u8>,
    /// bytes on the wire from the client, of a TLS connection
    pub raw: Vec<u8>,
    pub tls_error: Option<String>,
    /// the client closed before the server did
    pub client_closed: bool,
    pub handshake: bool,
}

#[derive(Default)]
struct State {
    scripts: VecDeque<Script>,
    conns: Vec<Option<Conn>>,
    unexpected: usize,
    active: usize,
    /// the port of a connection that only marks the end of a case
    last: Option<u16>,
}

pub struct Server {
    pub addr: SocketAddr,
    state: Arc<(Mutex<State>, Condvar)>,
}

struct Tee<'a> {
    stream: &'a TcpStream,
    log: &'a Mutex<Vec<u8>>,
}
impl Read for Tee<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (&mut &*self.stream).read(buf)?;
        self.log.lock().unwrap().extend_from_slice(&buf[..n]);
        Ok(n)
    }
}
impl Write for Tee<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        (&mut &*self.stream).write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const PATIENCE: Duration = Duration::from_secs(10);

fn head_end(b: &[u8]) -> Option<usize> {
    b.windows(4).position(|w| w == b"\r\n\r\n").map(|i| i + 4)
}

/// Length of the first request in the bytes, when it is complete.
pub fn request_len(b: &[u8]) -> Option<usize> {
    let head = head_end(b)?;
    let text = String::from_utf8_lossy(&b[..head]).to_ascii_lowercase();
    let n = text
        .lines()
        .find_map(|l| l.strip_prefix("content-length:").and_then(|v| v.trim().parse::<usize>().ok()))
        .unwrap_or(0);
    (b.len() >= head + n).then_some(head + n)
}

fn serve(stream: TcpStream, script: Script) -> Conn {
    let mut conn = Conn::default();
    let _ = stream.set_nodelay(true);
    // a damaged handshake can leave both sides waiting
    let patience = if DAMAGE_ON.load(Ordering::SeqCst) { Duration::from_secs(4) } else { PATIENCE };
    let _ = stream.set_read_timeout(Some(patience));
    let _ = stream.set_write_timeout(Some(patience));
    match script.tls {
        None => {
            let mut s = &stream;
            act(&mut s, &stream, &script.acts, &mut conn, false);
        }
        Some(config) => {
            let log = Mutex::new(Vec::new());
            match rustls::ServerConnection::new(config) {
                Ok(mut tls) => {
                    let mut tee = Tee { stream: &stream, log: &log };
                    let mut failed = None;
                    while tls.is_handshaking() {
                        match tls.complete_io(&mut tee) {
                            Ok((0, 0)) => {
                                failed = Some("eof".to_string());
                                break;
                            }
                            Ok(_) => {}
                            Err(e) => {
                                failed = Some(e.to_string());
                                break;
                            }
                        }
                    }
                    match failed {
                        Some(e) => {
                            conn.tls_error = Some(e);
                            let _ = tls.write_tls(&mut tee);
                            let _ = stream.shutdown(std::net::Shutdown::Write);
                            let mut rest = Vec::new();
                            let _ = tee.read_to_end(&mut rest);
                        }
                        None => {
                            conn.handshake = true;
                            let mut s = rustls::StreamOwned::new(tls, tee);
                            act(&mut s, &stream, &script.acts, &mut conn, true);
                        }
                    }
                }
                Err(e) => conn.tls_error = Some(e.to_string()),
            }
            conn.raw = log.into_inner().unwrap();
        }
    }
    conn
}

trait Side: Read + Write {
    /// ends the sending side in good order
    fn end(&mut self, stream: &TcpStream);
}
impl Side for &TcpStream {
    fn end(&mut self, stream: &TcpStream) {
        let _ = stream.shutdown(std::net::Shutdown::Write);
    }
}
impl Side for rustls::StreamOwned<rustls::ServerConnection, Tee<'_>> {
    fn end(&mut self, stream: &TcpStream) {
        self.conn.send_close_notify();
        let _ = self.flush();
        let _ = stream.shutdown(std::net::Shutdown::Write);
    }
}

fn act<S: Side>(s: &mut S, stream: &TcpStream, acts: &[Act], conn: &mut Conn, tls: bool) {
    let mut buf = vec![0u8; 65536];
    let mut ended = false;
    for a in acts {
        match a {
            Act::ReadRequest | Act::ReadTotal(_) => loop {
                let enough = match a {
                    Act::ReadTotal(n) => conn.bytes.len() >= *n,
                    _ => request_len(&conn.bytes).is_some(),
                };
                if enough {
                    break;
                }
                match s.read(&mut buf) {
                    Ok(0) => {
                        conn.client_closed = true;
                        break;
                    }
                    Err(_) => break,
                    Ok(n) => conn.bytes.extend_from_slice(&buf[..n]),
                }
            },
            Act::Send(b) => {
                if s.write_all(b).and_then(|_| s.flush()).is_err() {
                    break;
                }
            }
            Act::Pause(ms) => nap(*ms),
            Act::Reset => {
                reset_on_close(stream);
                ended = true;
                break;
            }
            Act::Close => {
                ended = true;
                break;
            }
            Act::Finish => break,
            Act::Hold(ms) => {
                let _ = stream.set_read_timeout(Some(Duration::from_millis((*ms).max(1))));
                loop {
                    match s.read(&mut buf) {
                        Ok(0) => {
                            conn.client_closed = true;
                            break;
                        }
                        Ok(n) => conn.bytes.extend_from_slice(&buf[..n]),
                        Err(e) if tls && e.kind() == std::io::ErrorKind::UnexpectedEof => {
                            conn.client_closed = true;
                            break;
                        }
                        Err(_) => break,
                    }
                }
                let _ = stream.set_read_timeout(Some(PATIENCE));
            }
        }
    }
    if !ended {
        s.end(stream);
        let mut rest = Vec::new();
        loop {
            match s.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => rest.extend_from_slice(&buf[..n]),
            }
        }
        conn.bytes.extend(rest);
    }
}

fn reset_on_close(stream: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            stream.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

impl Server {
    pub fn start() -> Server {
        Server::bind("127.0.0.1:0".parse().unwrap())
    }
    pub fn bind(addr: SocketAddr) -> Server {
        let listener = TcpListener::bind(addr).expect("bind");
        let addr = listener.local_addr().unwrap();
        let state: Arc<(Mutex<State>, Condvar)> = Default::default();
        let shared = state.clone();
        std::thread::spawn(move || {
            mark_server();
            loop {
                let Ok((stream, _)) = listener.accept() else { continue };
                let (lock, cond) = &*shared;
                let mut st = lock.lock().unwrap();
                if st.last.is_some() && st.last == stream.peer_addr().ok().map(|a| a.port()) {
                    st.last = None;
                    cond.notify_all();
                    continue;
                }
                match st.scripts.pop_front() {
                    None => st.unexpected += 1,
                    Some(script) => {
                        let at = st.conns.len();
                        st.conns.push(None);
                        st.active += 1;
                        drop(st);
                        let shared = shared.clone();
                        std::thread::spawn(move || {
                            mark_server();
                            let conn = serve(stream, script);
                            let (lock, cond) = &*shared;
                            let mut st = lock.lock().unwrap();
                            if at < st.conns.len() {
                                st.conns[at] = Some(conn);
                            }
                            st.active -= 1;
                            cond.notify_all();
                        });
                    }
                }
                cond.notify_all();
            }
        });
        Server { addr, state }
    }
    pub fn script(&self, scripts: Vec<Script>) {
        let mut st = self.state.0.lock().unwrap();
        *st = State {
            scripts: scripts.into(),
            ..State::default()
        };
    }
    /// Waits for the connections under way, and gives all of the case and the number of connections without a script.
    pub fn collect(&self) -> (Vec<Conn>, usize) {
        let (lock, cond) = &*self.state;
        let mut st = lock.lock().unwrap();
        // connections are accepted in order: once this one is, all before it are
        let was = SERVER.with(|s| s.replace(true));
        let mark = TcpStream::connect(self.addr).expect("connect to the own server");
        SERVER.with(|s| s.set(was));
        reset_on_close(&mark);
        st.last = mark.local_addr().ok().map(|a| a.port());
        while st.active > 0 || st.last.is_some() {
            st = cond.wait(st).unwrap();
        }
        let conns = st.conns.drain(..).map(|c| c.unwrap_or_default()).collect();
        let unexpected = st.unexpected;
        *st = State::default();
        (conns, unexpected)
    }
}

thread_local! {
    static OWN: Server = Server::start();
}

/// The address of this thread's server.
pub fn own_addr() -> SocketAddr {
    OWN.with(|s| s.addr)
}

// ---------------------------------------------------------------- sessions

#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub version: String,
    pub status: u16,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
}

#[derive(Clone, Debug, Default)]
pub struct Times {
    pub start: Duration,
    pub end: Duration,
    pub total: Duration,
    pub resolve: Duration,
    pub connect: Duration,
    pub write: Duration,
    pub delay: Duration,
    pub read: Duration,
}

/// (text, left, operator, right, result)
pub type Assertion = (String, String, String, String, bool);

/// A record of the library, copied.
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub name: String,
    pub method: String,
    pub scheme: String,
    pub host: String,
    pub port: u16,
    pub path: String,
    pub url: String,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
    pub response: Resp,
    pub asserts: Vec<Assertion>,
    pub error: String,
    pub time: Times,
    pub display: String,
}

macro_rules! copy_record {
    ($r:expr) => {{
        let r = $r;
        $crate::net::Rec {
            name: r.name.clone(),
            method: r.request.method.as_ref().to_string(),
            scheme: r.request.url.scheme.as_ref().to_string(),
            host: r.request.url.host.clone(),
            port: r.request.url.port,
            path: r.request.url.path.clone(),
            url: r.request.url.to_string(),
            version: r.request.version.as_ref().to_string(),
            headers: r.request.headers.iter().map(|h| (h.name.clone(), h.value.clone())).collect(),
            body: r.request.body.clone(),
            response: $crate::net::Resp {
                version: r.response.version.clone(),
                status: r.response.status,
                reason: r.response.reason.clone(),
                headers: r.response.headers.iter().map(|h| (h.name.clone(), h.value.clone())).collect(),
                body: r.response.body.clone(),
            },
            asserts: r.asserts.iter().map(|a| (a.expr.clone(), a.left.clone(), a.compare.clone(), a.right.clone(), a.result)).collect(),
            error: r.error.clone(),
            time: $crate::net::Times {
                start: r.time.start,
                end: r.time.end,
                total: r.time.total,
                resolve: r.time.resolve,
                connect: r.time.connect,
                write: r.time.write,
                delay: r.time.delay,
                read: r.time.read,
            },
            display: r.to_string(),
        }
    }};
}
#[allow(unused_imports)]
pub(crate) use copy_record;

pub struct Got {
    pub value: Option<V>,
    pub error: Option<String>,
    pub records: Vec<Rec>,
    pub conns: Vec<Conn>,
    pub unexpected: usize,
    pub lookups: Vec<String>,
    pub connects: Vec<(SocketAddr, bool)>,
    pub wall: Duration,
    pub context: Context,
}

/// Runs a program in a new context; `at` is where the scripted server listens.
pub fn play(scripts: Vec<Script>, program: &dyn Fn(&str) -> String) -> Got {
    play_in(Context::new(), scripts, program)
}

pub fn play_in(mut context: Context, scripts: Vec<Script>, program: &dyn Fn(&str) -> String) -> Got {
    OWN.with(|server| {
        server.script(scripts);
        let _ = take_logs();
        let text = program(&server.addr.to_string());
        let started = Instant::now();
        let ran = match lib::Parser::new(&text).parse() {
            Err(e) => Err(format!("refused: {}", e)),
            Ok(lib::Source { exprs, requests, .. }) => {
                context.extend(requests);
                lib::eval_block(&exprs, &mut context).map(|v| model::of(&v))
            }
        };
        let wall = started.elapsed();
        let records = context.records().iter().map(|r| copy_record!(r)).collect();
        end_attempts();
        let (conns, unexpected) = server.collect();
        let (lookups, connects) = take_logs();
        let (value, error) = match ran {
            Ok(v) => (Some(v), None),
            Err(e) => (None, Some(e)),
        };
        Got {
            value,
            error,
            records,
            conns,
            unexpected,
            lookups,
            connects,
            wall,
            context,
        }
    })
}

/// One request `r` with this template ({at} is the server's address) and these assertions, sent once.
pub fn exchange(script: Script, template: &str, asserts: &str, prelude: &[String]) -> Got {
    play(vec![script], &|at| {
        let asserts = if asserts.is_empty() { String::new() } else { format!("[{}]", asserts) };
        format!("{}\nrequest r `{}`{};\nr()", prelude.join(";\n"), template.replace("{at}", at), asserts)
    })
}

/// Runs something (a command) with this thread's server following the scripts.
pub fn serve_while(scripts: Vec<Script>, body: &dyn Fn(&str) -> Result<(), String>) -> Result<(Vec<Conn>, usize), String> {
    OWN.with(|server| {
        server.script(scripts);
        let done = body(&server.addr.to_string());
        let conns = server.collect();
        done.map(|_| conns)
    })
}

// ---------------------------------------------------------------- a server for many clients at once

#[derive(Clone, Debug)]
pub struct Hit {
    /// when the request was read
    pub at: Instant,
    /// when its answer was written, completely
    pub done: Option<Instant>,
    pub method: String,
    pub target: String,
    pub bytes: Vec<u8>,
    /// what the answer was made to say
    pub note: String,
}

pub enum Answer {
    /// after so many milliseconds
    Reply(u64, Vec<u8>),
    /// close without an answer
    Drop(u64),
}

type Handler = dyn Fn(&str, &[u8]) -> (Answer, String) + Send + Sync;

struct FarmIn {
    hits: Mutex<Vec<Hit>>,
    open: Mutex<usize>,
    cond: Condvar,
    stop: AtomicBool,
    handler: Box<Handler>,
}

/// Answers every request by a function of its target and bytes, each connection in a thread of its own.
pub struct Farm {
    pub addr: SocketAddr,
    inner: Arc<FarmIn>,
}

impl Farm {
    pub fn start(handler: impl Fn(&str, &[u8]) -> (Answer, String) + Send + Sync + 'static) -> Farm {
        let inner = Arc::new(FarmIn {
            hits: Mutex::new(Vec::new()),
            open: Mutex::new(0),
            cond: Condvar::new(),
            stop: AtomicBool::new(false),
            handler: Box::new(handler),
        });
        let listener = TcpListener::bind("127.0.0.1:0").expect("bind");
        let addr = listener.local_addr().expect("address");
        let accept = inner.clone();
        std::thread::spawn(move || {
            mark_server();
            for stream in listener.incoming() {
                if accept.stop.load(Ordering::SeqCst) {
                    break;
                }
                let Ok(stream) = stream else { continue };
                *accept.open.lock().unwrap() += 1;
                let farm = accept.clone();
                std::thread::spawn(move || {
                    mark_server();
                    farm.serve(stream);
                    *farm.open.lock().unwrap() -= 1;
                    farm.cond.notify_all();
                });
            }
        });
        Farm { addr, inner }
    }
    /// All requests so far, in the order in which they were read, once no connection is open.
    pub fn hits(&self) -> Vec<Hit> {
        let limit = Instant::now() + PATIENCE;
        let mut open = self.inner.open.lock().unwrap();
        while *open > 0 && Instant::now() < limit {
            open = self.inner.cond.wait_timeout(open, Duration::from_millis(200)).unwrap().0;
        }
        drop(open);
        self.inner.hits.lock().unwrap().clone()
    }
    pub fn count(&self) -> usize {
        self.inner.hits.lock().unwrap().len()
    }
}

impl Drop for Farm {
    fn drop(&mut self) {
        self.inner.stop.store(true, Ordering::SeqCst);
        let was = SERVER.with(|s| s.replace(true));
        let _ = TcpStream::connect(self.addr);
        SERVER.with(|s| s.set(was));
    }
}

impl FarmIn {
    fn serve(&self, stream: TcpStream) {
        let _ = stream.set_nodelay(true);
        let _ = stream.set_read_timeout(Some(PATIENCE));
        let _ = stream.set_write_timeout(Some(PATIENCE));
        let mut s = &stream;
        let mut bytes = Vec::new();
        let mut buf = [0u8; 65536];
        while request_len(&bytes).is_none() {
            match s.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => bytes.extend_from_slice(&buf[..n]),
            }
        }
        if bytes.is_empty() {
            return;
        }
        let line = String::from_utf8_lossy(&bytes).lines().next().unwrap_or("").to_string();
        let mut words = line.split(' ');
        let method = words.next().unwrap_or("").to_string();
        let target = words.next().unwrap_or("").to_string();
        let at = Instant::now();
        let (answer, note) = (self.handler)(&target, &bytes);
        let index = {
            let mut hits = self.hits.lock().unwrap();
            hits.push(Hit {
                at,
                done: None,
                method,
                target,
                bytes,
                note,
            });
            hits.len() - 1
        };
        match answer {
            Answer::Reply(ms, response) => {
                if ms > 0 {
                    std::thread::sleep(Duration::from_millis(ms));
                }
                if s.write_all(&response).is_ok() {
                    self.hits.lock().unwrap()[index].done = Some(Instant::now());
                }
                let _ = stream.shutdown(std::net::Shutdown::Write);
                while let Ok(n) = s.read(&mut buf) {
                    if n == 0 {
                        break;
                    }
                }
            }
            Answer::Drop(ms) => {
                if ms > 0 {
                    std::thread::sleep(Duration::from_millis(ms));
                }
                reset_on_close(&stream);
                self.hits.lock().unwrap()[index].done = Some(Instant::now());
            }
        }
    }
}

pub fn reply_with(body: &str) -> Vec<u8> {
    format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", body.len(), body).into_bytes()
}
