//! Raw RakNet peers and a fault-injecting UDP proxy. Neither uses the library.
use crate::rt::*;
use crate::wire::{self, *};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::task::JoinHandle;

/// Aborts its task when dropped.
pub struct Task(pub JoinHandle<()>);
impl Drop for Task {
    fn drop(&mut self) {
        self.0.abort();
    }
}
pub fn spawn(f: impl std::future::Future<Output = ()> + Send + 'static) -> Task {
    Task(tokio::spawn(f))
}

/// Grows a socket's receive buffer as far as the system lets it.
pub fn big_rcvbuf(s: &UdpSocket) {
    use std::os::fd::AsRawFd;
    let v: libc::c_int = 4 << 20;
    unsafe {
        let p = &v as *const _ as *const libc::c_void;
        if libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, 33, p, 4) != 0 {
            libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, p, 4);
        }
    }
}

// ---------------------------------------------------------------- reference receiver

/// First counter values of the connections of the process: datagram number, reliable, sequenced and
/// ordered index, compound id. Zero unless C21 sets them.
static START: Mutex<[u32; 5]> = Mutex::new([0; 5]);
pub fn start() -> [u32; 5] {
    *START.lock().unwrap()
}
/// Lets the counters of new connections, the library's and the raw peers', begin at `at`.
pub fn start_at(at: [u32; 5]) {
    *START.lock().unwrap() = at;
    rust_raknet::rkv_hooks::start_counters_at(at[0], at[1], at[2], at[3], at[4] as u16);
}
pub const M24: u32 = 0xff_ffff;

/// What a correct receiver delivers for a sequence of frames.
pub struct Model {
    base: [u32; 5],
    ridx: HashSet<u32>,
    ord_next: u32,
    ord: HashMap<u32, Vec<u8>>,
    seq_next: u32,
    frag: HashMap<u16, (u32, u32, BTreeMap<u32, Vec<u8>>)>,
    pub out: Vec<(u8, Vec<u8>)>,
}
impl Default for Model {
    fn default() -> Model {
        Model {
            base: start(),
            ridx: Default::default(),
            ord_next: 0,
            ord: Default::default(),
            seq_next: 0,
            frag: Default::default(),
            out: vec![],
        }
    }
}
impl Model {
    pub fn feed(&mut self, f: &Frame) {
        let f = &rebase(f, &self.base);
        if is_reliable(f.rel) && !self.ridx.insert(f.ridx) {
            return;
        }
        let (oidx, data) = match f.split {
            None => (f.oidx, f.data.clone()),
            Some((size, id, idx)) => {
                let e = self.frag.entry(id).or_insert_with(|| (size, f.oidx, BTreeMap::new()));
                e.2.entry(idx).or_insert_with(|| f.data.clone());
                if e.2.len() < size as usize {
                    return;
                }
                let e = self.frag.remove(&id).unwrap();
                (e.1, e.2.into_values().flatten().collect())
            }
        };
        match f.rel {
            UNRELIABLE | RELIABLE => self.out.push((f.rel, data)),
            UNREL_SEQ | REL_SEQ => {
                if f.sidx >= self.seq_next {
                    self.seq_next = f.sidx + 1;
                    self.out.push((f.rel, data));
                }
            }
            _ => {
                if oidx >= self.ord_next {
                    self.ord.entry(oidx).or_insert(data);
                }
                while let Some(d) = self.ord.remove(&self.ord_next) {
                    self.out.push((ORDERED, d));
                    self.ord_next += 1;
                }
            }
        }
    }
}

/// The frame with its indexes counted from the first of the connection.
pub fn rebase(f: &Frame, base: &[u32; 5]) -> Frame {
    let mut f = f.clone();
    if *base != [0; 5] {
        f.ridx = f.ridx.wrapping_sub(base[1]) & M24;
        f.sidx = f.sidx.wrapping_sub(base[2]) & M24;
        f.oidx = f.oidx.wrapping_sub(base[3]) & M24;
        if let Some(x) = &mut f.split {
            x.1 = x.1.wrapping_sub(base[4] as u16);
        }
    }
    f
}

// ---------------------------------------------------------------- raw peer

#[derive(Clone, Debug)]
pub struct Rx {
    pub ms: f64,
    pub from: SocketAddr,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Mute,
    Client,
    Server,
}

pub struct PeerSt {
    pub role: Role,
    pub to: Option<SocketAddr>,
    pub guid: u64,
    pub mtu: u16,
    /// what OpenConnectionReply2 grants, if not `mtu`
    /// sent in ConnectionRequest and NewIncomingConnection
    pub time: i64,
    /// how many internal addresses a message lists
    pub addrs: usize,
    pub mtu2: Option<u16>,
    pub log: Vec<Rx>,
    pub keep_log: bool,
    /// acknowledge incoming frame sets at once
    pub auto_ack: bool,
    /// answer handshake messages
    pub auto_handshake: bool,
    /// never acknowledged: reliable indexes whose datagrams stay unacknowledged
    pub hold_ridx: HashSet<u32>,
    pub acked: HashSet<u32>,
    pub ack_events: Vec<(f64, u32, u32)>,
    pub nacks: Vec<(f64, u32, u32)>,
    pub frames: Vec<(f64, u32, Frame)>,
    pub seqs: HashSet<u32>,
    pub model: Model,
    pub bad: Vec<(String, String)>,
    pub disconnects: u32,
    pub pongs: Vec<(f64, i64, u64, Vec<u8>)>,
    pub conn_pongs: Vec<i64>,
    pub reply1: Vec<(u64, u16)>,
    pub reply2: Vec<(u64, SocketAddr, u16)>,
    pub already: u32,
    pub incompatible: u32,
    pub accepted: u32,
    pub incoming: u32,
    pub req_seen: u32,
    pub seq: u32,
    pub ridx: u32,
    pub oidx: u32,
    pub sidx: u32,
    pub cid: u16,
    pub sent_nic: bool,
    /// when set, frame datagrams are only counted: (datagrams, last number, times it went backwards)
    pub sink: Option<(u64, u32, u64)>,
}

pub struct Peer {
    pub sock: Arc<UdpSocket>,
    pub addr: SocketAddr,
    st: Arc<Mutex<PeerSt>>,
    _task: Task,
}

impl Peer {
    pub async fn bind(at: &str, role: Role) -> Peer {
        let sock = Arc::new(UdpSocket::bind(at).await.expect("peer bind"));
        big_rcvbuf(&sock);
        Self::over(sock, role)
    }
    pub async fn new(role: Role) -> Peer {
        Self::bind("127.0.0.1:0", role).await
    }
    pub fn over(sock: Arc<UdpSocket>, role: Role) -> Peer {
        let addr = sock.local_addr().unwrap();
        let st = Arc::new(Mutex::new(PeerSt {
            role,
            to: None,
            guid: 0x1122_3344_5566_7788 ^ addr.port() as u64,
            mtu: 1400,
            mtu2: None,
            time: 77,
            addrs: 10,
            log: vec![],
            keep_log: true,
            auto_ack: true,
            auto_handshake: true,
            hold_ridx: Default::default(),
            acked: Default::default(),
            ack_events: vec![],
            nacks: vec![],
            frames: vec![],
            seqs: Default::default(),
            model: Default::default(),
            bad: vec![],
            disconnects: 0,
            pongs: vec![],
            conn_pongs: vec![],
            reply1: vec![],
            reply2: vec![],
            already: 0,
            incompatible: 0,
            accepted: 0,
            incoming: 0,
            req_seen: 0,
            seq: start()[0],
            ridx: start()[1],
            oidx: start()[3],
            sidx: start()[2],
            cid: start()[4] as u16,
            sent_nic: false,
            sink: None,
        }));
        let (s2, st2) = (sock.clone(), st.clone());
        let task = spawn(async move {
            let mut buf = vec![0u8; 65536];
            loop {
                let Ok((n, from)) = s2.recv_from(&mut buf).await else {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    continue;
                };
                let out = Self::on(&mut st2.lock().unwrap(), from, &buf[..n]);
                for d in out {
                    let _ = s2.send_to(&d, from).await;
                }
            }
        });
        Peer { sock, addr, st, _task: task }
    }

    fn on(st: &mut PeerSt, from: SocketAddr, b: &[u8]) -> Vec<Vec<u8>> {
        let ms = now_ms();
        if let Some((n, last, back)) = &mut st.sink {
            if b.len() > 4 && b[0] & 0xf0 == 0x80 {
                let q = b[1] as u32 | (b[2] as u32) << 8 | (b[3] as u32) << 16;
                let d = q.wrapping_sub(*last) & M24;
                if d == 0 || d > M24 / 2 {
                    *back += 1;
                }
                *n += 1;
                *last = q;
                return if is_reliable(b[4] >> 5) { vec![enc_ack(ACK, &[(q, q)])] } else { vec![] };
            }
        }
        if st.keep_log {
            st.log.push(Rx { ms, from, bytes: b.to_vec() });
        }
        let d = match wire::decode(b) {
            Ok(d) => d,
            Err(e) => {
                st.bad.push((e, hex(b)));
                return vec![];
            }
        };
        let mut out = vec![];
        match d {
            Dg::Ack(r) => {
                for (a, b) in r {
                    st.ack_events.push((ms, a, b));
                    for i in a..=b.min(a + 100_000) {
                        st.acked.insert(i);
                    }
                }
            }
            Dg::Nack(r) => {
                for (a, b) in r {
                    st.nacks.push((ms, a, b));
                }
            }
            Dg::Disconnect => st.disconnects += 1,
            Dg::Pong { time, guid, motd } => st.pongs.push((ms, time, guid, motd)),
            Dg::Reply1 { guid, mtu, .. } => st.reply1.push((guid, mtu)),
            Dg::Reply2 { guid, addr, mtu, .. } => st.reply2.push((guid, addr, mtu)),
            Dg::Already { .. } => st.already += 1,
            Dg::Incompatible { .. } => st.incompatible += 1,
            Dg::Req1 { .. } => {
                st.req_seen += 1;
                if st.role == Role::Server && st.auto_handshake {
                    out.push(enc_reply1(st.guid, st.mtu));
                }
            }
            Dg::Req2 { .. } => {
                if st.role == Role::Server && st.auto_handshake {
                    st.to = Some(from);
                    out.push(enc_reply2(st.guid, from, st.mtu2.unwrap_or(st.mtu)));
                }
            }
            Dg::Ping { .. } => {}
            Dg::Frames { seq, frames, .. } => {
                let held = frames.iter().any(|f| is_reliable(f.rel) && st.hold_ridx.contains(&f.ridx));
                if st.auto_ack && !held {
                    out.push(enc_ack(ACK, &[(seq, seq)]));
                }
                let fresh = st.seqs.insert(seq);
                for f in frames {
                    let new = fresh;
                    if new {
                        let before = st.model.out.len();
                        st.model.feed(&f);
                        let news: Vec<Vec<u8>> = st.model.out[before..].iter().map(|x| x.1.clone()).collect();
                        for m in news {
                            match wire::decode_inner(&m) {
                                Ok(Inner::Request { time, .. }) => {
                                    if st.role == Role::Server && st.auto_handshake {
                                        let fr = Self::mk(st, ORDERED, &enc_accepted_n(from, time, time.wrapping_add(1), st.addrs));
                                        let s = st.seq;
                                        st.seq += 1;
                                        out.push(enc_frames(s, &[fr]));
                                    }
                                }
                                Ok(Inner::Accepted { .. }) => {
                                    st.accepted += 1;
                                    if st.role == Role::Client && st.auto_handshake && !st.sent_nic {
                                        st.sent_nic = true;
                                        let fr = Self::mk(st, ORDERED, &enc_incoming_n(from, st.time, st.time.wrapping_add(1), st.addrs));
                                        let s = st.seq;
                                        st.seq += 1;
                                        out.push(enc_frames(s, &[fr]));
                                    }
                                }
                                Ok(Inner::Incoming { .. }) => st.incoming += 1,
                                Ok(Inner::Disconnect) => st.disconnects += 1,
                                Ok(Inner::Pong(a, _)) => st.conn_pongs.push(a),
                                Ok(Inner::Ping(_)) | Ok(Inner::User) => {}
                                Err(e) => st.bad.push((e, hex(&m))),
                            }
                        }
                    }
                    st.frames.push((ms, seq, f));
                }
            }
        }
        out
    }

    fn mk(st: &mut PeerSt, rel: u8, data: &[u8]) -> Frame {
        let mut f = Frame::new(rel, data);
        if is_reliable(rel) {
            f.ridx = st.ridx & 0xff_ffff;
            st.ridx += 1;
        }
        if is_sequenced(rel) {
            f.sidx = st.sidx & 0xff_ffff;
            st.sidx += 1;
        }
        f.oidx = if has_order(rel) { st.oidx & 0xff_ffff } else { 0 };
        if rel == ORDERED {
            st.oidx += 1;
        }
        f
    }

    pub fn with<T>(&self, f: impl FnOnce(&mut PeerSt) -> T) -> T {
        f(&mut self.st.lock().unwrap())
    }
    /// Allocates the next indexes for a message of this reliability.
    pub fn frame(&self, rel: u8, data: &[u8]) -> Frame {
        self.with(|s| Self::mk(s, rel, data))
    }
    /// Splits a ReliableOrdered message into `n` fragments.
    pub fn split(&self, data: &[u8], n: usize) -> Vec<Frame> {
        self.with(|s| {
            let id = s.cid;
            s.cid = s.cid.wrapping_add(1);
            let per = data.len().div_ceil(n);
            let chunks: Vec<&[u8]> = data.chunks(per).collect();
            let size = chunks.len() as u32;
            let oidx = s.oidx & 0xff_ffff;
            s.oidx += 1;
            chunks
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    let mut f = Frame::new(ORDERED, c);
                    f.ridx = s.ridx & 0xff_ffff;
                    s.ridx += 1;
                    f.oidx = oidx;
                    f.split = Some((size, id, i as u32));
                    f
                })
                .collect()
        })
    }
    pub fn next_seq(&self) -> u32 {
        self.with(|s| {
            s.seq += 1;
            (s.seq - 1) & 0xff_ffff
        })
    }
    pub fn target(&self) -> SocketAddr {
        self.with(|s| s.to).expect("peer target")
    }
    pub async fn raw(&self, b: &[u8]) {
        let to = self.target();
        let _ = self.sock.send_to(b, to).await;
    }
    pub async fn send(&self, frames: &[Frame]) -> u32 {
        let seq = self.next_seq();
        self.raw(&enc_frames(seq, frames)).await;
        seq
    }
    pub fn is_acked(&self, seq: u32) -> bool {
        self.with(|s| s.acked.contains(&seq))
    }
    /// Sends and repeats the same datagram until it is acknowledged.
    pub async fn send_acked(&self, frames: &[Frame], secs: f64) -> bool {
        let seq = self.next_seq();
        let b = enc_frames(seq, frames);
        let end = ticks() + (secs * 100.0) as u64;
        loop {
            self.raw(&b).await;
            if wait_until(0.5, || self.is_acked(seq)).await {
                return true;
            }
            if ticks() > end {
                return false;
            }
        }
    }
    pub async fn msg(&self, rel: u8, data: &[u8]) -> bool {
        let f = self.frame(rel, data);
        self.send_acked(&[f], 10.0).await
    }
    /// User messages received from the library so far, by the reference receiver.
    pub fn user(&self) -> Vec<(u8, Vec<u8>)> {
        self.with(|s| s.model.out.iter().filter(|m| m.1[0] == 0xfe).cloned().collect())
    }
    pub fn user_count(&self) -> usize {
        self.with(|s| s.model.out.iter().filter(|m| m.1[0] == 0xfe).count())
    }

    /// Full client handshake with a library server.
    pub async fn connect(&self, server: SocketAddr, version: u8, mtu: u16) -> Result<(), String> {
        self.with(|s| {
            s.role = Role::Client;
            s.to = Some(server);
            s.mtu = mtu;
        });
        self.open(server, version, mtu).await?;
        self.login().await
    }
    /// Offline part of the handshake.
    pub async fn open(&self, server: SocketAddr, version: u8, mtu: u16) -> Result<(), String> {
        self.with(|s| s.to = Some(server));
        let n1 = self.with(|s| s.reply1.len());
        let mut ok = false;
        for _ in 0..12 {
            self.raw(&enc_req1(version, (mtu as usize).clamp(60, 1492) - 28)).await;
            if wait_until(0.8, || self.with(|s| s.reply1.len() > n1 || s.incompatible > 0)).await {
                ok = true;
                break;
            }
        }
        if !ok {
            return Err("no OpenConnectionReply1".into());
        }
        if self.with(|s| s.incompatible > 0 && s.reply1.len() == n1) {
            return Err("incompatible version".into());
        }
        let (n2, a) = self.with(|s| (s.reply2.len(), s.already));
        for _ in 0..12 {
            let guid = self.with(|s| s.guid);
            self.raw(&enc_req2(server, mtu, guid)).await;
            if wait_until(0.8, || self.with(|s| s.reply2.len() > n2 || s.already > a)).await {
                if self.with(|s| s.reply2.len() > n2) {
                    return Ok(());
                }
                return Err("already connected".into());
            }
        }
        Err("no OpenConnectionReply2".into())
    }
    /// Online part: ConnectionRequest .. NewIncomingConnection.
    pub async fn login(&self) -> Result<(), String> {
        let acc = self.with(|s| s.accepted);
        let (guid, time) = self.with(|s| (s.guid, s.time));
        let f = self.frame(ORDERED, &enc_conn_request(guid, time));
        if !self.send_acked(&[f], 10.0).await {
            return Err("ConnectionRequest not acknowledged".into());
        }
        if !wait_until(10.0, || self.with(|s| s.accepted > acc)).await {
            return Err("no ConnectionRequestAccepted".into());
        }
        // wait until our NewIncomingConnection is acknowledged
        let seq = self.with(|s| s.seq).wrapping_sub(1) & M24;
        wait_until(5.0, || self.is_acked(seq)).await;
        Ok(())
    }
    /// Forgets all connection state, keeping the socket: a fresh connection from the same address.
    pub fn reset(&self) {
        self.with(|s| {
            s.log.clear();
            s.acked.clear();
            s.ack_events.clear();
            s.nacks.clear();
            s.frames.clear();
            s.seqs.clear();
            s.hold_ridx.clear();
            s.model = Default::default();
            s.disconnects = 0;
            s.reply1.clear();
            s.reply2.clear();
            s.already = 0;
            s.accepted = 0;
            s.incoming = 0;
            let b = start();
            s.seq = b[0];
            s.ridx = b[1];
            s.oidx = b[3];
            s.sidx = b[2];
            s.cid = b[4] as u16;
            s.sent_nic = false;
        })
    }
}

// ---------------------------------------------------------------- proxy

pub const C2S: u8 = 0;
pub const S2C: u8 = 1;

#[derive(Clone, Debug, Default)]
pub struct NetCfg {
    pub drop: f64,
    pub dup: f64,
    pub delay: f64,
    pub max_delay_ms: u64,
    /// fixed extra one-way delay
    pub base_ms: u64,
    /// total loss in the direction (2 = both) between two times after the connection's first datagram
    pub blackouts: Vec<(f64, f64, u8)>,
}
impl NetCfg {
    pub fn clean() -> NetCfg {
        NetCfg::default()
    }
    pub fn random(r: &mut Rng) -> NetCfg {
        let kind = r.below(6);
        let mut c = NetCfg::default();
        match kind {
            0 => c.drop = 0.05 + 0.25 * (r.below(100) as f64 / 100.0),
            1 => c.dup = 0.1 + 0.4 * (r.below(100) as f64 / 100.0),
            2 => {
                c.delay = 0.5;
                c.max_delay_ms = 30 + r.below(120);
            }
            3 => {
                c.drop = 0.1;
                c.dup = 0.2;
                c.delay = 0.3;
                c.max_delay_ms = 80;
            }
            4 => {
                c.drop = 0.03;
                c.base_ms = 10 + r.below(40);
                c.delay = 0.2;
                c.max_delay_ms = 200;
            }
            _ => {
                c.drop = 0.08;
                c.dup = 0.1;
                let a = 300.0 + r.below(600) as f64;
                c.blackouts.push((a, a + 200.0 + r.below(400) as f64, r.below(3) as u8));
            }
        }
        c
    }
}

#[derive(Clone, Debug)]
pub struct Tr {
    pub ms: f64,
    pub conn: usize,
    pub dir: u8,
    /// copies that reach the other side (0 = lost)
    pub copies: u8,
    pub bytes: Vec<u8>,
}

/// Overrides the fate of a datagram: list of delays in ms, one per copy.
pub type Hook = Box<dyn FnMut(usize, u8, u32, &[u8]) -> Option<Vec<u64>> + Send>;

/// A free address below the range ports are given out from: after it is freed nobody else gets it.
pub fn own_addr() -> SocketAddr {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    loop {
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + std::process::id() * 31;
        let a: SocketAddr = format!("127.0.0.1:{}", 12_000 + n % 7_900).parse().unwrap();
        if std::net::UdpSocket::bind(a).is_ok() {
            return a;
        }
    }
}

pub struct PxSt {
    pub cfg: NetCfg,
    rng: Rng,
    hook: Option<Hook>,
    pub trace: Vec<Tr>,
    pub keep_trace: bool,
    pub clients: Vec<SocketAddr>,
    pub ups: Vec<SocketAddr>,
    count: HashMap<(usize, u8), u32>,
    first: HashMap<usize, f64>,
    pub dropped: u64,
    pub duped: u64,
    pub delayed: u64,
    pub passed: u64,
    pub inflight: u64,
}
impl PxSt {
    pub fn set_hook(&mut self, h: Hook) {
        self.hook = Some(h);
    }
}
pub struct Proxy {
    pub addr: SocketAddr,
    pub st: Arc<Mutex<PxSt>>,
    _task: Task,
}

impl Proxy {
    pub async fn new(server: SocketAddr, cfg: NetCfg, seed: u64) -> Proxy {
        Self::with_hook(server, cfg, seed, None).await
    }
    pub async fn with_hook(server: SocketAddr, cfg: NetCfg, seed: u64, hook: Option<Hook>) -> Proxy {
        let ip = if server.is_ipv6() { "[::1]:0" } else { "127.0.0.1:0" };
        let front = Arc::new(UdpSocket::bind(ip).await.expect("proxy bind"));
        big_rcvbuf(&front);
        let addr = front.local_addr().unwrap();
        let st = Arc::new(Mutex::new(PxSt {
            cfg,
            rng: Rng::derive(seed, 0x70, 0x78),
            hook,
            trace: vec![],
            keep_trace: true,
            clients: vec![],
            ups: vec![],
            count: Default::default(),
            first: Default::default(),
            dropped: 0,
            duped: 0,
            delayed: 0,
            passed: 0,
            inflight: 0,
        }));
        let st2 = st.clone();
        let ip = ip.to_string();
        let task = spawn(async move {
            let mut ups: HashMap<SocketAddr, (usize, Arc<UdpSocket>, Task)> = HashMap::new();
            let mut buf = vec![0u8; 65536];
            loop {
                let Ok((n, from)) = front.recv_from(&mut buf).await else {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    continue;
                };
                if !ups.contains_key(&from) {
                    if n > 0 && buf[0] & 0x80 != 0 {
                        // nobody starts with such a datagram: a latecomer for a former owner of this port
                        continue;
                    }
                    let up = Arc::new(UdpSocket::bind(&ip).await.expect("proxy upstream"));
                    big_rcvbuf(&up);
                    let conn = {
                        let mut s = st2.lock().unwrap();
                        s.clients.push(from);
                        s.ups.push(up.local_addr().unwrap());
                        s.clients.len() - 1
                    };
                    let (u, f, s3) = (up.clone(), front.clone(), st2.clone());
                    let t = spawn(async move {
                        let mut buf = vec![0u8; 65536];
                        loop {
                            let Ok((n, src)) = u.recv_from(&mut buf).await else {
                                tokio::time::sleep(Duration::from_millis(1)).await;
                                continue;
                            };
                            if src != server {
                                continue;
                            }
                            Self::relay(&s3, conn, S2C, &buf[..n], &f, from).await;
                        }
                    });
                    ups.insert(from, (conn, up, t));
                }
                let (conn, up, _) = &ups[&from];
                Self::relay(&st2, *conn, C2S, &buf[..n], up, server).await;
            }
        });
        Proxy { addr, st, _task: task }
    }

    async fn relay(st: &Arc<Mutex<PxSt>>, conn: usize, dir: u8, b: &[u8], out: &Arc<UdpSocket>, to: SocketAddr) {
        let fate = {
            let mut s = st.lock().unwrap();
            let ms = now_ms();
            let k = {
                let e = s.count.entry((conn, dir)).or_insert(0);
                *e += 1;
                *e - 1
            };
            let t0 = *s.first.entry(conn).or_insert(ms);
            let mut hook = s.hook.take();
            let forced = hook.as_mut().and_then(|h| h(conn, dir, k, b));
            s.hook = hook;
            let fate = forced.unwrap_or_else(|| {
                let c = s.cfg.clone();
                let dark = c.blackouts.iter().any(|(a, z, d)| ms - t0 >= *a && ms - t0 < *z && (*d == 2 || *d == dir));
                if dark || s.rng.chance(c.drop) {
                    return vec![];
                }
                let mut v = vec![];
                let n = if s.rng.chance(c.dup) { 2 + s.rng.below(2) } else { 1 };
                for _ in 0..n {
                    let d = if s.rng.chance(c.delay) { s.rng.below(c.max_delay_ms + 1) } else { 0 };
                    v.push(c.base_ms + d);
                }
                v
            });
            match fate.len() {
                0 => s.dropped += 1,
                1 => s.passed += 1,
                _ => s.duped += 1,
            }
            if fate.iter().any(|d| *d > 0) {
                s.delayed += 1;
            }
            if s.keep_trace {
                s.trace.push(Tr { ms, conn, dir, copies: fate.len() as u8, bytes: b.to_vec() });
            }
            s.inflight += fate.iter().filter(|d| **d > 0).count() as u64;
            fate
        };
        for d in fate {
            if d == 0 {
                let _ = out.send_to(b, to).await;
            } else {
                let (out, b, st) = (out.clone(), b.to_vec(), st.clone());
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_millis(d)).await;
                    let _ = out.send_to(&b, to).await;
                    st.lock().unwrap().inflight -= 1;
                });
            }
        }
    }
    pub fn set(&self, cfg: NetCfg) {
        self.st.lock().unwrap().cfg = cfg;
    }
    /// From now on nothing is lost, repeated or delayed.
    pub fn clean(&self) {
        let mut s = self.st.lock().unwrap();
        s.cfg = NetCfg::default();
        s.hook = None;
    }
    pub fn trace(&self) -> Vec<Tr> {
        self.st.lock().unwrap().trace.clone()
    }
    pub fn stats(&self) -> (u64, u64, u64, u64) {
        let s = self.st.lock().unwrap();
        (s.passed, s.dropped, s.duped, s.delayed)
    }
}

/// Datagrams the kernel dropped at a UDP port, if it tells.
pub fn kernel_drops(port: u16) -> Option<u64> {
    let t = std::fs::read_to_string("/proc/net/udp").ok()?;
    t.lines().skip(1).find(|l| l.split_whitespace().nth(1).is_some_and(|a| a.ends_with(&format!(":{port:04X}"))))?.split_whitespace().last()?.parse().ok()
}
