//! Library-to-library workloads through the fault proxy, raw-peer-to-library workloads,
//! and the delivery oracles over what the applications sent and received.
use crate::net::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn rel_of(r: u8) -> Reliability {
    Reliability::from(r).unwrap_or_else(|_| panic!("reliability {r}"))
}

// ---------------------------------------------------------------- self-describing payloads

pub const HDR: usize = 15;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Key {
    pub conn: u16,
    pub dir: u8,
    pub rel: u8,
    pub task: u8,
    pub idx: u32,
    pub len: u32,
}
impl Key {
    pub fn new(conn: usize, dir: u8, rel: u8, idx: u32, len: usize) -> Key {
        Key { conn: conn as u16, dir, rel, task: 0, idx, len: len.max(HDR) as u32 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0xfe, 0xa5, self.dir, self.rel, self.task];
        v.extend_from_slice(&self.conn.to_be_bytes());
        v.extend_from_slice(&self.idx.to_be_bytes());
        v.extend_from_slice(&self.len.to_be_bytes());
        let mut r = Rng::derive(hash64(&v), 1, 2);
        while v.len() < self.len as usize {
            let x = r.next().to_le_bytes();
            let n = (self.len as usize - v.len()).min(8);
            v.extend_from_slice(&x[..n]);
        }
        v
    }
    /// The key of a payload, if every byte of it is right.
    pub fn parse(b: &[u8]) -> Option<Key> {
        if b.len() < HDR || b[0] != 0xfe || b[1] != 0xa5 {
            return None;
        }
        let k = Key {
            dir: b[2],
            rel: b[3],
            task: b[4],
            conn: u16::from_be_bytes([b[5], b[6]]),
            idx: u32::from_be_bytes(b[7..11].try_into().unwrap()),
            len: u32::from_be_bytes(b[11..15].try_into().unwrap()),
        };
        (k.len as usize == b.len() && k.bytes() == b).then_some(k)
    }
    pub fn j(&self) -> J {
        J::s(format!("{self:?}"))
    }
}

// ---------------------------------------------------------------- application end

/// A connection with a task that keeps receiving.
pub struct App {
    pub s: Arc<RaknetSocket>,
    got: Arc<Mutex<Vec<Vec<u8>>>>,
    end: Arc<Mutex<Option<(f64, String)>>>,
    pub task: Option<Task>,
}
impl App {
    pub fn new(s: RaknetSocket) -> App {
        Self::slow(s, 0)
    }
    /// Pauses `pause_ms` after each message.
    pub fn slow(s: RaknetSocket, pause_ms: u64) -> App {
        let s = Arc::new(s);
        let got = Arc::new(Mutex::new(vec![]));
        let end = Arc::new(Mutex::new(None));
        let (s2, g2, e2) = (s.clone(), got.clone(), end.clone());
        let task = spawn(async move {
            loop {
                match s2.recv().await {
                    Ok(m) => {
                        g2.lock().unwrap().push(m);
                        if pause_ms > 0 {
                            tokio::time::sleep(Duration::from_millis(pause_ms)).await;
                        }
                    }
                    Err(e) => {
                        *e2.lock().unwrap() = Some((now_ms(), format!("{e:?}")));
                        return;
                    }
                }
            }
        });
        App { s, got, end, task: Some(task) }
    }
    pub fn got(&self) -> Vec<Vec<u8>> {
        self.got.lock().unwrap().clone()
    }
    /// What arrives until the reader has stopped, beyond `into_inner`.
    pub fn got_handle(&self) -> Arc<Mutex<Vec<Vec<u8>>>> {
        self.got.clone()
    }
    pub fn count(&self) -> usize {
        self.got.lock().unwrap().len()
    }
    pub fn has(&self, m: &[u8]) -> bool {
        self.got.lock().unwrap().iter().any(|x| x == m)
    }
    pub fn ended(&self) -> Option<(f64, String)> {
        self.end.lock().unwrap().clone()
    }
    /// Waits until a message has arrived.
    pub async fn expect(&self, m: &[u8], secs: f64) -> bool {
        wait_until(secs, || self.has(m)).await
    }
    /// Stops receiving and gives the only handle back, so that dropping it drops the connection.
    pub async fn into_inner(mut self) -> Option<RaknetSocket> {
        if let Some(t) = self.task.take() {
            t.0.abort();
            for _ in 0..200 {
                if t.0.is_finished() {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
            drop(t);
        }
        for _ in 0..200 {
            if Arc::strong_count(&self.s) == 1 {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        Arc::try_unwrap(self.s).ok()
    }
}

pub async fn listener() -> RaknetListener {
    listener_at("127.0.0.1:0").await
}
pub async fn listener_at(a: &str) -> RaknetListener {
    crate::rt::phase("bind");
    // both ways to make a listener, in turn
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut l = if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 0 {
        RaknetListener::bind(&a.parse().unwrap()).await.expect("bind")
    } else {
        RaknetListener::from_std(std::net::UdpSocket::bind(a).expect("bind")).await.expect("from_std")
    };
    crate::rt::phase("bound");
    l.listen().await;
    l
}

/// A library server and one library client, connected.
pub async fn lib_pair(via: Option<&Proxy>, l: &mut RaknetListener) -> Result<(RaknetSocket, RaknetSocket), String> {
    let to = via.map(|p| p.addr).unwrap_or(l.local_addr().map_err(|e| format!("{e:?}"))?);
    let (c, s) = tokio::join!(within(20.0, RaknetSocket::connect(&to)), within(20.0, l.accept()));
    match (c, s) {
        (Some(Ok(c)), Some(Ok(s))) => Ok((c, s)),
        (c, s) => Err(format!("connect {:?} accept {:?}", c.map(|x| x.is_ok()), s.map(|x| x.is_ok()))),
    }
}
/// A library server connection with a raw client at the other end.
pub async fn raw_client(l: &mut RaknetListener, version: u8, mtu: u16) -> Result<(Peer, RaknetSocket), String> {
    let to = l.local_addr().map_err(|e| format!("{e:?}"))?;
    let p = Peer::bind(if to.is_ipv6() { "[::1]:0" } else { "127.0.0.1:0" }, Role::Client).await;
    let (a, s) = tokio::join!(p.connect(to, version, mtu), within(20.0, l.accept()));
    a?;
    match s {
        Some(Ok(s)) => Ok((p, s)),
        _ => Err("raw client connected but accept() gave nothing".into()),
    }
}
/// A library client connection with a raw server at the other end.
pub async fn raw_server(mtu: u16) -> Result<(Peer, RaknetSocket), String> {
    raw_server2(mtu, mtu).await
}
/// The same with another MTU in each of the server's replies.
pub async fn raw_server2(mtu1: u16, mtu2: u16) -> Result<(Peer, RaknetSocket), String> {
    let p = Peer::new(Role::Server).await;
    p.with(|s| {
        s.mtu = mtu1;
        s.mtu2 = (mtu1 != mtu2).then_some(mtu2);
    });
    match within(20.0, RaknetSocket::connect(&p.addr)).await {
        Some(Ok(s)) => {
            wait_until(3.0, || p.with(|s| s.incoming > 0)).await;
            Ok((p, s))
        }
        x => Err(format!("library client to raw server: {:?}", x.map(|r| r.err()))),
    }
}

// ---------------------------------------------------------------- library to library

#[derive(Clone, Debug)]
pub struct PairCfg {
    pub seed: u64,
    pub net: NetCfg,
    pub conns: usize,
    pub msgs: usize,
    /// reliabilities to draw from
    pub rels: Vec<u8>,
    /// largest ordered message
    pub big: usize,
    /// messages sent back to back before a pause
    pub burst: u64,
    pub gap_ms: u64,
    pub flush_every: u64,
    pub slow_reader_ms: u64,
    pub outage: Option<Outage>,
    /// every ordered message takes several datagrams
    pub split: bool,
}

/// After the network's usual faults everything of a kind is lost for some time.
#[derive(Clone, Debug)]
pub struct Outage {
    /// 0 = acknowledgements, 1 = data, 2 = everything
    pub what: u8,
    /// direction of the datagrams that are lost, 2 = both
    pub dir: u8,
    pub secs: f64,
}

#[derive(Clone, Debug, Default)]
pub struct DirOut {
    pub sent: Vec<Key>,
    pub got: Vec<Vec<u8>>,
    pub ended: Option<String>,
}
pub struct PairOut {
    pub cfg: PairCfg,
    pub dirs: Vec<[DirOut; 2]>,
    pub trace: Vec<Tr>,
    pub stats: (u64, u64, u64, u64),
    pub complete: bool,
    pub settle_s: f64,
    pub ends: Vec<(SocketAddr, SocketAddr)>,
}

fn draw_len(r: &mut Rng, rel: u8, big: usize) -> usize {
    match r.below(10) {
        0..=4 => r.range(HDR as u64, 120) as usize,
        5 => r.range(120, 1300) as usize,
        6 => r.range(1336, 1340) as usize,
        _ if rel == ORDERED => match r.below(5) {
            0 => r.range(1339, 1342) as usize,
            1 => 1340 * r.range(1, 6) as usize + r.below(3) as usize,
            2 => 1340 * r.range(1, 6) as usize - 1,
            3 => r.range(1341, 9000) as usize,
            _ => r.range(2000, big.max(2001) as u64) as usize,
        },
        _ => r.range(200, 1340) as usize,
    }
}

/// Sends random messages in both directions of every connection through the fault proxy,
/// then heals the network and waits until everything that must arrive has.
pub async fn run_pair(cfg: PairCfg) -> Result<PairOut, String> {
    within(240.0, run_pair_inner(cfg)).await.unwrap_or_else(|| Err("the workload hung: some library call never returned".into()))
}
async fn run_pair_inner(cfg: PairCfg) -> Result<PairOut, String> {
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), cfg.seed).await;
    let mut apps: Vec<[App; 2]> = vec![];
    let mut ends = vec![];
    for i in 0..cfg.conns {
        let (c, s) = lib_pair(Some(&px), &mut l).await?;
        ends.push((c.local_addr().unwrap(), s.peer_addr().unwrap()));
        if px.st.lock().unwrap().ups.get(i) != Some(&s.peer_addr().unwrap()) {
            return Err("accepted connection is not the one just opened".into());
        }
        apps.push([App::slow(c, cfg.slow_reader_ms), App::slow(s, cfg.slow_reader_ms)]);
    }
    px.set(cfg.net.clone());
    if let Some(o) = cfg.outage.clone() {
        px.st.lock().unwrap().set_hook(Box::new(move |_, d, _, b| {
            let data = b[0] & 0xf0 == 0x80;
            let hit = (o.dir == 2 || o.dir == d) && (o.what == 2 || (o.what == 1) == data);
            hit.then(Vec::new)
        }));
    }
    let mut jobs = vec![];
    for (conn, pair) in apps.iter().enumerate() {
        for dir in [C2S, S2C] {
            let s = pair[dir as usize].s.clone();
            let cfg = cfg.clone();
            jobs.push(tokio::spawn(async move {
                let mut r = Rng::derive(cfg.seed, conn as u64 + 11, dir as u64 + 3);
                let mut next: HashMap<u8, u32> = HashMap::new();
                let mut sent = vec![];
                for i in 0..cfg.msgs {
                    let rel = *r.pick(&cfg.rels);
                    let idx = next.entry(rel).or_insert(0);
                    let len = if cfg.split && rel == ORDERED { r.range(1341, 4000) as usize } else { draw_len(&mut r, rel, cfg.big) };
                    let k = Key::new(conn, dir, rel, *idx, len);
                    match s.send(&k.bytes(), rel_of(rel)).await {
                        Ok(()) => {
                            sent.push(k);
                            *idx += 1;
                        }
                        Err(e) => return Err(format!("send {k:?}: {e:?}")),
                    }
                    if cfg.flush_every > 0 && r.below(cfg.flush_every) == 0 {
                        match within(60.0, s.flush()).await {
                            Some(Ok(())) => {}
                            x => return Err(format!("flush: {x:?}")),
                        }
                    }
                    if (i as u64 + 1) % cfg.burst == 0 && cfg.gap_ms > 0 {
                        tokio::time::sleep(Duration::from_millis(r.below(cfg.gap_ms + 1))).await;
                    }
                }
                Ok(sent)
            }));
        }
    }
    let mut sent = vec![];
    let mut err = None;
    for j in jobs {
        match j.await {
            Ok(Ok(s)) => sent.push(s),
            Ok(Err(e)) => {
                err = Some(e);
                sent.push(vec![]);
            }
            Err(e) => return Err(format!("sender task: {e}")),
        }
    }
    // leave faults on for a moment so that acknowledgements and repeats are hit too
    tokio::time::sleep(Duration::from_millis(150)).await;
    if let Some(o) = &cfg.outage {
        lsleep(o.secs).await;
    }
    px.clean();
    let t0 = ticks();
    let want: Vec<Vec<Vec<u8>>> = sent
        .iter()
        .map(|s| {
            s.iter().filter(|k| matches!(k.rel, RELIABLE | ORDERED)).map(|k| k.bytes()).collect()
        })
        .collect();
    // the newest ReliableSequenced message, or a sequenced one after it, must arrive too
    let newest: Vec<Option<std::collections::HashSet<Vec<u8>>>> = sent
        .iter()
        .map(|s| {
            let p = s.iter().rposition(|k| k.rel == REL_SEQ)?;
            Some(s[p..].iter().filter(|k| is_sequenced(k.rel)).map(|k| k.bytes()).collect())
        })
        .collect();
    let mut complete = false;
    if err.is_none() {
        let end = ticks() + 4500;
        let mut missing: Vec<usize> = (0..want.len()).collect();
        let mut seen = vec![0usize; want.len()];
        let mut left: Vec<std::collections::HashSet<&Vec<u8>>> = want.iter().map(|w| w.iter().collect()).collect();
        let mut await_seq: Vec<bool> = newest.iter().map(|x| x.is_some()).collect();
        loop {
            missing.retain(|&j| {
                let app = &apps[j / 2][1 - j % 2];
                let g = app.got.lock().unwrap();
                for m in &g[seen[j]..] {
                    left[j].remove(m);
                    if await_seq[j] && newest[j].as_ref().unwrap().contains(m) {
                        await_seq[j] = false;
                    }
                }
                seen[j] = g.len();
                !left[j].is_empty() || await_seq[j]
            });
            if missing.is_empty() {
                complete = true;
                break;
            }
            if ticks() > end {
                break;
            }
            tokio::time::sleep(Duration::from_millis(15)).await;
        }
    }
    let settle_s = (ticks() - t0) as f64 / 100.0;
    // long enough for a spurious repeat to be delivered as well
    lsleep(0.4).await;
    let mut dirs = vec![];
    for (i, pair) in apps.iter().enumerate() {
        let mut d: [DirOut; 2] = Default::default();
        for dir in 0..2 {
            d[dir].sent = sent[i * 2 + dir].clone();
            d[dir].got = pair[1 - dir].got();
            d[dir].ended = pair[1 - dir].ended().map(|e| e.1);
        }
        dirs.push(d);
    }
    let out = PairOut { cfg, dirs, trace: px.trace(), stats: px.stats(), complete, settle_s, ends };
    for p in apps {
        for a in p {
            let _ = within(5.0, a.s.close()).await;
        }
    }
    let _ = within(15.0, l.close()).await;
    if let Some(e) = err {
        return Err(e);
    }
    Ok(out)
}

/// Standard set of diverse configurations.
pub fn pair_cfg(seed: u64, k: u64, rels: &[u8]) -> PairCfg {
    let mut r = Rng::derive(seed, 0xC0FFEE, k);
    PairCfg {
        seed: r.next(),
        net: NetCfg::random(&mut r),
        conns: 1 + r.below(2) as usize,
        msgs: 20 + r.below(50) as usize,
        rels: rels.to_vec(),
        big: *r.pick(&[4_000usize, 20_000, 60_000]),
        burst: *r.pick(&[1u64, 3, 8, 60]),
        gap_ms: *r.pick(&[0u64, 5, 20, 60]),
        flush_every: *r.pick(&[0u64, 0, 0, 12]),
        slow_reader_ms: *r.pick(&[0u64, 0, 0, 3]),
        outage: None,
        split: false,
    }
}

/// Long outages of one kind of datagram, and long busy connections: what a connection does after
/// many timeouts in a row, or with a long queue, or late in its life.
pub fn hard_cfgs(c: &Ctx, rels: &[u8]) -> Vec<PairCfg> {
    let mut v = vec![];
    let mut r = Rng::derive(c.seed, 0x0DD5, 0);
    let secs: &[f64] = if c.thorough { &[1.0, 3.0, 7.0, 15.0, 35.0] } else { &[1.0, 7.0] };
    for (i, s) in secs.iter().enumerate() {
        for what in 0..3u8 {
            for dir in 0..3u8 {
                let mut x = pair_cfg(c.seed, 90_000 + v.len() as u64, rels);
                x.net = NetCfg::clean();
                x.conns = 1;
                x.flush_every = 0;
                x.gap_ms = *r.pick(&[0, 3]);
                x.msgs = if i == 0 { 300 } else { *r.pick(&[1usize, 2, 6, 40]) };
                x.big = 6000;
                x.outage = Some(Outage { what, dir, secs: *s });
                v.push(x);
            }
        }
    }
    if rels.contains(&ORDERED) {
        // very many split messages under way together
        for k in 0..c.q(4, 12) {
            let mut x = pair_cfg(c.seed, 93_000 + k, &[ORDERED]);
            x.net = NetCfg { drop: [0.1, 0.02, 0.3, 0.0][k as usize % 4], delay: 0.2, max_delay_ms: 60, ..NetCfg::clean() };
            x.conns = 1;
            x.msgs = c.q(300, 600) as usize;
            x.burst = 1000;
            x.flush_every = 0;
            x.split = true;
            v.push(x);
        }
    }
    for k in 0..c.q(2, 8) {
        let mut x = pair_cfg(c.seed, 95_000 + k, rels);
        x.net = NetCfg::clean();
        x.net.drop = if k % 2 == 0 { 0.0 } else { 0.02 };
        x.conns = 1;
        x.msgs = c.q(2500, 8000) as usize;
        x.big = 3000;
        x.burst = 100;
        x.gap_ms = 30;
        x.flush_every = 0;
        x.slow_reader_ms = 0;
        v.push(x);
    }
    v
}

// ---------------------------------------------------------------- oracles

pub fn w_cfg(o: &PairOut, conn: usize, dir: usize) -> Vec<(&'static str, J)> {
    vec![
        ("workload", J::s(format!("{:?}", o.cfg))),
        ("connection", J::I(conn as i64)),
        ("direction", J::s(if dir == 0 { "client to server" } else { "server to client" })),
    ]
}

fn keys_of(d: &DirOut, rel: u8) -> Vec<Key> {
    d.got.iter().filter_map(|m| Key::parse(m)).filter(|k| k.rel == rel).collect()
}

/// C01
pub fn oracle_ordered(c: &Ctx, sent: &[Key], got: &[Vec<u8>], complete: bool, w: Vec<(&str, J)>) {
    let want: Vec<Key> = sent.iter().filter(|k| k.rel == ORDERED).cloned().collect();
    let have: Vec<Key> = got.iter().filter_map(|m| Key::parse(m)).filter(|k| k.rel == ORDERED).collect();
    c.add("ordered_messages_sent", want.len() as i64);
    c.add("ordered_messages_received", have.len() as i64);
    let bad = |sig: &str, what: String| {
        let mut w = w.clone();
        w.push(("received_indexes", J::s(format!("{:?}", have.iter().map(|k| k.idx).collect::<Vec<_>>()))));
        c.violation(sig, what, J::o(w));
    };
    for (i, k) in have.iter().enumerate() {
        if i >= want.len() || *k != want[i] {
            let first = have[..i].contains(k);
            if first {
                bad("ordered:repeated", format!("ordered message {} delivered again at position {i}", k.idx));
            } else if want.contains(k) {
                bad("ordered:order", format!("position {i}: ordered message {} delivered, {} expected", k.idx, want.get(i).map(|k| k.idx as i64).unwrap_or(-1)));
            } else {
                bad("ordered:alien", format!("position {i}: ordered message {k:?} was never sent"));
            }
            return;
        }
    }
    if have.len() < want.len() {
        let unparsed = got.iter().filter(|m| Key::parse(m).is_none()).count();
        if unparsed > 0 {
            bad("ordered:altered", format!("{unparsed} altered messages, {} of {} intact", have.len(), want.len()));
        } else if !complete {
            bad("ordered:missing", format!("{} of {} ordered messages delivered 45 s after the network healed", have.len(), want.len()));
        } else {
            bad("ordered:missing", format!("{} of {} ordered messages delivered", have.len(), want.len()));
        }
    }
}

/// C02
pub fn oracle_reliable(c: &Ctx, sent: &[Key], got: &[Vec<u8>], w: Vec<(&str, J)>) {
    let mut n: HashMap<Key, i64> = HashMap::new();
    for k in got.iter().filter_map(|m| Key::parse(m)).filter(|k| k.rel == RELIABLE) {
        *n.entry(k).or_insert(0) += 1;
    }
    let want: Vec<&Key> = sent.iter().filter(|k| k.rel == RELIABLE).collect();
    c.add("reliable_messages_sent", want.len() as i64);
    c.add("reliable_messages_received", n.values().sum());
    for k in &want {
        match n.remove(k).unwrap_or(0) {
            1 => {}
            0 => {
                c.violation("reliable:missing", format!("reliable message {} never delivered", k.idx), J::o(w.clone()));
                return;
            }
            x => {
                c.violation("reliable:repeated", format!("reliable message {} delivered {x} times", k.idx), J::o(w.clone()));
                return;
            }
        }
    }
    if let Some(k) = n.keys().next() {
        c.violation("reliable:alien", format!("reliable message {k:?} was never sent"), J::o(w));
    }
}

/// C03. Position in `sent` is the sending order of sequenced messages of both kinds.
pub fn oracle_sequenced(c: &Ctx, sent: &[Key], got: &[Vec<u8>], settled: bool, w: Vec<(&str, J)>) {
    let order: Vec<&Key> = sent.iter().filter(|k| is_sequenced(k.rel)).collect();
    let pos: HashMap<&Key, usize> = order.iter().enumerate().map(|(i, k)| (*k, i)).collect();
    let mut last = -1i64;
    let mut delivered = 0;
    for m in got {
        let Some(k) = Key::parse(m) else { continue };
        if !is_sequenced(k.rel) {
            continue;
        }
        let Some(p) = pos.get(&k) else {
            c.violation("sequenced:alien", format!("sequenced message {k:?} was never sent"), J::o(w.clone()));
            return;
        };
        delivered += 1;
        if *p as i64 <= last {
            let what = if *p as i64 == last { "sequenced:repeated" } else { "sequenced:older" };
            c.violation(what, format!("sequenced message #{p} delivered after #{last}"), J::o(w.clone()));
            return;
        }
        last = *p as i64;
    }
    c.add("sequenced_messages_sent", order.len() as i64);
    c.add("sequenced_messages_delivered", delivered);
    if settled {
        let newest_rel = order.iter().rposition(|k| k.rel == REL_SEQ);
        if let Some(p) = newest_rel {
            if last < p as i64 {
                c.violation(
                    "sequenced:last-missing",
                    format!("the last ReliableSequenced message (#{p}) never arrived; newest delivered is #{last}"),
                    J::o(w),
                );
            }
        }
    }
}

/// C04: everything received was sent, intact, and not more often than the network delivered it.
pub fn oracle_integrity(c: &Ctx, conn: usize, sent: &[Key], got: &[Vec<u8>], copies: &HashMap<Key, i64>, w: Vec<(&str, J)>) {
    let sent_set: std::collections::HashSet<&Key> = sent.iter().collect();
    let mut n: BTreeMap<Key, i64> = BTreeMap::new();
    for m in got {
        match Key::parse(m) {
            None => {
                c.violation("integrity:altered", format!("received bytes nobody sent: {}", hex(m)), J::o(w.clone()));
                return;
            }
            Some(k) if !sent_set.contains(&k) => {
                c.violation(
                    if k.conn as usize != conn { "integrity:cross" } else { "integrity:alien" },
                    format!("received {k:?}, never sent on this connection"),
                    J::o(w.clone()),
                );
                return;
            }
            Some(k) => *n.entry(k).or_insert(0) += 1,
        }
    }
    c.add("messages_verified_byte_for_byte", got.len() as i64);
    for (k, x) in n {
        let max = if k.rel == UNRELIABLE { copies.get(&k).copied().unwrap_or(0) } else { 1 };
        if x > max {
            c.violation(
                "integrity:multiplied",
                format!("{k:?} received {x} times; the network delivered {max} copies of it"),
                J::o(w),
            );
            return;
        }
    }
}

/// Copies of each Unreliable message that the network delivered.
pub fn unreliable_copies(trace: &[Tr], conn: usize, dir: u8) -> HashMap<Key, i64> {
    let mut m = HashMap::new();
    for t in trace.iter().filter(|t| t.conn == conn && t.dir == dir) {
        if let Ok((_, _, fr)) = dec_frames_lenient(&t.bytes) {
            for f in fr {
                if f.rel == UNRELIABLE {
                    if let Some(k) = Key::parse(&f.data) {
                        *m.entry(k).or_insert(0) += t.copies as i64;
                    }
                }
            }
        }
    }
    m
}
fn dec_frames_lenient(b: &[u8]) -> Result<(u8, u32, Vec<Frame>), String> {
    if b.first().map(|x| (0x80..=0x8d).contains(x)) != Some(true) {
        return Err("not frames".into());
    }
    dec_frames(b)
}

/// Fingerprint of what the network did to a run: distinct interleavings observed.
pub fn trace_key(o: &PairOut) -> Vec<u8> {
    let mut v = vec![];
    for t in &o.trace {
        v.push(t.dir);
        v.push(t.copies);
        v.push(t.bytes[0]);
        if t.bytes.len() > 3 {
            v.extend_from_slice(&t.bytes[1..4]);
        }
    }
    v
}
pub fn note_run(c: &Ctx, o: &PairOut) {
    c.case(&trace_key(o), o.trace.len() > 10);
    c.add("datagrams_observed", o.trace.len() as i64);
    c.add("datagrams_dropped", o.stats.1 as i64);
    c.add("datagrams_duplicated", o.stats.2 as i64);
    c.add("datagrams_delayed", o.stats.3 as i64);
    c.max("slowest_recovery_ms_after_heal", (o.settle_s * 1000.0) as i64);
    c.sample(J::o(vec![
        ("net", J::s(format!("{:?}", o.cfg.net))),
        ("messages", J::I(o.dirs.iter().map(|d| d[0].sent.len() + d[1].sent.len()).sum::<usize>() as i64)),
        ("datagrams", J::I(o.trace.len() as i64)),
        ("lost", J::I(o.stats.1 as i64)),
    ]));
}

/// Runs `n` pair workloads, at most `par` at once, handing each result to `f`.
pub async fn pairs(c: &C, n: u64, par: usize, rels: &[u8], f: impl Fn(&Ctx, &PairOut)) {
    let cfgs = (0..n).map(|k| pair_cfg(c.seed, k, rels)).collect();
    pairs_of(c, cfgs, par, f).await
}
pub async fn pairs_of(c: &C, cfgs: Vec<PairCfg>, par: usize, f: impl Fn(&Ctx, &PairOut)) {
    let mut set = tokio::task::JoinSet::new();
    let mut q = cfgs.into_iter();
    loop {
        while set.len() < par {
            match q.next() {
                Some(cfg) if !c.failed() => {
                    set.spawn(run_pair(cfg));
                }
                _ => break,
            }
        }
        let Some(r) = set.join_next().await else { break };
        match r {
            Ok(Ok(o)) => {
                note_run(c, &o);
                for (i, d) in o.dirs.iter().enumerate() {
                    for (j, x) in d.iter().enumerate() {
                        if let Some(e) = &x.ended {
                            let mut w = w_cfg(&o, i, j);
                            w.push(("error", J::s(e.clone())));
                            c.violation("connection:lost", format!("the connection ended by itself during the workload: recv() failed with {e}"), J::o(w));
                        }
                    }
                }
                f(c, &o);
            }
            Ok(Err(e)) => c.violation("workload:stuck", format!("the workload could not be completed: {e}"), J::o(vec![("error", J::s(e))])),
            Err(e) => c.inconclusive(format!("workload task failed: {e}")),
        }
    }
}

// ---------------------------------------------------------------- raw peer to library

#[derive(Clone, Debug)]
pub struct RawPlan {
    pub seed: u64,
    pub rels: Vec<u8>,
    pub msgs: usize,
    pub client_side: bool,
    pub v6: bool,
}
pub struct RawOut {
    pub plan: RawPlan,
    pub sent: Vec<Key>,
    pub datagrams: Vec<Vec<u8>>,
    /// what the reference receiver delivers
    pub model: Vec<(u8, Vec<u8>)>,
    /// datagram copies carrying each unreliable message
    pub copies: HashMap<Key, i64>,
    pub got: Vec<Vec<u8>>,
    pub unacked: Vec<u32>,
    pub nacks: Vec<(f64, u32, u32)>,
    pub acks: Vec<(f64, u32, u32)>,
    pub seq_sent: Vec<u32>,
}

/// A raw peer sends every message of the plan in a random legal form: random packing of frames
/// into datagrams, random order, repeats under new datagram numbers (a lost acknowledgement as the
/// sender sees it) and repeats of identical datagrams (a duplicating network).
pub async fn run_raw(plan: RawPlan) -> Result<RawOut, String> {
    within(120.0, run_raw_inner(plan)).await.unwrap_or_else(|| Err("the workload hung: some library call never returned".into()))
}
async fn run_raw_inner(plan: RawPlan) -> Result<RawOut, String> {
    let mut r = Rng::new(plan.seed);
    let mut l = listener_at(if plan.v6 { "[::1]:0" } else { "127.0.0.1:0" }).await;
    let (p, s) = if plan.client_side { raw_server(1400).await? } else { raw_client(&mut l, 10, 1400).await? };
    let app = App::new(s);
    let mut model = Model::default();
    // handshake frames already consumed
    let base = start();
    for o in 0..p.with(|s| s.oidx.wrapping_sub(base[3]) & M24) {
        let mut f = Frame::new(ORDERED, &[0]);
        f.ridx = (base[1] + o) & M24;
        f.oidx = (base[3] + o) & M24;
        model.feed(&f);
    }
    model.out.clear();
    let mut sent = vec![];
    let mut frames: Vec<Frame> = vec![];
    let mut next: HashMap<u8, u32> = HashMap::new();
    for _ in 0..plan.msgs {
        let rel = *r.pick(&plan.rels);
        let e = next.entry(rel).or_insert(0);
        let len = if rel == ORDERED && r.chance(0.35) { r.range(40, 9000) } else { r.range(HDR as u64, 600) };
        let k = Key::new(0, if plan.client_side { 1 } else { 0 }, rel, *e, len as usize);
        *e += 1;
        let b = k.bytes();
        if rel == ORDERED && len > 40 && (len > 1300 || r.chance(0.5)) {
            let least = (len as usize).div_ceil(1300).max(1);
            let n = least + r.below(5) as usize;
            frames.extend(p.split(&b, n));
        } else {
            frames.push(p.frame(rel, &b));
        }
        sent.push(k);
    }
    // local disorder within a window, or complete disorder
    let win = *r.pick(&[1usize, 3, 8, 1000]);
    let mut at = 0;
    while at < frames.len() {
        let end = (at + win).min(frames.len());
        r.shuffle(&mut frames[at..end]);
        at = end;
    }
    // repeats of reliable frames somewhere later
    let rep = *r.pick(&[0.0, 0.15, 0.5]);
    let mut i = 0;
    while i < frames.len() {
        if is_reliable(frames[i].rel) && r.chance(rep * 0.5) {
            let at = i + 1 + r.below((frames.len() - i) as u64) as usize;
            let f = frames[i].clone();
            frames.insert(at, f);
        }
        i += 1;
    }
    // pack
    let multi = r.chance(0.7);
    let mut dgs: Vec<Vec<Frame>> = vec![];
    let mut cur: Vec<Frame> = vec![];
    let mut room = 1368usize;
    for f in frames {
        let n = f.header() + f.data.len();
        if !cur.is_empty() && (n > room || !multi || r.chance(0.25)) {
            dgs.push(std::mem::take(&mut cur));
            room = 1368;
        }
        room = room.saturating_sub(n);
        cur.push(f);
    }
    if !cur.is_empty() {
        dgs.push(cur);
    }
    let mut list: Vec<(u32, Vec<Frame>)> = dgs.into_iter().map(|d| (p.next_seq(), d)).collect();
    // swap neighbouring datagrams and repeat identical ones
    if r.chance(0.5) {
        let mut i = 0;
        while i + 1 < list.len() {
            if r.chance(0.2) {
                list.swap(i, i + 1);
                i += 1;
            }
            i += 1;
        }
    }
    let dup = *r.pick(&[0.0, 0.0, 0.2]);
    let mut i = 0;
    while i < list.len() {
        if r.chance(dup) {
            let at = i + 1 + r.below((list.len() - i).min(6) as u64) as usize;
            let d = list[i].clone();
            list.insert(at, d);
        }
        i += 1;
    }
    let mut copies: HashMap<Key, i64> = HashMap::new();
    let mut datagrams = vec![];
    let mut seq_sent = vec![];
    for (n, (seq, fr)) in list.iter().enumerate() {
        for f in fr {
            model.feed(f);
            if f.rel == UNRELIABLE {
                if let Some(k) = Key::parse(&f.data) {
                    *copies.entry(k).or_insert(0) += 1;
                }
            }
        }
        let b = enc_frames(*seq, fr);
        p.raw(&b).await;
        seq_sent.push(*seq);
        datagrams.push(b);
        // never let the library's socket buffer overflow: stay within a small window
        if n % 16 == 15 {
            let s = *seq;
            if !wait_until(10.0, || p.is_acked(s)).await {
                break;
            }
        }
    }
    wait_until(10.0, || seq_sent.iter().all(|s| p.is_acked(*s))).await;
    let want = model.out.iter().filter(|m| m.0 != UNRELIABLE).count() + copies.len();
    wait_until(5.0, || app.count() >= want).await;
    lsleep(0.1).await;
    let out = RawOut {
        sent,
        datagrams,
        model: model.out,
        copies,
        got: app.got(),
        unacked: seq_sent.iter().filter(|s| !p.is_acked(**s)).cloned().collect(),
        nacks: p.with(|s| s.nacks.clone()),
        acks: p.with(|s| s.ack_events.clone()),
        seq_sent,
        plan,
    };
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
    Ok(out)
}

pub fn w_raw(o: &RawOut) -> Vec<(&'static str, J)> {
    vec![
        ("plan", J::s(format!("{:?}", o.plan))),
        ("datagrams_in_order", J::A(o.datagrams.iter().take(60).map(|d| J::s(hex(d))).collect())),
    ]
}

/// The library delivered, for reliability `rel`, what the reference receiver delivers.
pub fn oracle_model(c: &Ctx, o: &RawOut, rel: u8) {
    let want: Vec<&Vec<u8>> = o.model.iter().filter(|m| m.0 == rel).map(|m| &m.1).collect();
    let have: Vec<&Vec<u8>> = o.got.iter().filter(|m| m.get(3) == Some(&rel)).collect();
    let show = |v: &[&Vec<u8>]| {
        v.iter().map(|m| Key::parse(m).map(|k| k.idx.to_string()).unwrap_or("?".into())).collect::<Vec<_>>().join(",")
    };
    let same = match rel {
        ORDERED | UNREL_SEQ | REL_SEQ => want == have,
        RELIABLE => {
            let (mut a, mut b) = (want.clone(), have.clone());
            a.sort();
            b.sort();
            a == b
        }
        _ => o.copies.iter().all(|(k, n)| {
            let b = k.bytes();
            let x = o.got.iter().filter(|m| **m == b).count() as i64;
            x >= 1 && x <= *n
        }),
    };
    c.add("raw_peer_messages_compared_with_model", want.len() as i64);
    if !same {
        let mut w = w_raw(o);
        w.push(("expected", J::s(show(&want))));
        w.push(("received", J::s(show(&have))));
        c.violation(
            format!("model:rel{rel}"),
            format!("a peer's messages of reliability {rel} were delivered as [{}], expected [{}]", show(&have), show(&want)),
            J::o(w),
        );
    }
}

pub async fn raws(c: &C, n: u64, par: usize, rels: &[u8], f: impl Fn(&Ctx, &RawOut)) {
    let mut set = tokio::task::JoinSet::new();
    let mut k = 0;
    loop {
        while set.len() < par && k < n && !c.failed() {
            let mut r = Rng::derive(c.seed, 0xABCD, k);
            set.spawn(run_raw(RawPlan {
                seed: r.next(),
                rels: rels.to_vec(),
                msgs: 10 + r.below(40) as usize,
                client_side: k % 2 == 1,
                v6: false,
            }));
            k += 1;
        }
        let Some(r) = set.join_next().await else { break };
        match r {
            Ok(Ok(o)) => {
                c.case(&o.datagrams.concat(), o.datagrams.len() > 3);
                c.add("raw_datagrams_sent", o.datagrams.len() as i64);
                f(c, &o);
            }
            Ok(Err(e)) => c.violation("raw:connect", e.clone(), J::o(vec![("error", J::s(e))])),
            Err(e) => c.inconclusive(format!("raw workload task failed: {e}")),
        }
    }
}

pub fn all_got(o: &PairOut, rel: u8) -> usize {
    o.dirs.iter().map(|d| keys_of(&d[0], rel).len() + keys_of(&d[1], rel).len()).sum()
}
