//! C24 The proxy example: its real binary between library clients and a library server.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::HashMap;
use std::io::Read;
use std::net::SocketAddr;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// A running proxy binary; killed when dropped.
struct Bin {
    child: Child,
    addr: SocketAddr,
    err: Arc<Mutex<String>>,
}
impl Drop for Bin {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Bin {
    async fn start(remote: SocketAddr) -> Result<Bin, String> {
        let path = std::env::var("RKV_PROXY").unwrap_or_else(|_| {
            let root = std::env::var("RKV_ROOT").unwrap_or_else(|_| "/verif".into());
            format!("{root}/target/debug/proxy")
        });
        for _ in 0..5 {
            let addr = {
                let s = std::net::UdpSocket::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
                s.local_addr().unwrap()
            };
            let mut child = Command::new(&path)
                .args(["-l", &addr.to_string(), "-r", &remote.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
                .map_err(|e| format!("{path}: {e}"))?;
            let err: Arc<Mutex<String>> = Default::default();
            let (mut pipe, e2) = (child.stderr.take().unwrap(), err.clone());
            std::thread::spawn(move || {
                let mut b = [0u8; 4096];
                while let Ok(n) = pipe.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    e2.lock().unwrap().push_str(&String::from_utf8_lossy(&b[..n]));
                }
            });
            let mut bin = Bin { child, addr, err };
            for _ in 0..10 {
                if matches!(within(2.0, RaknetSocket::ping(&addr)).await, Some(Ok(_))) {
                    return Ok(bin);
                }
                if !bin.alive() {
                    break;
                }
            }
        }
        Err("the proxy did not answer a ping".into())
    }
    fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    fn panics(&self) -> Option<String> {
        let e = self.err.lock().unwrap();
        e.lines().position(|l| l.contains("panicked at")).map(|i| e.lines().skip(i).take(2).collect::<Vec<_>>().join(" "))
    }
    /// The process must be alive and must not have panicked.
    fn check(&mut self, c: &Ctx, what: &str) {
        if let Some(p) = self.panics() {
            c.violation("proxy:panic", format!("{what}: {p}"), J::s(self.err.lock().unwrap().chars().take(2000).collect::<String>()));
        } else if !self.alive() {
            c.violation("proxy:died", format!("{what}: the proxy process ended"), J::s(self.err.lock().unwrap().chars().take(2000).collect::<String>()));
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    /// both have everything, then the client closes
    Client,
    /// both have everything, then the server closes
    Server,
    /// the client closes as soon as its own messages are acknowledged
    ClientEarly,
    /// the server closes as soon as its own messages are acknowledged
    ServerEarly,
    /// the client's datagrams stop
    ClientGone,
    /// the server's datagrams stop
    ServerGone,
}

#[derive(Clone, Debug)]
struct Plan {
    up: Vec<Key>,
    down: Vec<Key>,
    end: End,
    pace_us: u64,
}
fn plan(r: &mut Rng, conn: usize, end: End) -> Plan {
    let mut mk = |dir: u8, n: u64| {
        (0..n.max(1))
            .map(|i| {
                let len = if r.chance(0.15) { 1400 + r.below(9000) } else { 15 + r.below(600) };
                Key::new(conn, dir, ORDERED, i as u32, len as usize)
            })
            .collect::<Vec<_>>()
    };
    let a = mk(0, 60);
    let b = mk(1, 60);
    let mut cut = |v: Vec<Key>| -> Vec<Key> {
        let n = 1 + r.below(v.len() as u64) as usize;
        v.into_iter().take(n).collect()
    };
    let (up, down) = (cut(a), cut(b));
    Plan { up, down, end, pace_us: *r.pick(&[0u64, 0, 300, 2000]) }
}

async fn send_all(s: &RaknetSocket, ks: &[Key], pace_us: u64) -> Result<(), String> {
    for k in ks {
        s.send(&k.bytes(), Reliability::ReliableOrdered).await.map_err(|e| format!("{e:?}"))?;
        if pace_us > 0 {
            tokio::time::sleep(Duration::from_micros(pace_us)).await;
        }
    }
    Ok(())
}

/// What the remote server saw, per client number (told by the first message).
#[derive(Default)]
struct Remote {
    conns: Mutex<HashMap<u16, Arc<App>>>,
    all: Mutex<Vec<Arc<App>>>,
    /// flushed without error, all sent
    flushed: Mutex<HashMap<u16, bool>>,
    plans: Mutex<HashMap<u16, Plan>>,
}
impl Remote {
    fn app(&self, conn: usize) -> Option<Arc<App>> {
        self.conns.lock().unwrap().get(&(conn as u16)).cloned()
    }
}
fn serve(mut l: RaknetListener, rem: Arc<Remote>) -> Task {
    spawn(async move {
        let mut tasks = vec![];
        while let Ok(s) = l.accept().await {
            let rem = rem.clone();
            tasks.push(spawn(async move {
                let app = Arc::new(App::new(s));
                rem.all.lock().unwrap().push(app.clone());
                while app.count() == 0 && app.ended().is_none() {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
                let Some(k) = app.got().first().and_then(|m| Key::parse(m)) else { return };
                rem.conns.lock().unwrap().entry(k.conn).or_insert(app.clone());
                let Some(p) = rem.plans.lock().unwrap().get(&k.conn).cloned() else { return };
                let ok = send_all(&app.s, &p.down, p.pace_us).await.is_ok();
                let ok = ok && matches!(app.s.flush().await, Ok(()));
                rem.flushed.lock().unwrap().insert(k.conn, ok);
                if p.end == End::ServerEarly && ok {
                    let _ = app.s.close().await;
                }
            }));
        }
    })
}

/// `got` must be the first messages of `sent`, all of them if `complete`.
fn relayed(c: &Ctx, dir: &str, p: &Plan, sent: &[Key], got: &[Vec<u8>], complete: bool, seed: u64) -> bool {
    let w = || J::o(vec![("plan", J::s(format!("{:?} up={} down={} pace={}us seed={seed}", p.end, p.up.len(), p.down.len(), p.pace_us)))]);
    for (i, m) in got.iter().enumerate() {
        match Key::parse(m) {
            None => {
                c.violation("proxy:changed", format!("{dir}: message {i} was changed or is not one that was sent ({} bytes)", m.len()), w());
                return false;
            }
            Some(k) if sent.get(i) != Some(&k) => {
                c.violation("proxy:order", format!("{dir}: message {i} is {k:?}, expected {:?}", sent.get(i)), w());
                return false;
            }
            _ => {}
        }
    }
    if complete && got.len() != sent.len() {
        c.violation(
            format!("proxy:lost-{:?}", p.end),
            format!("{dir}: {} of {} acknowledged messages were forwarded", got.len(), sent.len()),
            w(),
        );
        return false;
    }
    true
}

async fn client(c: C, front: Arc<Proxy>, rem: Arc<Remote>, conn: usize, p: Plan, far: Arc<Proxy>, seed: u64) {
    let sig = |x: &str| format!("proxy:{x}");
    let w = J::s(format!("client {conn} {:?} seed={seed}", p.end));
    rem.plans.lock().unwrap().insert(conn as u16, p.clone());
    let s = match within(60.0, RaknetSocket::connect(&front.addr)).await {
        Some(Ok(s)) => s,
        x => {
            c.violation(sig("connect"), format!("a client could not connect through the proxy: {:?}", x.map(|r| r.map(|_| ()))), w);
            return;
        }
    };
    let app = App::new(s);
    let up_ok = {
        let x = within(60.0, send_all(&app.s, &p.up, p.pace_us)).await;
        let y = within(60.0, app.s.flush()).await;
        matches!(x, Some(Ok(()))) && matches!(y, Some(Ok(())))
    };
    let early = matches!(p.end, End::ClientEarly | End::ServerEarly);
    if !up_ok && p.end != End::ServerEarly {
        c.violation(sig("stalled"), format!("client {conn} could not send: ended {:?}", app.ended()), w.clone());
        return;
    }
    if p.end == End::ClientEarly {
        let _ = app.s.close().await;
    }
    if !early {
        let got_all = wait_until(40.0, || app.count() >= p.down.len() && rem.app(conn).map_or(false, |a| a.count() >= p.up.len())).await;
        if !got_all {
            let (a, b) = (rem.app(conn).map_or(0, |a| a.count()), app.count());
            c.violation(
                sig("stalled"),
                format!(
                    "client {conn}: the server has {a} of {} and the client {b} of {} messages after 40 s (ended {:?}, {:?})",
                    p.up.len(),
                    p.down.len(),
                    app.ended(),
                    rem.app(conn).map(|a| a.ended())
                ),
                w.clone(),
            );
            return;
        }
        if app.ended().is_some() || rem.app(conn).map_or(false, |a| a.ended().is_some()) {
            c.violation(sig("ended"), format!("client {conn}: a relayed connection ended by itself"), w.clone());
            return;
        }
    }
    let mut limit = 20.0;
    match p.end {
        End::Client => {
            let _ = app.s.close().await;
        }
        End::Server => {
            let _ = rem.app(conn).unwrap().s.close().await;
        }
        End::ClientGone => {
            let n = NetCfg { drop: 1.0, ..NetCfg::default() };
            front.set(n);
            limit = 150.0;
        }
        End::ServerGone => {
            let n = NetCfg { drop: 1.0, ..NetCfg::default() };
            far.set(n);
            limit = 150.0;
        }
        _ => {}
    }
    // the other side of the relay must end too
    let client_must = matches!(p.end, End::Server | End::ServerEarly | End::ServerGone);
    let server_must = matches!(p.end, End::Client | End::ClientEarly | End::ClientGone);
    let other = || if client_must { app.ended().is_some() } else { rem.app(conn).map_or(false, |a| a.ended().is_some()) };
    if !wait_until(limit, other).await {
        let known = rem.app(conn).is_some();
        if !known && p.end == End::ClientEarly {
            // nothing of it ever came to the server, not even the message that tells who it is
            relayed(&c, "client to server", &p, &p.up, &[], true, seed);
            return;
        }
        c.violation(
            format!("proxy:left-open-{:?}", p.end),
            format!("client {conn}: {:?}, and the other side was not ended in {limit} s (known to the server: {known})", p.end),
            w.clone(),
        );
        return;
    }
    let got = app.got();
    let sgot = rem.app(conn).map(|a| a.got()).unwrap_or_default();
    let flushed = rem.flushed.lock().unwrap().get(&(conn as u16)).copied().unwrap_or(false);
    let up_complete = !matches!(p.end, End::ServerEarly);
    let down_complete = !early || (p.end == End::ServerEarly && flushed);
    let _ = server_must;
    let a = relayed(&c, "client to server", &p, &p.up, &sgot, up_complete, seed);
    let b = relayed(&c, "server to client", &p, &p.down, &got, down_complete, seed);
    c.case(format!("{conn} {:?} {} {} {seed}", p.end, sgot.len(), got.len()).as_bytes(), true);
    if a && b {
        c.add("messages_relayed_and_checked", (got.len() + sgot.len()) as i64);
        c.add(&format!("relays_ended_{:?}", p.end), 1);
    }
}

/// Several clients at once through one proxy process.
async fn round(c: C, k: u64, gone: bool) {
    let mut r = Rng::derive(c.seed, 0x24, k);
    let rem: Arc<Remote> = Default::default();
    let l = listener().await;
    let to = l.local_addr().unwrap();
    let _srv = serve(l, rem.clone());
    let net = |r: &mut Rng, lossy: bool| {
        if lossy {
            NetCfg { drop: 0.02 + 0.1 * (r.below(100) as f64 / 100.0), dup: 0.05, delay: 0.3, max_delay_ms: 60, base_ms: r.below(15), ..NetCfg::default() }
        } else {
            NetCfg::clean()
        }
    };
    let lossy = k % 3 != 0;
    let far = Arc::new(Proxy::new(to, net(&mut r, lossy), r.next()).await);
    let mut bin = match Bin::start(far.addr).await {
        Ok(b) => b,
        Err(e) => {
            c.violation("proxy:start", e.clone(), J::s(e));
            return;
        }
    };
    let ends = if gone {
        vec![*r.pick(&[End::ClientGone, End::ServerGone])]
    } else {
        let n = 4 + r.below(8);
        (0..n).map(|i| [End::Client, End::Server, End::ClientEarly, End::ServerEarly][(i % 4) as usize]).collect()
    };
    let mut set = tokio::task::JoinSet::new();
    let mut keep = vec![];
    for (i, e) in ends.iter().enumerate() {
        let front = Arc::new(Proxy::new(bin.addr, net(&mut r, lossy && !gone), r.next()).await);
        keep.push(front.clone());
        let p = plan(&mut r, i, *e);
        set.spawn(client(c.clone(), front, rem.clone(), i, p, far.clone(), c.seed * 1000 + k));
        if r.chance(0.4) {
            tokio::time::sleep(Duration::from_millis(r.below(60))).await;
        }
    }
    while set.join_next().await.is_some() {}
    far.clean();
    bin.check(&c, "after a round");
    if c.failed() {
        return;
    }
    // one connection at the server per client, and the proxy still serves
    let n = rem.all.lock().unwrap().len();
    if n > ends.len() {
        c.violation("proxy:extra", format!("{n} connections to the server for {} clients", ends.len()), J::I(k as i64));
    }
    let front = Arc::new(Proxy::new(bin.addr, NetCfg::clean(), 1).await);
    let p = plan(&mut r, 500, End::Client);
    client(c.clone(), front, rem, 500, p, far.clone(), c.seed * 1000 + k).await;
    bin.check(&c, "after a round");
    c.add("proxy_processes", 1);
}

/// The remote server is not there, does not answer, refuses, hangs up, goes away and comes back.
async fn absent(c: C, kind: u64) {
    let names = ["nothing listens", "never answers", "refuses the version", "hangs up at once", "closes and comes back", "no free place"];
    let name = names[kind as usize % 6];
    let w = J::s(name);
    let kind = kind % 6;
    let mut held: Option<Peer> = None;
    let mut l: Option<RaknetListener> = None;
    let rem: Arc<Remote> = Default::default();
    let remote: SocketAddr = match kind {
        // below the range ports are given out from, so that nobody else gets it
        0 => (20_000 + c.seed % 1000 * 7..32_000)
            .find_map(|p| std::net::UdpSocket::bind(format!("127.0.0.1:{p}")).ok())
            .and_then(|s| s.local_addr().ok())
            .expect("a free port"),
        3 | 4 => {
            let x = listener().await;
            let a = x.local_addr().unwrap();
            l = Some(x);
            a
        }
        _ => {
            let p = Peer::new(Role::Mute).await;
            let a = p.addr;
            held = Some(p);
            a
        }
    };
    let mut bin = match Bin::start(remote).await {
        Ok(b) => b,
        Err(e) => {
            c.violation("proxy:start", e.clone(), J::s(e));
            return;
        }
    };
    let mut refuse = None;
    if kind == 2 || kind == 5 {
        // the harness answers the request itself
        let p = held.take().unwrap();
        let sock = p.sock.clone();
        refuse = Some(spawn(async move {
            let mut seen = 0;
            loop {
                let n = p.with(|s| s.log.len());
                if n > seen {
                    let froms: Vec<SocketAddr> = p.with(|s| s.log[seen..].iter().map(|x| x.from).collect());
                    seen = n;
                    for f in froms {
                        let d = if kind == 2 { enc_incompatible(3, 7) } else { enc_already(0x14, 7) };
                        let _ = sock.send_to(&d, f).await;
                    }
                }
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
        }));
    }
    let mut hang = None;
    if kind == 3 {
        let mut x = l.take().unwrap();
        hang = Some(spawn(async move {
            while let Ok(s) = x.accept().await {
                let _ = s.close().await;
            }
        }));
    }
    let mut srv = None;
    if kind == 4 {
        srv = l.take();
    }
    // clients are accepted by the proxy, and must be ended
    let mut apps = vec![];
    for i in 0..3usize {
        match within(30.0, RaknetSocket::connect(&bin.addr)).await {
            Some(Ok(s)) => {
                let _ = s.send(&Key::new(i, 0, ORDERED, 0, 40).bytes(), Reliability::ReliableOrdered).await;
                apps.push(App::new(s));
            }
            // ended before it was used
            Some(Err(rust_raknet::error::RaknetError::ConnectionClosed)) if kind == 2 || kind == 3 || kind == 5 => {}
            x => {
                c.violation("proxy:connect", format!("{name}: the proxy does not accept clients: {:?}", x.map(|r| r.map(|_| ()))), w.clone());
                return;
            }
        }
    }
    if let Some(mut x) = srv.take() {
        let mut socks = vec![];
        for _ in 0..3 {
            if let Some(Ok(s)) = within(20.0, x.accept()).await {
                socks.push(App::new(s));
            }
        }
        if !wait_until(20.0, || socks.len() == 3 && socks.iter().all(|a| a.count() == 1)).await {
            c.violation("proxy:stalled", format!("{name}: the first messages did not reach the server"), w.clone());
            return;
        }
        for a in &socks {
            let _ = a.s.close().await;
        }
        drop(socks);
        let _ = within(20.0, x.close()).await;
        drop(x);
    }
    if !wait_until(120.0, || apps.iter().all(|a| a.ended().is_some())).await {
        c.violation(
            "proxy:left-open-absent",
            format!("{name}: {} clients are still connected after 120 s", apps.iter().filter(|a| a.ended().is_none()).count()),
            w.clone(),
        );
        return;
    }
    if apps.iter().any(|a| a.count() > 0) {
        c.violation("proxy:invented", format!("{name}: a client received messages"), w.clone());
    }
    bin.check(&c, name);
    drop(hang);
    drop(refuse);
    drop(held);
    c.case(name.as_bytes(), true);
    // then the server appears
    let mut back = None;
    for _ in 0..400 {
        if let Ok(x) = RaknetListener::bind(&remote).await {
            back = Some(x);
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    let Some(mut x) = back else {
        c.add("remote_address_not_free_again", 1);
        return;
    };
    x.listen().await;
    let _srv = serve(x, rem.clone());
    let front = Arc::new(Proxy::new(bin.addr, NetCfg::clean(), 1).await);
    let mut r = Rng::derive(c.seed, 0x2424, kind);
    let p = plan(&mut r, 600, End::Client);
    client(c.clone(), front.clone(), rem, 600, p, front, kind).await;
    bin.check(&c, name);
    c.add("remote_absent_scenarios", 1);
}

pub async fn run(c: C) {
    c.rule("one case = one client relayed by the real proxy binary (or one scenario of an absent server); distinct by end, messages relayed and seed");
    let mut set = tokio::task::JoinSet::new();
    for k in 0..6 {
        set.spawn(absent(c.clone(), k));
    }
    if c.thorough {
        for k in 0..6 {
            set.spawn(round(c.clone(), 1000 + k, true));
        }
    }
    let n = c.q(12, 120);
    let mut running = 0;
    let mut k = 0;
    let mut rounds = tokio::task::JoinSet::new();
    while k < n || running > 0 {
        while running < 3 && k < n && !c.failed() {
            rounds.spawn(round(c.clone(), k, false));
            k += 1;
            running += 1;
        }
        if rounds.join_next().await.is_none() {
            break;
        }
        running -= 1;
        if c.failed() {
            break;
        }
    }
    if c.failed() {
        return;
    }
    while set.join_next().await.is_some() {}
}
