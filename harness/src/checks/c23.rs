//! C23 Reconnecting and repeated connection requests.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;

/// Accepts everything and keeps the connections, so that a spurious one is seen.
struct Accepts {
    list: Arc<Mutex<Vec<Option<App>>>>,
    l: Arc<tokio::sync::Mutex<RaknetListener>>,
    _t: Task,
}
impl Accepts {
    fn start(l: RaknetListener) -> Accepts {
        let l = Arc::new(tokio::sync::Mutex::new(l));
        let list: Arc<Mutex<Vec<Option<App>>>> = Default::default();
        let (l2, s2) = (l.clone(), list.clone());
        let t = spawn(async move {
            loop {
                // released regularly so that the listener can be asked and closed
                let a = tokio::time::timeout(Duration::from_millis(20), async { l2.lock().await.accept().await }).await;
                match a {
                    Ok(Ok(s)) => s2.lock().unwrap().push(Some(App::new(s))),
                    Ok(Err(_)) => return,
                    Err(_) => tokio::time::sleep(Duration::from_millis(1)).await,
                }
            }
        });
        Accepts { list, l, _t: t }
    }
    fn n(&self) -> usize {
        self.list.lock().unwrap().len()
    }
    fn sock(&self, i: usize) -> Option<Arc<RaknetSocket>> {
        self.list.lock().unwrap().get(i)?.as_ref().map(|a| a.s.clone())
    }
    fn has(&self, i: usize, m: &[u8]) -> bool {
        self.list.lock().unwrap().get(i).and_then(|a| a.as_ref().map(|a| a.has(m))).unwrap_or(false)
    }
    fn got(&self, i: usize) -> Vec<Vec<u8>> {
        self.list.lock().unwrap().get(i).and_then(|a| a.as_ref().map(|a| a.got())).unwrap_or_default()
    }
    fn ended(&self, i: usize) -> Option<String> {
        self.list.lock().unwrap().get(i)?.as_ref()?.ended().map(|e| e.1)
    }
    fn take(&self, i: usize) -> Option<App> {
        self.list.lock().unwrap().get_mut(i)?.take()
    }
    async fn version(&self, a: &SocketAddr) -> u8 {
        self.l.lock().await.get_peer_raknet_version(a).await.unwrap_or(0)
    }
    async fn close(self) {
        let mut l = self.l.lock().await;
        let _ = within(15.0, l.close()).await;
    }
}

/// Messages both ways on accepted connection `i`.
async fn works(a: &Accepts, i: usize, p: &Peer, tag: u32) -> Result<(), String> {
    let up = Key::new(1, 0, ORDERED, tag, 300).bytes();
    let down = Key::new(1, 1, ORDERED, tag, 300).bytes();
    if !p.msg(ORDERED, &up).await {
        return Err(format!("a message up was not acknowledged (connection {i}, ended {:?})", a.ended(i)));
    }
    if !wait_until(6.0, || a.has(i, &up)).await {
        return Err(format!("a message up was not delivered on connection {i} (ended {:?})", a.ended(i)));
    }
    let Some(s) = a.sock(i) else { return Err("no connection".into()) };
    match within(6.0, s.send(&down, Reliability::ReliableOrdered)).await {
        Some(Ok(())) => {}
        x => return Err(format!("send() down: {x:?}")),
    }
    if !wait_until(6.0, || p.user().iter().any(|m| m.1 == down)).await {
        return Err("a message down did not arrive".into());
    }
    if let Some(e) = a.ended(i) {
        return Err(format!("the connection ended: {e}"));
    }
    Ok(())
}

/// Requests of all kinds from the address of a live connection, at a random point of its life.
async fn disturb(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x23D, k);
    let l = listener().await;
    let to = l.local_addr().unwrap();
    let a = Accepts::start(l);
    let p = Peer::new(Role::Client).await;
    let ver = *r.pick(&[10u8, 11]);
    let mtu = *r.pick(&[1400u16, 1000, 576]);
    p.with(|s| {
        s.mtu = mtu;
        s.to = Some(to);
    });
    let w0 = vec![("version", J::I(ver as i64)), ("mtu", J::I(mtu as i64))];
    if let Err(e) = p.open(to, ver, mtu).await {
        c.violation("reconnect:connect", e.clone(), J::s(e));
        return;
    }
    let guid = p.with(|s| s.guid);
    let early = k % 3 == 0;
    if !early && p.login().await.is_err() {
        c.violation("reconnect:connect", "login failed", J::s("disturb"));
        return;
    }
    // others are connected as well
    let mut others = vec![];
    for _ in 0..r.below(6) {
        let q = Peer::new(Role::Client).await;
        if let Err(e) = q.connect(to, 10, 1400).await {
            c.violation("reconnect:connect", e.clone(), J::s(e));
            return;
        }
        others.push(q);
    }
    let mut steps = vec![];
    let mut tag = 0;
    for step in 0..8 {
        if early && step == 4 {
            if let Err(e) = p.login().await {
                c.violation("reconnect:disturbed-login", format!("the handshake of a connection failed after further requests: {e}"), J::s(steps.join("; ")));
                return;
            }
        }
        let kind = r.below(6);
        let (r1, r2, al, inc) = p.with(|s| (s.reply1.len(), s.reply2.len(), s.already, s.incompatible));
        let n = 1 + r.below(3);
        let (name, d, want): (&str, Vec<u8>, u8) = match kind {
            0 => ("OpenConnectionRequest2 of another client", enc_req2(to, 1200, guid ^ r.range(1, 1 << 40)), 1),
            1 => ("the same OpenConnectionRequest2 again", enc_req2(to, mtu, guid), 2),
            2 => ("OpenConnectionRequest1, other version", enc_req1(21 - ver, 1372), 3),
            3 => ("OpenConnectionRequest1, unsupported version", enc_req1(77, 1372), 4),
            4 => ("OpenConnectionRequest2 of another client with a tiny MTU", enc_req2(to, 60, guid ^ 0x55), 1),
            _ => ("the same client with another MTU", enc_req2(to, 700, guid), 2),
        };
        steps.push(name.to_string());
        let w = || {
            let mut w = w0.clone();
            w.push(("requests", J::s(steps.join("; "))));
            J::o(w)
        };
        for _ in 0..n {
            p.raw(&d).await;
        }
        let answered = wait_until(3.0, || {
            p.with(|s| match want {
                1 => s.already > al,
                2 => s.reply2.len() > r2 || s.already > al,
                3 => s.reply1.len() > r1,
                _ => s.incompatible > inc,
            })
        })
        .await;
        if !answered && want != 3 {
            c.violation("reconnect:unanswered", format!("{name} on a live connection was not answered"), w());
        }
        if want == 1 && p.with(|s| s.reply2.len()) > r2 {
            c.violation("reconnect:second-connection", format!("{name} from the address of a live connection was accepted"), w());
        }
        if want == 2 {
            if let Some(m) = p.with(|s| s.reply2.get(r2).map(|x| x.2)) {
                if m != mtu {
                    c.violation("reconnect:mtu-changed", format!("{name}: the connection's MTU {mtu} is now stated as {m}"), w());
                }
            }
        }
        if !early || step >= 4 {
            tag += 1;
            if let Err(e) = works(&a, 0, &p, tag).await {
                c.violation("reconnect:disturbed", format!("after {name} the live connection no longer works: {e}"), w());
                return;
            }
            if a.version(&p.addr).await != ver || a.sock(0).map(|s| s.raknet_version().unwrap()) != Some(ver) {
                c.violation("reconnect:version", format!("after {name} the live connection's version changed"), w());
            }
            // a message too long for the connection's MTU and not for others'
            if let Some(s) = a.sock(0) {
                let big = vec![0xfe; mtu as usize - 59];
                if within(5.0, s.send(&big, Reliability::Reliable)).await.map(|r| r.is_ok()) != Some(false) {
                    c.violation("reconnect:mtu-changed", format!("after {name} the live connection's MTU changed"), w());
                }
            }
        }
    }
    lsleep(0.2).await;
    if a.n() != 1 + others.len() {
        c.violation("reconnect:second-connection", format!("accept() returned {} connections for {} live ones", a.n(), 1 + others.len()), J::s(steps.join("; ")));
    }
    c.case(format!("disturb {} {ver} {mtu}", steps.join(";")).as_bytes(), true);
    c.add("requests_on_live_connections", steps.len() as i64);
    a.close().await;
}

/// One address connects, the connection ends in one of several ways, it connects again.
async fn cycles(c: C, k: u64, n: usize) {
    let mut r = Rng::derive(c.seed, 0x23E, k);
    let l = listener().await;
    let to = l.local_addr().unwrap();
    let a = Accepts::start(l);
    let p = Peer::new(Role::Client).await;
    let mut hist: Vec<String> = vec![];
    let mut kept: Vec<App> = vec![];
    for i in 0..n {
        let ver = *r.pick(&[10u8, 11]);
        // a new guid, or the same one
        if r.chance(0.6) {
            let g = r.next();
            p.with(|s| s.guid = g);
        }
        let mtu = *r.pick(&[1400u16, 1200, 500]);
        let w = |hist: &[String]| J::o(vec![("history", J::s(hist.join("; "))), ("cycle", J::I(i as i64))]);
        let t0 = ticks();
        // a client asks again until the ended connection is gone
        let mut ok = false;
        let mut last = String::new();
        while (ticks() - t0) < 800 {
            p.reset();
            let x = async {
                p.raw(&enc_req1(ver, mtu as usize - 28)).await;
                if !wait_until(0.5, || p.with(|s| !s.reply1.is_empty())).await {
                    return Err("no OpenConnectionReply1".to_string());
                }
                let g = p.with(|s| s.guid);
                p.raw(&enc_req2(to, mtu, g)).await;
                if !wait_until(0.12, || p.with(|s| !s.reply2.is_empty() || s.already > 0)).await {
                    return Err("no OpenConnectionReply2".into());
                }
                if p.with(|s| s.reply2.is_empty()) {
                    return Err("AlreadyConnected".into());
                }
                Ok(())
            };
            p.with(|s| {
                s.to = Some(to);
                s.mtu = mtu;
                s.role = Role::Client;
            });
            match x.await {
                Ok(()) => {
                    ok = true;
                    break;
                }
                Err(e) => last = e,
            }
            lsleep(0.01 + r.below(60) as f64 / 1000.0).await;
        }
        let took = (ticks() - t0) as i64 * 10;
        if !ok {
            c.violation("reconnect:refused", format!("8 s after its connection ended the same address still cannot connect: {last}"), w(&hist));
            return;
        }
        c.max("slowest_reconnect_ms", took);
        // the reply of the new connection is the first datagram of it: forget the old stream
        p.reset();
        hist.push(format!("connect v{ver} mtu {mtu} after {took} ms"));
        if let Err(e) = p.login().await {
            c.violation("reconnect:login", format!("the handshake of a new connection from a used address failed: {e}"), w(&hist));
            return;
        }
        if !wait_until(4.0, || a.n() == i + 1).await {
            c.violation("reconnect:accepts", format!("{} connections established, {} accepted", i + 1, a.n()), w(&hist));
            return;
        }
        for m in 0..(1 + r.below(3)) as u32 {
            if let Err(e) = works(&a, i, &p, (i * 10) as u32 + m).await {
                c.violation("reconnect:broken", format!("a new connection from a used address does not work: {e}"), w(&hist));
                return;
            }
        }
        if a.sock(i).map(|s| s.raknet_version().unwrap()) != Some(ver) || a.version(&p.addr).await != ver {
            c.violation("reconnect:version", format!("the new connection reports another version than {ver}"), w(&hist));
        }
        // outlives everything that is left of the old connection
        if r.chance(0.5) {
            lsleep(0.35).await;
            drop(kept.pop());
            lsleep(0.1).await;
            if let Err(e) = works(&a, i, &p, (i * 10) as u32 + 7).await {
                c.violation("reconnect:killed", format!("the end of the old connection broke the new one: {e}"), w(&hist));
                return;
            }
        }
        // nothing of an older connection
        let g = a.got(i);
        if let Some(k) = g.iter().filter_map(|m| Key::parse(m)).find(|k| k.idx / 10 != i as u32) {
            c.violation("reconnect:leak", format!("a fresh connection delivered {k:?} of an older one"), w(&hist));
        }
        if r.chance(0.3) {
            // unacknowledged data of both sides when it ends
            if let Some(s) = a.sock(i) {
                p.with(|s| s.auto_ack = false);
                let _ = s.send(&Key::new(1, 1, RELIABLE, (i * 10) as u32 + 8, 100).bytes(), Reliability::Reliable).await;
                let f = p.frame(ORDERED, &Key::new(1, 0, ORDERED, (i * 10) as u32 + 9, 60).bytes());
                let mut late = f.clone();
                late.oidx += 2;
                late.ridx += 2;
                p.send(&[late]).await;
                hist.push("(data outstanding)".into());
            }
        }
        // the end
        let how = r.below(6);
        let name = ["Disconnect datagram", "Disconnect message", "close()", "drop", "both sides at once", "Disconnect datagram, handle kept"][how as usize];
        hist.push(name.into());
        match how {
            0 | 5 => p.raw(&[0x15]).await,
            1 => {
                let f = p.frame(RELIABLE, &[0x15]);
                p.send(&[f]).await;
            }
            2 => {
                if let Some(s) = a.sock(i) {
                    let _ = within(5.0, s.close()).await;
                }
            }
            3 => {
                let app = a.take(i).unwrap();
                drop(app.into_inner().await);
            }
            _ => {
                if let Some(s) = a.sock(i) {
                    let (_, _) = tokio::join!(within(5.0, s.close()), p.raw(&[0x15]));
                }
            }
        }
        p.with(|s| s.auto_ack = true);
        if r.chance(0.4) {
            lsleep(r.below(150) as f64 / 1000.0).await;
        }
        if how != 3 && r.chance(0.7) {
            // the application keeps the ended connection for a while
            if let Some(x) = a.take(i) {
                kept.push(x);
            }
        }
        c.add("reconnect_cycles", 1);
    }
    lsleep(0.2).await;
    if a.n() != n {
        c.violation("reconnect:accepts", format!("{n} connections were established, {} accepted", a.n()), J::s(hist.join("; ")));
    }
    for (i, x) in kept.iter().enumerate() {
        if !wait_until(4.0, || x.ended().is_some()).await {
            c.violation("reconnect:old-alive", format!("recv() on an ended connection never failed (kept {i})"), J::s(hist.join("; ")));
        }
    }
    c.case(hist.join(";").as_bytes(), true);
    c.sample(J::s(hist.iter().take(8).cloned().collect::<Vec<_>>().join("; ")));
    a.close().await;
}

/// Library clients one after another behind one address.
async fn behind_nat(c: C, k: u64, n: usize) {
    let mut r = Rng::derive(c.seed, 0x23F, k);
    let l = listener().await;
    let to = l.local_addr().unwrap();
    let a = Accepts::start(l);
    let front = Arc::new(UdpSocket::bind("127.0.0.1:0").await.unwrap());
    let up = Arc::new(UdpSocket::bind("127.0.0.1:0").await.unwrap());
    let at = front.local_addr().unwrap();
    // the newest client owns the address; datagrams of older ones no longer pass
    let cur: Arc<Mutex<(Option<SocketAddr>, Vec<SocketAddr>)>> = Default::default();
    let (f2, u2, c2) = (front.clone(), up.clone(), cur.clone());
    let _t1 = spawn(async move {
        let mut b = vec![0; 4096];
        loop {
            if let Ok((n, from)) = f2.recv_from(&mut b).await {
                {
                    let mut s = c2.lock().unwrap();
                    if !s.1.contains(&from) {
                        s.1.push(from);
                        s.0 = Some(from);
                    }
                    if s.0 != Some(from) {
                        continue;
                    }
                }
                let _ = u2.send_to(&b[..n], to).await;
            }
        }
    });
    let (f3, u3, c3) = (front.clone(), up.clone(), cur.clone());
    let _t2 = spawn(async move {
        let mut b = vec![0; 4096];
        loop {
            if let Ok((n, _)) = u3.recv_from(&mut b).await {
                let to = c3.lock().unwrap().0;
                if let Some(to) = to {
                    let _ = f3.send_to(&b[..n], to).await;
                }
            }
        }
    });
    let mut hist = vec![];
    let mut est = 0;
    for i in 0..n {
        let t0 = ticks();
        let mut cl = None;
        let mut last = String::new();
        while ticks() - t0 < 1500 {
            match within(8.0, RaknetSocket::connect(&at)).await {
                Some(Ok(s)) => {
                    cl = Some(s);
                    break;
                }
                x => last = format!("{:?}", x.map(|r| r.err())),
            }
            lsleep(0.05).await;
        }
        let Some(cl) = cl else {
            c.violation("reconnect:refused", format!("15 s after the previous connection ended a library client behind the same address cannot connect: {last}"), J::s(hist.join("; ")));
            return;
        };
        hist.push(format!("connected after {} ms", (ticks() - t0) * 10));
        let app = App::new(cl);
        // a refused or abandoned attempt of this client may have been accepted as well
        wait_until(3.0, || a.n() > est).await;
        let m = Key::new(2, 0, ORDERED, i as u32, 2000).bytes();
        let _ = within(5.0, app.s.send(&m, Reliability::ReliableOrdered)).await;
        if !wait_until(6.0, || (0..a.n()).any(|j| a.has(j, &m))).await {
            c.violation("reconnect:broken", "a message of a library client behind a used address was not delivered", J::s(hist.join("; ")));
            return;
        }
        let j = (0..a.n()).find(|j| a.has(*j, &m)).unwrap();
        est = a.n();
        lsleep(r.below(300) as f64 / 1000.0).await;
        let d = Key::new(2, 1, ORDERED, i as u32, 2000).bytes();
        let s = a.sock(j).unwrap();
        let okk = within(5.0, s.send(&d, Reliability::ReliableOrdered)).await.map(|r| r.is_ok());
        if okk != Some(true) || !app.expect(&d, 6.0).await || app.ended().is_some() {
            c.violation("reconnect:killed", format!("a library client behind a used address: send down {okk:?}, its end {:?}", app.ended()), J::s(hist.join("; ")));
            return;
        }
        match r.below(3) {
            0 => {
                hist.push("client closes".into());
                let _ = within(5.0, app.s.close()).await;
            }
            1 => {
                hist.push("client dropped".into());
                drop(app.into_inner().await);
            }
            _ => {
                hist.push("server closes".into());
                let _ = within(5.0, s.close()).await;
            }
        }
        // its goodbye must get out before the next client takes the address
        if !wait_until(5.0, || a.ended(j).is_some()).await {
            c.violation("reconnect:old-alive", "the ended connection's recv() did not fail", J::s(hist.join("; ")));
            return;
        }
        c.add("library_reconnects_from_one_address", 1);
    }
    c.case(format!("nat {}", hist.join(";")).as_bytes(), true);
    a.close().await;
}

/// Live connections on which nothing has happened for a while, then further requests.
async fn idle(c: C, secs: f64) {
    let mut r = Rng::derive(c.seed, 0x240, secs as u64);
    let l = listener().await;
    let to = l.local_addr().unwrap();
    let a = Accepts::start(l);
    let mut peers = vec![];
    for i in 0..7 {
        let p = Peer::new(Role::Client).await;
        if p.connect(to, 10, 1400).await.is_err() || !wait_until(4.0, || a.n() == i + 1).await || works(&a, i, &p, 1).await.is_err() {
            c.violation("reconnect:connect", "no connection", J::s("idle"));
            return;
        }
        peers.push(p);
    }
    lsleep(secs).await;
    let t0 = ticks();
    for (i, p) in peers.iter().enumerate() {
        let (guid, al, r2) = p.with(|s| (s.guid, s.already, s.reply2.len()));
        let other = guid ^ r.range(1, 1 << 40);
        let (name, ds, refused): (&str, Vec<Vec<u8>>, bool) = match i {
            0 => ("no request", vec![], false),
            1 => ("OpenConnectionRequest2 of another client", vec![enc_req2(to, 1200, other)], true),
            2 => ("the same OpenConnectionRequest2 again", vec![enc_req2(to, 1400, guid)], false),
            3 => ("OpenConnectionRequest1, other version", vec![enc_req1(11, 1372)], false),
            4 => ("both requests of another client", vec![enc_req1(10, 1372), enc_req2(to, 1400, other)], true),
            5 => ("a ping", vec![enc_ping(1, 5, 6)], false),
            _ => ("OpenConnectionRequest2 of another client, four times", vec![enc_req2(to, 900, other); 4], true),
        };
        for d in &ds {
            p.raw(d).await;
        }
        let w = || J::o(vec![("request", J::s(name)), ("silent_s", J::F(secs))]);
        if refused && !wait_until(3.0, || p.with(|s| s.already > al)).await {
            c.violation("reconnect:unanswered", format!("{name} on a live connection silent for {secs} s was not refused"), w());
        }
        if i != 2 && p.with(|s| s.reply2.len()) > r2 {
            c.violation("reconnect:second-connection", format!("{name} from the address of a live connection silent for {secs} s was accepted"), w());
        }
        if let Err(e) = works(&a, i, p, 2).await {
            if (ticks() - t0) as f64 / 100.0 + secs < 58.0 {
                c.violation("reconnect:disturbed", format!("after {secs} s of silence and {name} the live connection no longer works: {e}"), w());
            }
            return;
        }
    }
    if a.n() != peers.len() {
        c.violation("reconnect:second-connection", format!("accept() returned {} connections for {} live ones", a.n(), peers.len()), J::s("idle"));
    }
    c.case(format!("idle {secs}").as_bytes(), true);
    c.add("requests_on_silent_connections", peers.len() as i64);
    a.close().await;
}

/// The address of a connection that fell silent is usable again after the receive timeout.
async fn after_timeout(c: C) {
    let l = listener().await;
    let to = l.local_addr().unwrap();
    let a = Accepts::start(l);
    let p = Peer::new(Role::Client).await;
    if p.connect(to, 10, 1400).await.is_err() || works(&a, 0, &p, 1).await.is_err() {
        c.violation("reconnect:connect", "no connection", J::s("after_timeout"));
        return;
    }
    p.with(|s| s.auto_ack = false);
    if !wait_until(75.0, || a.ended(0).is_some()).await {
        c.violation("reconnect:timeout", "a silent connection was not ended", J::s("after_timeout"));
        return;
    }
    lsleep(1.5).await;
    p.with(|s| {
        s.guid ^= 0xff;
        s.auto_ack = true;
    });
    p.reset();
    let x = p.open(to, 11, 1400).await;
    p.reset();
    if x.is_err() || p.login().await.is_err() || !wait_until(4.0, || a.n() == 2).await {
        c.violation("reconnect:refused", format!("no new connection from an address whose connection timed out: {x:?}"), J::s("after_timeout"));
        return;
    }
    if let Err(e) = works(&a, 1, &p, 5).await {
        c.violation("reconnect:broken", format!("after a timeout the new connection does not work: {e}"), J::s("after_timeout"));
    }
    c.case(b"after_timeout", true);
    a.close().await;
}

pub async fn run(c: C) {
    c.rule("one case = one history of requests, ends and reconnects from one address; distinct by that history");
    set_chaos(0.01, 500);
    let mut set = tokio::task::JoinSet::new();
    set.spawn(after_timeout(c.clone()));
    for secs in [8.0, 13.0, 21.0, 34.0, 50.0] {
        set.spawn(idle(c.clone(), secs));
    }
    for k in 0..c.q(24, 300) {
        set.spawn(disturb(c.clone(), k));
        set.spawn(cycles(c.clone(), k, c.q(12, 30) as usize));
        if k % 3 == 0 {
            set.spawn(behind_nat(c.clone(), k, 6));
        }
        while set.len() >= 30 {
            set.join_next().await;
            if c.failed() {
                return;
            }
        }
    }
    while set.join_next().await.is_some() {}
}
