//! C13 Connections do not leak into each other; foreign sources have no effect.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;

/// Many connections of one listener exchange distinct messages at once; some end meanwhile.
async fn crowd(c: C, n: usize, seed: u64, net: NetCfg) {
    let mut r = Rng::new(seed);
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), seed).await;
    let mut apps: Vec<[App; 2]> = vec![];
    for _ in 0..n {
        match lib_pair(Some(&px), &mut l).await {
            Ok((a, b)) => apps.push([App::new(a), App::new(b)]),
            Err(e) => return c.violation("leak:setup", e, J::I(seed as i64)),
        }
    }
    px.set(net.clone());
    let victims: Vec<bool> = (0..n).map(|_| r.chance(0.3)).collect();
    let how: Vec<u64> = (0..n).map(|_| r.below(4)).collect();
    let mut jobs = tokio::task::JoinSet::new();
    for (i, p) in apps.iter().enumerate() {
        for dir in 0..2usize {
            let s = p[dir].s.clone();
            let mut r = Rng::derive(seed, i as u64, dir as u64);
            let victim = victims[i];
            jobs.spawn(async move {
                let mut sent = vec![];
                let mut ok = true;
                for k in 0..25u32 {
                    let rel = *r.pick(&[ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ]);
                    let len = if rel == ORDERED { r.range(15, 5000) } else { r.range(15, 900) };
                    let key = Key::new(i, dir as u8, rel, k, len as usize);
                    if s.send(&key.bytes(), rel_of(rel)).await.is_err() {
                        ok = victim;
                        break;
                    }
                    sent.push(key);
                    tokio::time::sleep(Duration::from_millis(r.below(8))).await;
                }
                (i, dir, sent, ok)
            });
        }
    }
    // the victims end in the middle
    tokio::time::sleep(Duration::from_millis(60)).await;
    let ups = px.st.lock().unwrap().ups.clone();
    for i in (0..n).filter(|i| victims[*i]) {
        match how[i] {
            0 => { let _ = within(5.0, apps[i][0].s.close()).await; }
            1 => { let _ = within(5.0, apps[i][1].s.close()).await; }
            2 => { let _ = within(5.0, apps[i][0].s.close()).await; let _ = within(5.0, apps[i][1].s.close()).await; }
            _ => {}
        }
    }
    let mut sent: Vec<[Vec<Key>; 2]> = vec![Default::default(); n];
    while let Some(j) = jobs.join_next().await {
        if let Ok((i, dir, s, ok)) = j {
            if !ok {
                c.violation("leak:send", format!("send() failed on connection {i}, which nobody closed"), J::I(seed as i64));
            }
            sent[i][dir] = s;
        }
    }
    px.clean();
    let w = |i: usize| vec![("connections", J::I(n as i64)), ("network", J::s(format!("{net:?}"))), ("connection", J::I(i as i64)), ("ended_ones", J::s(format!("{:?}", (0..n).filter(|i| victims[*i]).collect::<Vec<_>>())))];
    for i in 0..n {
        if !victims[i] || how[i] == 3 {
            for dir in 0..2 {
                let want = sent[i][dir].iter().filter(|k| matches!(k.rel, ORDERED | RELIABLE)).count();
                let a = &apps[i][1 - dir];
                wait_until(30.0, || a.got().iter().filter_map(|m| Key::parse(m)).filter(|k| matches!(k.rel, ORDERED | RELIABLE)).count() >= want).await;
            }
        }
    }
    lsleep(0.3).await;
    let trace = px.trace();
    for i in 0..n {
        for dir in 0..2usize {
            let got = apps[i][1 - dir].got();
            oracle_integrity(&c, i, &sent[i][dir], &got, &unreliable_copies(&trace, i, dir as u8), w(i));
            if !victims[i] || how[i] == 3 {
                oracle_ordered(&c, &sent[i][dir], &got, true, w(i));
                oracle_reliable(&c, &sent[i][dir], &got, w(i));
                if let Some(e) = apps[i][1 - dir].ended() {
                    c.violation("leak:ended", format!("connection {i} ended ({}) although only others were closed", e.1), J::o(w(i)));
                }
            }
        }
    }
    // get_peer and accepted addresses name distinct peers
    let mut peers: Vec<SocketAddr> = apps.iter().map(|a| a[1].s.peer_addr().unwrap()).collect();
    if peers.iter().zip(&ups).any(|(a, b)| a != b) {
        c.violation("leak:peer", "peer_addr() does not name the peer of the connection", J::I(seed as i64));
    }
    peers.sort();
    peers.dedup();
    c.add("connections_at_once_total", peers.len() as i64);
    let mut key = seed.to_be_bytes().to_vec();
    key.extend(trace.iter().map(|t| t.conn as u8));
    c.case(&key, true);
    for a in apps.into_iter().flatten() {
        let _ = within(5.0, a.s.close()).await;
    }
    let _ = within(15.0, l.close()).await;
}

/// Foreign datagrams that would matter if they came from the peer.
fn forged(dir_frames_seq: u32, r: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    for rel in [ORDERED, RELIABLE, UNRELIABLE, UNREL_SEQ, REL_SEQ] {
        for k in 0..6u32 {
            let mut f = Frame::new(rel, &Key::new(666, 9, rel, k, 40).bytes());
            f.ridx = k;
            f.oidx = k;
            f.sidx = 500 + k;
            v.push(("user message", enc_frames(dir_frames_seq + k, &[f])));
        }
    }
    for k in 0..5u32 {
        let mut f = Frame::new(RELIABLE, &[0x15]);
        f.ridx = k;
        v.push(("disconnect message", enc_frames(100 + k, &[f])));
    }
    v.push(("disconnect", vec![0x15]));
    v.push(("ack", enc_ack(ACK, &[(0, 200)])));
    v.push(("nack", enc_ack(NACK, &[(0, 200)])));
    v.push(("garbage", (0..50).map(|_| r.next() as u8).collect()));
    v.push(("empty", vec![]));
    v
}

/// A foreign socket attacks one end of a connection with a raw peer.
async fn foreign(c: C, client_side: bool, seed: u64) {
    let mut r = Rng::new(seed);
    let mut l = listener_at("0.0.0.0:0").await;
    let port = l.local_addr().unwrap().port();
    let la: SocketAddr = format!("127.0.0.1:{port}").parse().unwrap();
    let p = Peer::new(if client_side { Role::Server } else { Role::Client }).await;
    let s = if client_side {
        let a = p.addr;
        within(20.0, RaknetSocket::connect(&a)).await.and_then(|r| r.ok())
    } else {
        let (a, s) = tokio::join!(p.connect(la, 10, 1400), within(20.0, l.accept()));
        a.ok().and_then(|_| s.and_then(|x| x.ok()))
    };
    let Some(s) = s else {
        return c.violation("leak:setup", "no connection", J::B(client_side));
    };
    let target: SocketAddr = if client_side { p.target() } else { la };
    let app = App::new(s);
    let _ = within(10.0, app.s.flush()).await;
    // a message in flight that the peer does not acknowledge yet
    p.with(|s| s.auto_ack = false);
    let mine = Key::new(1, 0, ORDERED, 0, 50).bytes();
    let _ = app.s.send(&mine, Reliability::ReliableOrdered).await;
    tokio::time::sleep(Duration::from_millis(30)).await;
    // another loopback address with the peer's own port, and a plain stranger
    let twin = tokio::net::UdpSocket::bind(format!("127.0.0.2:{}", p.addr.port())).await;
    let stranger = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let mut socks = vec![("another port", &stranger)];
    if let Ok(t) = &twin {
        socks.push(("another host with the same port", t));
    }
    for (who, sock) in &socks {
        let list = forged(p.with(|s| s.seq), &mut r);
        for (what, d) in &list {
            let _ = sock.send_to(d, target).await;
            c.add("foreign_datagrams_sent", 1);
            c.case(format!("{who} {what} {client_side}").as_bytes(), true);
        }
        lsleep(0.3).await;
        let w = J::o(vec![("source", J::s(*who)), ("library_is", J::s(if client_side { "client" } else { "server" }))]);
        if let Some(e) = app.ended() {
            return c.violation("leak:foreign-end", format!("datagrams from {who} ended the connection: {}", e.1), w);
        }
        if app.count() > 0 {
            return c.violation("leak:foreign-data", format!("the application received a message sent from {who}"), w);
        }
        // nobody but the peer can acknowledge: the frame is still being resent
        let before = p.with(|s| s.frames.iter().filter(|f| f.2.data == mine).count());
        let again = wait_until(8.0, || p.with(|s| s.frames.iter().filter(|f| f.2.data == mine).count()) > before).await;
        if !again {
            return c.violation("leak:foreign-ack", format!("after an ACK from {who} the unacknowledged message is not resent"), w);
        }
        if within(0.05, app.s.flush()).await.is_some() {
            return c.violation("leak:foreign-ack", format!("flush() returned after an ACK from {who}"), w);
        }
        // the datagram numbers the foreigner used are still good when the peer uses them
        let m = Key::new(1, 1, ORDERED, 0, 70).bytes();
        let _ = m;
    }
    p.with(|s| s.auto_ack = true);
    for k in 0..6u32 {
        let m = Key::new(1, 1, ORDERED, k, 70).bytes();
        if !p.msg(ORDERED, &m).await || !app.expect(&m, 5.0).await {
            c.violation("leak:foreign-state", "the real peer's message was not delivered after foreign datagrams with the same numbers", J::I(k as i64));
            break;
        }
    }
    if within(12.0, app.s.flush()).await.map(|r| r.is_ok()) != Some(true) {
        c.violation("leak:foreign-state", "flush() does not return after foreign datagrams although the peer acknowledges", J::B(client_side));
    }
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// A foreign socket interferes while a client connects to a raw server.
async fn foreign_handshake(c: C, kind: u32) {
    let p = Peer::new(Role::Server).await;
    p.with(|s| s.auto_handshake = false);
    let evil = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let a = p.addr;
    let h = tokio::spawn(async move { within(25.0, RaknetSocket::connect(&a)).await });
    let name = ["incompatible", "reply1 with tiny MTU", "already connected", "reply2", "garbage", "disconnect", "broken reply1"][kind as usize];
    if !wait_until(10.0, || p.with(|s| s.req_seen > 0)).await {
        h.abort();
        return c.violation("leak:setup", "no OpenConnectionRequest1", J::s(name));
    }
    let from = p.with(|s| s.log[0].from);
    let forged = |n: u64| match kind {
        0 => enc_incompatible(9, n),
        1 => enc_reply1(n, 100),
        2 => enc_already(0x12, n),
        3 => enc_reply2(n, from, 500),
        4 => vec![0x9a; 33],
        5 => vec![0x15],
        _ => enc_reply1(n, 1400)[..9].to_vec(),
    };
    for n in 0..3 {
        let _ = evil.send_to(&forged(n), from).await;
    }
    lsleep(0.1).await;
    p.with(|s| s.auto_handshake = true);
    let _ = p.sock.send_to(&enc_reply1(77, 1400), from).await;
    for n in 0..40 {
        let _ = evil.send_to(&forged(n), from).await;
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    let w = J::o(vec![("forged", J::s(name))]);
    c.case(name.as_bytes(), true);
    match h.await.ok().flatten() {
        Some(Ok(s)) => {
            let mtu = p.with(|s| s.log.iter().filter_map(|x| match decode(&x.bytes) { Ok(Dg::Req2 { mtu, .. }) => Some(mtu), _ => None }).last());
            if mtu != Some(1400) {
                c.violation("leak:foreign-handshake", format!("a foreign {name} changed the negotiated MTU to {mtu:?}"), w.clone());
            }
            let s = Arc::new(s);
            let m = Key::new(1, 0, ORDERED, 0, 300).bytes();
            let _ = s.send(&m, Reliability::ReliableOrdered).await;
            if !wait_until(8.0, || p.user_count() > 0).await {
                c.violation("leak:foreign-handshake", format!("the connection does not work after a foreign {name} during the handshake"), w);
            }
        }
        x => c.violation("leak:foreign-handshake", format!("a foreign {name} during the handshake made connect() return {:?}", x.map(|r| r.err())), w),
    }
}

/// Clients whose addresses differ in one bit or digit: neighbouring ports, one port on several
/// hosts. What ends or happens on one of them leaves the others alone.
async fn neighbours(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x13b, k);
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    // sixteen consecutive ports, below the range that is given out
    let base = 20_000 + 16 * r.below(700);
    let mut addrs: Vec<String> = (0..6).map(|i| format!("127.0.0.1:{}", base + i)).collect();
    addrs.push(format!("127.0.0.2:{base}"));
    addrs.push(format!("127.0.0.3:{base}"));
    addrs.push(format!("127.0.0.12:{base}"));
    addrs.push(format!("127.0.0.2:{}", base + 1));
    addrs.push(format!("127.0.0.1:{}", (base % 1000) + 10_000));
    addrs.push(format!("127.0.1.1:{base}"));
    let mut conns: Vec<(Peer, App)> = vec![];
    for a in &addrs {
        if tokio::net::UdpSocket::bind(a).await.is_err() {
            c.add("neighbour_addresses_taken", 1);
            continue;
        }
        let p = Peer::bind(a, Role::Client).await;
        let (x, s) = tokio::join!(p.connect(la, 10, 1400), within(20.0, l.accept()));
        match (x, s) {
            (Ok(()), Some(Ok(s))) => {
                if s.peer_addr().unwrap() != p.addr {
                    c.violation("leak:peer", format!("peer_addr() is {:?}, the client is {}", s.peer_addr(), p.addr), J::s(a.clone()));
                }
                conns.push((p, App::new(s)));
            }
            (x, s) => return c.violation("leak:setup", format!("{a} could not connect: {x:?} {:?}", s.map(|x| x.is_ok())), J::s(a.clone())),
        }
    }
    let mut alive: Vec<usize> = (0..conns.len()).collect();
    let mut hist = vec![];
    let mut tag = 0u32;
    while alive.len() > 2 {
        // all of the living exchange messages
        tag += 1;
        let w = |hist: &[String]| J::o(vec![("ended_before", J::s(hist.join("; ")))]);
        for i in &alive {
            let (p, a) = &conns[*i];
            let up = Key::new(*i, 0, ORDERED, tag, 60).bytes();
            let down = Key::new(*i, 1, ORDERED, tag, 60).bytes();
            let ok = p.msg(ORDERED, &up).await;
            let _ = within(5.0, a.s.send(&down, Reliability::ReliableOrdered)).await;
            if !ok || !a.expect(&up, 5.0).await || !wait_until(5.0, || p.user().iter().any(|m| m.1 == down)).await {
                c.violation("leak:neighbour", format!("the connection of {} no longer works (ended {:?}) after others ended", p.addr, a.ended().map(|e| e.1)), w(&hist));
                return;
            }
        }
        for (i, (p, a)) in conns.iter().enumerate() {
            if a.got().iter().any(|m| Key::parse(m).map_or(true, |k| k.conn as usize != i)) || p.user().iter().any(|m| Key::parse(&m.1).map_or(true, |k| k.conn as usize != i)) {
                c.violation("leak:message", format!("{} received a message of another connection", p.addr), w(&hist));
                return;
            }
        }
        let j = alive.remove(r.below(alive.len() as u64) as usize);
        let how = r.below(3);
        hist.push(format!("{} {}", conns[j].0.addr, ["Disconnect datagram", "Disconnect message", "closed by the server"][how as usize]));
        match how {
            0 => conns[j].0.raw(&[0x15]).await,
            1 => {
                let f = conns[j].0.frame(RELIABLE, &[0x15]);
                conns[j].0.send(&[f]).await;
            }
            _ => {
                let _ = within(5.0, conns[j].1.s.close()).await;
            }
        }
        if !wait_until(5.0, || conns[j].1.ended().is_some()).await {
            c.violation("leak:not-ended", format!("{} did not end", hist.last().unwrap()), J::s(hist.join("; ")));
            return;
        }
        // sessions are collected some ticks later
        lsleep(0.25).await;
        c.add("neighbours_ended_one_by_one", 1);
    }
    c.case(hist.join(",").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one crowd of concurrent connections (distinct by interleaving of their datagrams) or one kind of foreign datagram at one end");
    let mut set = tokio::task::JoinSet::new();
    for k in 0..7 {
        set.spawn(foreign_handshake(c.clone(), k));
    }
    for side in [false, true] {
        for k in 0..c.q(3, 20) {
            set.spawn(foreign(c.clone(), side, c.seed ^ k));
        }
    }
    for k in 0..c.q(4, 40) {
        if set.len() >= 12 {
            set.join_next().await;
        }
        set.spawn(neighbours(c.clone(), k));
    }
    while set.join_next().await.is_some() {}
    set_chaos(0.01, 500);
    let mut r = Rng::derive(c.seed, 13, 13);
    let mut set = tokio::task::JoinSet::new();
    for k in 0..c.q(14, 200) {
        if c.failed() {
            break;
        }
        if set.len() >= 4 {
            set.join_next().await;
        }
        let mut net = if k % 3 == 0 { NetCfg::clean() } else { NetCfg::random(&mut r) };
        net.blackouts.clear();
        set.spawn(crowd(c.clone(), 6 + r.below(20) as usize, r.next(), net));
    }
    while set.join_next().await.is_some() {}
}
