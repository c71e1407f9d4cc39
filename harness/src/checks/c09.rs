//! C09 connect() succeeds despite any lost, repeated or delayed handshake datagram.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::HashMap;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
enum Fate {
    Drop,
    Twice,
    LateCopy(u64),
    Delay(u64),
}
/// (direction, position in that direction, what happens to it)
type Plan = Vec<(u8, u32, Fate)>;

async fn faulty(c: C, plan: Plan, loss: Option<NetCfg>, seed: u64) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let px = Proxy::new(la, loss.clone().unwrap_or_default(), seed).await;
    if !plan.is_empty() {
        let m: HashMap<(u8, u32), Fate> = plan.iter().map(|x| ((x.0, x.1), x.2.clone())).collect();
        px.st.lock().unwrap().set_hook(Box::new(move |_, dir, k, _| {
            Some(match m.get(&(dir, k))? {
                Fate::Drop => vec![],
                Fate::Twice => vec![0, 0],
                Fate::LateCopy(d) => vec![0, *d],
                Fate::Delay(d) => vec![*d],
            })
        }));
    }
    let t0 = ticks();
    let addr = px.addr;
    let conn = tokio::spawn(async move { within(45.0, RaknetSocket::connect(&addr)).await });
    let first = within(50.0, l.accept()).await;
    let cl = conn.await.ok().flatten();
    let took = (ticks() - t0) as f64 / 100.0;
    let seen: Vec<String> = px.trace().iter().map(|t| format!("{}{}x{}", if t.dir == C2S { ">" } else { "<" }, kind(&t.bytes), t.copies)).collect();
    let w = J::o(vec![
        ("faults", J::s(format!("{plan:?}"))),
        ("random_network", J::s(format!("{loss:?}"))),
        ("datagrams", J::s(seen.iter().take(80).cloned().collect::<Vec<_>>().join(" "))),
    ]);
    c.case(seen.join(" ").as_bytes(), plan.iter().any(|p| seen.len() > p.1 as usize) || loss.is_some());
    c.max("slowest_connect_ms", (took * 1000.0) as i64);
    c.add("handshake_datagrams_seen", seen.len() as i64);
    c.add("faults_applied", { let s = px.stats(); (s.1 + s.2 + s.3) as i64 });
    let (cl, sv) = match (cl, first) {
        (Some(Ok(cl)), Some(Ok(sv))) => (cl, sv),
        (cl, sv) => {
            let what = |x: Option<Result<RaknetSocket, error::RaknetError>>| match x {
                None => "did not return".to_string(),
                Some(Ok(_)) => "succeeded".into(),
                Some(Err(e)) => format!("failed with {e:?}"),
            };
            c.violation("connect:failed", format!("connect() {}, accept() {} although the network recovered", what(cl), what(sv)), w);
            let _ = within(15.0, l.close()).await;
            return;
        }
    };
    if took > 30.0 {
        c.violation("connect:slow", format!("the connection took {took:.1} s to establish"), w.clone());
    }
    px.clean();
    let (ca, ua) = { let s = px.st.lock().unwrap(); (s.clients[0], s.ups[0]) };
    let n = px.st.lock().unwrap().clients.len();
    if n != 1 {
        c.violation("connect:sources", format!("one connect() used {n} source addresses"), w.clone());
    }
    for (what, have, want) in [
        ("client peer_addr()", cl.peer_addr().unwrap(), addr),
        ("server peer_addr()", sv.peer_addr().unwrap(), ua),
        ("server local_addr()", sv.local_addr().unwrap(), la),
    ] {
        if have != want {
            c.violation("connect:address", format!("{what} is {have}, expected {want}"), w.clone());
        }
    }
    if cl.local_addr().unwrap().port() != ca.port() {
        c.violation("connect:address", format!("client local_addr() is {:?}, it sends from {ca}", cl.local_addr()), w.clone());
    }
    if cl.raknet_version().unwrap() != 10 || sv.raknet_version().unwrap() != 10 {
        c.violation("connect:version", "raknet_version() is not the default at both ends", w.clone());
    }
    // usable in both directions
    let (a, b) = (App::new(cl), App::new(sv));
    for (i, (x, y)) in [(&a, &b), (&b, &a)].into_iter().enumerate() {
        let m = Key::new(0, i as u8, ORDERED, 0, 3000).bytes();
        let ok = within(10.0, x.s.send(&m, Reliability::ReliableOrdered)).await.map(|r| r.is_ok()) == Some(true);
        if !ok || !y.expect(&m, 12.0).await {
            c.violation("connect:unusable", format!("a message {} the new connection was not delivered", if i == 0 { "up" } else { "down" }), w.clone());
        }
    }
    if a.ended().is_some() || b.ended().is_some() {
        c.violation("connect:died", format!("the new connection ended: {:?} {:?}", a.ended(), b.ended()), w.clone());
    }
    // exactly one connection was accepted
    if let Some(r) = within(0.7, l.accept()).await {
        c.violation("connect:twice", format!("accept() returned a second connection from {:?}", r.map(|s| s.peer_addr().unwrap()).ok()), w.clone());
    }
    c.sample(w);
    let _ = within(5.0, a.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

fn kind(b: &[u8]) -> String {
    match decode(b) {
        Ok(Dg::Req1 { .. }) => "req1".into(),
        Ok(Dg::Reply1 { .. }) => "reply1".into(),
        Ok(Dg::Req2 { .. }) => "req2".into(),
        Ok(Dg::Reply2 { .. }) => "reply2".into(),
        Ok(Dg::Already { .. }) => "already".into(),
        Ok(Dg::Ack(_)) => "ack".into(),
        Ok(Dg::Nack(_)) => "nack".into(),
        Ok(Dg::Frames { frames, .. }) => {
            let f = &frames[0];
            match decode_inner(&f.data) {
                Ok(Inner::Request { .. }) => "request",
                Ok(Inner::Accepted { .. }) => "accepted",
                Ok(Inner::Incoming { .. }) => "incoming",
                Ok(Inner::Ping(_)) => "ping",
                Ok(Inner::Pong(..)) => "pong",
                Ok(Inner::Disconnect) => "bye",
                _ => "data",
            }
            .into()
        }
        Ok(x) => format!("{x:?}").split(' ').next().unwrap_or("?").to_string(),
        Err(_) => "bad".into(),
    }
}

/// A raw server that turns the connection down or lets it die at some step.
async fn dying(c: C, how: u32) {
    let name = [
        "incompatible version", "already connected", "disconnect datagram after reply2", "disconnect message after reply2",
        "silence after reply2", "already connected, repeated requests",
    ][how as usize];
    let p = Peer::new(Role::Server).await;
    p.with(|s| {
        s.auto_handshake = false;
        s.auto_ack = how != 4;
    });
    let a = p.addr;
    let t0 = ticks();
    let h = tokio::spawn(async move { RaknetSocket::connect(&a).await.map(|_| ()) });
    let limit = if how == 4 { 85 } else { 25 };
    let mut seen = 0;
    let mut step = 0;
    let mut req2 = 0;
    while !h.is_finished() && ticks() - t0 < limit * 100 {
        tokio::time::sleep(Duration::from_millis(5)).await;
        let fresh: Vec<Rx> = p.with(|s| { let v = s.log[seen..].to_vec(); seen = s.log.len(); v });
        for rx in fresh {
            let reply: Vec<Vec<u8>> = match decode(&rx.bytes) {
                Ok(Dg::Req1 { .. }) if how == 0 => vec![enc_incompatible(9, 5)],
                Ok(Dg::Req1 { .. }) => vec![enc_reply1(5, 1400)],
                Ok(Dg::Req2 { .. }) => {
                    req2 += 1;
                    if how == 1 || how == 5 { vec![enc_already(0x12, 5)] } else { vec![enc_reply2(5, rx.from, 1400)] }
                }
                Ok(Dg::Frames { .. }) if how == 2 => vec![vec![0x15]],
                Ok(Dg::Frames { .. }) if how == 3 && step < 5 => {
                    step += 1;
                    let mut f = Frame::new(RELIABLE, &[0x15]);
                    f.ridx = 0;
                    vec![enc_frames(0, &[f])]
                }
                _ => vec![],
            };
            for r in reply {
                let _ = p.sock.send_to(&r, rx.from).await;
            }
        }
    }
    let took = (ticks() - t0) as f64 / 100.0;
    let w = J::o(vec![("server", J::s(name)), ("seconds", J::F(took))]);
    c.case(format!("dying {how}").as_bytes(), true);
    c.add("open_requests_to_refusing_server", req2);
    if !h.is_finished() {
        h.abort();
        c.violation("connect:hang", format!("connect() was still waiting after {took:.0} s although the server did: {name}"), w);
        return;
    }
    match h.await {
        Ok(Err(e)) => {
            if how == 0 && !matches!(e, error::RaknetError::NotSupportVersion) {
                c.violation("connect:error", format!("an incompatible version gave {e:?}"), w);
            } else {
                c.sample(w);
            }
        }
        x => c.violation("connect:bogus", format!("connect() returned {x:?} although the server did: {name}"), w),
    }
}

/// Datagrams of an earlier conversation (a closed connection's Disconnects, old frames, pongs)
/// arrive from the server's address before its replies do.
async fn stray(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x95, k);
    let p = Peer::new(Role::Server).await;
    p.with(|s| s.auto_handshake = false);
    let a = p.addr;
    let h = tokio::spawn(async move { within(30.0, RaknetSocket::connect(&a)).await });
    let list: Vec<(&str, Vec<u8>)> = vec![
        ("Disconnect", vec![0x15]),
        ("frame set", enc_frames(40, &[Frame::new(UNRELIABLE, &[0xfe, 1, 2])])),
        ("ACK", enc_ack(ACK, &[(0, 3)])),
        ("NACK", enc_ack(NACK, &[(0, 3)])),
        ("pong", enc_pong(5, 6, b"motd")),
        ("Reply1", enc_reply1(5, 1400)),
        ("unknown", vec![0x77, 1, 2]),
        ("empty", vec![]),
    ];
    let pick = |r: &mut Rng, first: bool| loop {
        let x = r.pick(&list);
        if !(first && x.0 == "Reply1") {
            return x.clone();
        }
    };
    let mut told = vec![];
    if !wait_until(10.0, || p.with(|s| s.req_seen > 0)).await {
        return c.violation("connect:silent", "no OpenConnectionRequest1", J::s("stray"));
    }
    let from = p.with(|s| s.log[0].from);
    for _ in 0..1 + r.below(4) {
        let x = pick(&mut r, true);
        told.push(x.0);
        let _ = p.sock.send_to(&x.1, from).await;
    }
    tokio::time::sleep(Duration::from_millis(r.below(40))).await;
    told.push("-- Reply1");
    let _ = p.sock.send_to(&enc_reply1(5, 1400), from).await;
    let req2 = || p.with(|s| s.log.iter().any(|x| matches!(decode(&x.bytes), Ok(Dg::Req2 { .. }))));
    wait_until(4.0, req2).await;
    for _ in 0..1 + r.below(4) {
        let x = pick(&mut r, false);
        told.push(x.0);
        let _ = p.sock.send_to(&x.1, from).await;
    }
    tokio::time::sleep(Duration::from_millis(r.below(40))).await;
    p.with(|s| s.auto_handshake = true);
    let w = J::o(vec![("datagrams_before_the_replies", J::s(told.join(", ")))]);
    c.case(told.join(",").as_bytes(), true);
    match h.await {
        Ok(Some(Ok(s))) => {
            let m = Key::new(0, 0, ORDERED, 0, 300).bytes();
            let _ = s.send(&m, Reliability::ReliableOrdered).await;
            if !wait_until(8.0, || p.user_count() > 0).await {
                c.violation("connect:stray", "the connection does not work after stray datagrams during the handshake", w);
            }
        }
        x => c.violation("connect:stray", format!("stray datagrams of the server's address before its replies made connect() return {:?}", x.ok().map(|x| x.map(|y| y.err()))), w),
    }
}

pub async fn run(c: C) {
    c.rule("one case = one handshake with its fault plan; nontrivial if a planned fault fell inside the handshake; distinct by the datagrams seen (kind, direction, copies)");
    let fates = [Fate::Drop, Fate::Twice, Fate::LateCopy(120), Fate::LateCopy(2500), Fate::Delay(300), Fate::Delay(2400)];
    let depth = c.q(7, 9) as u32;
    let mut plans: Vec<Plan> = vec![vec![]];
    for dir in [C2S, S2C] {
        for k in 0..depth {
            for f in &fates {
                plans.push(vec![(dir, k, f.clone())]);
            }
            // the datagram and its repeats
            plans.push((k..k + 2).map(|i| (dir, i, Fate::Drop)).collect());
            plans.push((k..k + 3).map(|i| (dir, i, Fate::Drop)).collect());
        }
    }
    let pair_depth = c.q(5, 7) as u32;
    let pos: Vec<(u8, u32)> = [C2S, S2C].iter().flat_map(|d| (0..pair_depth).map(move |k| (*d, k))).collect();
    for i in 0..pos.len() {
        for j in i + 1..pos.len() {
            let fs: &[Fate] = if c.thorough { &fates } else { &fates[..1] };
            for f in fs {
                plans.push(vec![(pos[i].0, pos[i].1, Fate::Drop), (pos[j].0, pos[j].1, f.clone())]);
                if c.thorough && *f != Fate::Drop {
                    plans.push(vec![(pos[i].0, pos[i].1, f.clone()), (pos[j].0, pos[j].1, Fate::Drop)]);
                    plans.push(vec![(pos[i].0, pos[i].1, f.clone()), (pos[j].0, pos[j].1, f.clone())]);
                }
            }
        }
    }
    c.add("enumerated_fault_plans", plans.len() as i64);
    let mut set = tokio::task::JoinSet::new();
    for how in 0..6 {
        set.spawn(dying(c.clone(), how));
    }
    for k in 0..c.q(20, 200) {
        set.spawn(stray(c.clone(), k));
    }
    let par = 48;
    for (n, p) in plans.into_iter().enumerate() {
        if set.len() >= par {
            set.join_next().await;
        }
        set.spawn(faulty(c.clone(), p, None, c.seed ^ n as u64));
    }
    // random loss, repetition and delay while connecting
    let mut r = Rng::derive(c.seed, 9, 9);
    for _ in 0..c.q(60, 800) {
        if set.len() >= par || c.failed() {
            set.join_next().await;
        }
        if c.failed() {
            break;
        }
        let mut n = NetCfg::random(&mut r);
        n.blackouts.clear();
        n.drop = n.drop.max(0.25 * (r.below(100) as f64 / 100.0));
        let s = r.next();
        set.spawn(faulty(c.clone(), vec![], Some(n), s));
    }
    while set.join_next().await.is_some() {}
    // two and more clients connecting through faults at once are covered by C10/C13
    set_chaos(0.02, 2000);
    let mut set = tokio::task::JoinSet::new();
    for k in 0..c.q(30, 300) {
        if set.len() >= 24 {
            set.join_next().await;
        }
        set.spawn(faulty(c.clone(), vec![], Some(NetCfg { dup: 0.3, ..Default::default() }), c.seed ^ k << 8));
    }
    while set.join_next().await.is_some() {}
}
