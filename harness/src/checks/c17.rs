//! C17 Dropping handles releases everything.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::net::SocketAddr;
use std::time::Duration;

fn tasks() -> usize {
    tokio::runtime::Handle::current().metrics().num_alive_tasks()
}
fn sockets() -> usize {
    std::fs::read_dir("/proc/self/fd")
        .map(|d| d.flatten().filter(|e| std::fs::read_link(e.path()).map(|p| p.to_string_lossy().starts_with("socket:")).unwrap_or(false)).count())
        .unwrap_or(0)
}
fn level() -> (usize, usize) {
    (tasks(), sockets())
}
/// Waits until no more than `base` tasks and sockets are left.
async fn settled(base: (usize, usize), secs: f64) -> Result<f64, (usize, usize)> {
    let t0 = ticks();
    if wait_until(secs, || level().0 <= base.0 && level().1 <= base.1).await {
        Ok((ticks() - t0) as f64 / 100.0)
    } else {
        Err(level())
    }
}

const KINDS: [&str; 15] = [
    "client dropped first",
    "server connection dropped first",
    "listener dropped first",
    "everything dropped at once",
    "dropped with messages in flight",
    "dropped while the peer is silent",
    "closed, then dropped",
    "listener dropped unused",
    "listener dropped with unaccepted connections",
    "connect() cancelled, server present",
    "connect() cancelled, nobody answers",
    "connect() cancelled after OpenConnectionReply1",
    "connect() cancelled after OpenConnectionReply2",
    "connect() refused",
    "ping() cancelled",
];

async fn notice(c: &C, a: &App, kind: usize) {
    if !wait_until(12.0, || a.ended().is_some()).await {
        c.violation("drop:unnoticed", format!("the peer's recv() still waits 12 s after: {}", KINDS[kind]), J::s(KINDS[kind]));
    }
}

async fn one(c: C, kind: usize, seed: u64) {
    let mut r = Rng::new(seed);
    let w = || J::o(vec![("kind", J::s(KINDS[kind])), ("seed", J::I(seed as i64))]);
    match kind {
        0..=6 => {
            let mut l = listener().await;
            if kind == 5 {
                let client = r.chance(0.5);
                let x = if client { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
                let Ok((p, s)) = x else { return c.violation("drop:setup", "no connection", w()) };
                p.with(|s| s.auto_ack = false);
                for i in 0..5 {
                    let _ = s.send(&Key::new(0, 0, ORDERED, i, 2000).bytes(), Reliability::ReliableOrdered).await;
                }
                drop(s);
                if !wait_until(5.0, || p.with(|s| s.disconnects > 0)).await {
                    c.violation("drop:silent", "dropping the connection did not tell the peer", w());
                }
                return;
            }
            let (a, b) = match lib_pair(None, &mut l).await {
                Ok(x) => x,
                Err(e) => return c.violation("drop:setup", e, w()),
            };
            match kind {
                0 => {
                    let b = App::new(b);
                    drop(a);
                    notice(&c, &b, kind).await;
                }
                1 => {
                    let a = App::new(a);
                    drop(b);
                    notice(&c, &a, kind).await;
                }
                2 => {
                    let (a, b) = (App::new(a), App::new(b));
                    drop(l);
                    notice(&c, &a, kind).await;
                    notice(&c, &b, kind).await;
                }
                3 => {}
                4 => {
                    let (x, y) = if r.chance(0.5) { (a, b) } else { (b, a) };
                    let y = App::new(y);
                    for i in 0..20 {
                        let _ = x.send(&Key::new(0, 0, ORDERED, i, 3000).bytes(), Reliability::ReliableOrdered).await;
                        let _ = y.s.send(&Key::new(0, 1, ORDERED, i, 3000).bytes(), Reliability::ReliableOrdered).await;
                    }
                    tokio::time::sleep(Duration::from_millis(r.below(30))).await;
                    drop(x);
                    notice(&c, &y, kind).await;
                }
                _ => {
                    let b = App::new(b);
                    let _ = within(5.0, a.close()).await;
                    drop(a);
                    notice(&c, &b, kind).await;
                }
            }
        }
        7 => {
            let mut l = RaknetListener::bind(&own_addr()).await.unwrap();
            if r.chance(0.5) {
                l.listen().await;
            }
            let la = l.local_addr().unwrap();
            drop(l);
            if !wait_until(12.0, || std::net::UdpSocket::bind(la).is_ok()).await {
                c.violation("drop:port", "the port of a dropped listener stays taken", w());
            }
        }
        8 => {
            let l = listener().await;
            let la = l.local_addr().unwrap();
            let mut cl = vec![];
            for _ in 0..3 {
                if let Some(Ok(s)) = within(20.0, RaknetSocket::connect(&la)).await {
                    cl.push(App::new(s));
                }
            }
            drop(l);
            for a in &cl {
                notice(&c, a, kind).await;
            }
        }
        9 => {
            let l = listener().await;
            let la = l.local_addr().unwrap();
            for _ in 0..6 {
                let us = r.below(6000);
                let _ = tokio::time::timeout(Duration::from_micros(us), RaknetSocket::connect(&la)).await;
            }
        }
        10..=13 => {
            let p = Peer::new(Role::Server).await;
            p.with(|s| {
                s.auto_handshake = false;
                s.auto_ack = false;
            });
            let a = p.addr;
            let h = tokio::spawn(async move { within(1.5, RaknetSocket::connect(&a)).await.map(|r| r.is_ok()) });
            let mut seen = 0;
            while !h.is_finished() {
                tokio::time::sleep(Duration::from_millis(5)).await;
                let fresh: Vec<Rx> = p.with(|s| { let v = s.log[seen..].to_vec(); seen = s.log.len(); v });
                for rx in fresh {
                    let reply = match decode(&rx.bytes) {
                        Ok(Dg::Req1 { .. }) if kind == 13 => enc_incompatible(9, 5),
                        Ok(Dg::Req1 { .. }) if kind > 10 => enc_reply1(5, 1400),
                        Ok(Dg::Req2 { .. }) if kind > 11 => enc_reply2(5, rx.from, 1400),
                        _ => continue,
                    };
                    let _ = p.sock.send_to(&reply, rx.from).await;
                }
            }
            if h.await.ok().flatten() == Some(true) {
                c.violation("drop:bogus", "connect() succeeded without a server", w());
            }
        }
        _ => {
            let p = Peer::new(Role::Mute).await;
            let _ = tokio::time::timeout(Duration::from_millis(r.below(50)), RaknetSocket::ping(&p.addr)).await;
        }
    }
    c.case(format!("{kind} {seed}").as_bytes(), true);
    c.add("handles_dropped", 1);
}

pub async fn run(c: C) {
    c.rule("one case = one way of dropping or cancelling, with its seed; task and UDP socket counts must return to the level before");
    tokio::time::sleep(Duration::from_millis(100)).await;
    let base = level();
    c.add("tasks_before", base.0 as i64);
    c.add("sockets_before", base.1 as i64);
    let limit = 25.0;
    for (round, (p, us)) in [(0.0, 0), (0.03, 1500)].into_iter().enumerate() {
        set_chaos(p, us);
        let mut set = tokio::task::JoinSet::new();
        for k in 0..c.q(8, 60) {
            for kind in 0..KINDS.len() {
                if set.len() >= 40 {
                    set.join_next().await;
                }
                set.spawn(one(c.clone(), kind, c.seed * 7919 + k + 100 * round as u64));
            }
        }
        let peak = level();
        c.max("most_tasks", peak.0 as i64);
        c.max("most_sockets", peak.1 as i64);
        while set.join_next().await.is_some() {}
        match settled(base, limit).await {
            Ok(s) => c.max("slowest_release_ms", (s * 1000.0) as i64),
            Err(now) => {
                // find out which kind leaks
                for kind in 0..KINDS.len() {
                    let b = level();
                    let mut set = tokio::task::JoinSet::new();
                    for k in 0..4 {
                        set.spawn(one(c.clone(), kind, c.seed * 31 + k));
                    }
                    while set.join_next().await.is_some() {}
                    if let Err(n) = settled(b, limit).await {
                        c.violation("drop:leak", format!("tasks/sockets {b:?} before and {n:?} {limit} s after: {}", KINDS[kind]), J::s(KINDS[kind]));
                        return;
                    }
                }
                c.violation("drop:leak", format!("tasks/sockets {base:?} before all scenarios, {now:?} {limit} s after them"), J::I(round as i64));
                return;
            }
        }
    }
    set_chaos(0.0, 0);
    // cycles against one listener: the level while only the listener lives stays constant
    let mut l = listener().await;
    let la: SocketAddr = l.local_addr().unwrap();
    let b = level();
    for k in 0..c.q(3, 12) {
        for i in 0..40 {
            match lib_pair(None, &mut l).await {
                Ok((x, y)) => {
                    let m = Key::new(0, 0, ORDERED, i, 100).bytes();
                    let _ = x.send(&m, Reliability::ReliableOrdered).await;
                    if i % 2 == 0 {
                        drop(x);
                        drop(y);
                    } else {
                        drop(y);
                        drop(x);
                    }
                }
                Err(e) => {
                    c.violation("drop:cycle", format!("connect/drop cycle {i} failed: {e}"), J::I(i as i64));
                    return;
                }
            }
        }
        c.add("connect_drop_cycles", 40);
        c.case(format!("cycles {k}").as_bytes(), true);
        if let Err(n) = settled(b, limit).await {
            c.violation("drop:leak-cycles", format!("{} connect/drop cycles raised tasks/sockets from {b:?} to {n:?}", 40 * (k + 1)), J::s(la.to_string()));
            return;
        }
    }
    // dropping the sockets of a live listener frees its sessions too: close() is quick
    if within(12.0, l.close()).await.is_none() {
        c.violation("drop:close", "close() of a listener whose connections were all dropped hangs", J::s(""));
    }
}
