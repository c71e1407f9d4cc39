//! C16 Closing the listener.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;

const STATES: [&str; 14] = [
    "never listened",
    "never listened, from_std",
    "listening, idle",
    "closed right after listen",
    "accepted connections held by the application",
    "accepted connections already dropped",
    "accepted connections closing at the same time",
    "busy connections",
    "unaccepted connections",
    "more unaccepted connections than the backlog",
    "half-open connections",
    "clients connecting at the same time",
    "connections with silent peers and unacknowledged data",
    "connections whose application does not read",
];

async fn state(c: C, st: usize, seed: u64) {
    let mut r = Rng::new(seed ^ (st as u64) << 32);
    let w = J::o(vec![("state", J::s(STATES[st])), ("seed", J::I(seed as i64))]);
    let at = own_addr();
    let mut l = if st == 1 || r.chance(0.2) {
        let s = std::net::UdpSocket::bind(at).unwrap();
        match within(10.0, RaknetListener::from_std(s)).await {
            Some(Ok(l)) => l,
            _ => return c.violation("lclose:setup", "from_std() failed", w),
        }
    } else {
        match within(10.0, RaknetListener::bind(&at)).await {
            Some(Ok(l)) => l,
            _ => return c.violation("lclose:setup", "bind() failed", w),
        }
    };
    let la = l.local_addr().unwrap();
    // before listen()
    if !matches!(within(5.0, l.accept()).await, Some(Err(error::RaknetError::NotListen))) {
        c.violation("lclose:unlistened-accept", "accept() before listen() did not fail with NotListen", w.clone());
    }
    if st >= 2 {
        l.listen().await;
        if r.chance(0.3) {
            l.listen().await;
        }
    }
    let mut apps: Vec<App> = vec![];
    let mut clients: Vec<App> = vec![];
    let mut peers: Vec<Peer> = vec![];
    let mut raw_socks: Vec<RaknetSocket> = vec![];
    let mut bg: Vec<Task> = vec![];
    let n = r.range(1, 5) as usize;
    match st {
        4..=7 | 13 => {
            for _ in 0..n {
                match lib_pair(None, &mut l).await {
                    Ok((a, b)) => {
                        clients.push(App::new(a));
                        if st == 13 { raw_socks.push(b) } else { apps.push(App::new(b)) }
                    }
                    Err(e) => return c.violation("lclose:setup", e, w),
                }
            }
            if st == 5 {
                for a in apps.drain(..) {
                    drop(a.into_inner().await);
                }
                if r.chance(0.5) {
                    tokio::time::sleep(Duration::from_millis(r.below(200))).await;
                }
            }
            if st == 6 {
                for (a, b) in apps.iter().zip(&clients) {
                    let (a, b) = (a.s.clone(), b.s.clone());
                    let d = r.below(40);
                    bg.push(spawn(async move {
                        tokio::time::sleep(Duration::from_millis(d)).await;
                        let _ = if d % 2 == 0 { a.close().await } else { b.close().await };
                    }));
                }
                tokio::time::sleep(Duration::from_millis(r.below(60))).await;
            }
            if st == 7 || st == 13 {
                let socks: Vec<Arc<RaknetSocket>> = if st == 7 {
                    apps.iter().chain(&clients).map(|a| a.s.clone()).collect()
                } else {
                    clients.iter().map(|a| a.s.clone()).collect()
                };
                for s in socks {
                    bg.push(spawn(async move {
                        for i in 0..3000u32 {
                            if s.send(&Key::new(0, 0, ORDERED, i, 2000).bytes(), Reliability::ReliableOrdered).await.is_err() {
                                break;
                            }
                        }
                    }));
                }
                tokio::time::sleep(Duration::from_millis(100 + r.below(200))).await;
            }
        }
        8 | 9 => {
            let n = if st == 8 { n + 3 } else { 25 };
            for _ in 0..n {
                bg.push(spawn(async move {
                    if let Ok(s) = RaknetSocket::connect(&la).await {
                        let _ = s.recv().await;
                    }
                }));
            }
            tokio::time::sleep(Duration::from_millis(300 + r.below(300))).await;
        }
        10 => {
            for i in 0..n + 2 {
                let p = Peer::new(Role::Mute).await;
                p.with(|s| s.to = Some(la));
                p.raw(&enc_req1(10, 1372)).await;
                if i % 2 == 0 {
                    tokio::time::sleep(Duration::from_millis(5)).await;
                    p.raw(&enc_req2(la, 1400, 77 + i as u64)).await;
                }
                peers.push(p);
            }
            tokio::time::sleep(Duration::from_millis(r.below(100))).await;
        }
        11 => {
            for k in 0..30u64 {
                bg.push(spawn(async move {
                    tokio::time::sleep(Duration::from_micros(k * 150)).await;
                    if let Ok(s) = RaknetSocket::connect(&la).await {
                        let _ = s.recv().await;
                    }
                }));
            }
            tokio::time::sleep(Duration::from_micros(r.below(8000))).await;
        }
        12 => {
            for _ in 0..n {
                match raw_client(&mut l, 10, 1400).await {
                    Ok((p, s)) => {
                        p.with(|s| s.auto_ack = false);
                        for i in 0..10 {
                            let _ = s.send(&Key::new(0, 1, ORDERED, i, 3000).bytes(), Reliability::ReliableOrdered).await;
                        }
                        peers.push(p);
                        apps.push(App::new(s));
                    }
                    Err(e) => return c.violation("lclose:setup", e, w),
                }
            }
        }
        _ => {}
    }
    let given_up = if r.chance(0.3) { r.range(1, 4) } else { 0 };
    for _ in 0..given_up {
        // a close() which is given up can be called again
        if r.chance(0.5) {
            let _ = brief(l.close(), r.below(20)).await;
        } else {
            let _ = tokio::time::timeout(Duration::from_millis(r.below(150)), l.close()).await;
        }
        c.add("abandoned_closes", 1);
    }
    let t0 = ticks();
    let res = within(12.0, l.close()).await;
    let took = (ticks() - t0) as f64 / 100.0;
    c.max("slowest_listener_close_ms", (took * 1000.0) as i64);
    c.case(format!("{st} {seed} {n}").as_bytes(), true);
    match res {
        None => return c.violation("lclose:hang", format!("close() has not returned after 12 s; state: {}", STATES[st]), w),
        Some(Err(e)) => c.violation("lclose:error", format!("close() failed with {e:?}; state: {}", STATES[st]), w.clone()),
        Some(Ok(())) => {}
    }
    // the port is free at once
    match std::net::UdpSocket::bind(la) {
        Ok(s) => drop(s),
        Err(e) => c.violation("lclose:port", format!("the port is still taken after close(): {e}; state: {}, {given_up} calls of close() given up before", STATES[st]), w.clone()),
    }
    // every connection has ended
    for (who, list) in [("accepted", &apps), ("client", &clients)] {
        for a in list {
            if !wait_until(12.0, || a.ended().is_some()).await {
                c.violation("lclose:alive", format!("an {who} connection still waits in recv() 12 s after the listener closed; state: {}", STATES[st]), w.clone());
                break;
            }
            let m = Key::new(0, 0, ORDERED, 1 << 20, 40).bytes();
            if !matches!(within(5.0, a.s.send(&m, Reliability::ReliableOrdered)).await, Some(Err(error::RaknetError::ConnectionClosed))) {
                c.violation("lclose:send", "send() on a connection of a closed listener did not fail with ConnectionClosed", w.clone());
            }
        }
    }
    for p in &peers {
        if st == 12 && !wait_until(5.0, || p.with(|s| s.disconnects > 0)).await {
            c.violation("lclose:silent", "a peer was not told that the listener closed", w.clone());
        }
    }
    // every method in some order, twice
    let mut order: Vec<u32> = (0..9).collect();
    for round in 0..2 {
        r.shuffle(&mut order);
        for o in &order {
            let fut = async {
                match o {
                    0 => match l.accept().await {
                        Err(error::RaknetError::NotListen) => None,
                        x => Some(format!("accept() after close() gave {:?}", x.map(|_| "a connection"))),
                    },
                    1 => { let _ = l.local_addr(); None }
                    2 => { let _ = l.get_motd().await; None }
                    3 => { l.set_motd("a", 1, "1", "1", "s", 1).await; None }
                    4 => { let _ = l.set_full_motd("x".into()); None }
                    5 => { l.listen().await; None }
                    6 => { let _ = l.get_peer_raknet_version(&la).await; None }
                    7 => match l.close().await {
                        Ok(()) => None,
                        Err(e) => Some(format!("another close() failed with {e:?}")),
                    },
                    _ => match l.accept().await {
                        Err(error::RaknetError::NotListen) => None,
                        _ => Some("accept() after close() did not fail with NotListen".into()),
                    },
                }
            };
            let mut h = Box::pin(within(6.0, fut));
            // a panic in a call of the harness's own task is caught here
            let r = futures_catch(&mut h).await;
            let name = ["accept", "local_addr", "get_motd", "set_motd", "set_full_motd", "listen", "get_peer_raknet_version", "close", "accept"][*o as usize];
            match r {
                Ok(Some(None)) => {}
                Ok(Some(Some(e))) => c.violation("lclose:after", format!("{e}; state: {}", STATES[st]), w.clone()),
                Ok(None) => c.violation("lclose:after-hang", format!("{name}() hangs after close(); state: {}", STATES[st]), w.clone()),
                Err(()) => c.violation("lclose:panic", format!("{name}() panicked after close(); state: {}", STATES[st]), w.clone()),
            }
            if c.failed() && round > 0 {
                return;
            }
        }
    }
    c.add("listener_method_calls_after_close", 18);
    match std::net::UdpSocket::bind(la) {
        Ok(s) => drop(s),
        Err(e) => c.violation("lclose:port-again", format!("calls after close() took the port again: {e}"), w.clone()),
    }
    // a new listener on the same port works at once
    if r.chance(0.4) {
        match within(10.0, RaknetListener::bind(&la)).await {
            Some(Ok(mut l2)) => {
                l2.listen().await;
                // clients of the old listener may still be trying to connect: accept them as well
                let conn = within(25.0, RaknetSocket::connect(&la));
                tokio::pin!(conn);
                let mut got = vec![];
                let mut conn_done = None;
                let ok = within(30.0, async {
                    loop {
                        tokio::select! {
                            x = &mut conn, if conn_done.is_none() => match x {
                                Some(Ok(s)) => conn_done = Some(s),
                                x => return Err(format!("connect() gave {:?}", x.map(|r| r.map(|_| ())))),
                            },
                            x = l2.accept() => match x {
                                Ok(s) => got.push(s),
                                Err(e) => return Err(format!("accept() failed with {e:?}")),
                            },
                        }
                        if let Some(s) = &conn_done {
                            if got.iter().any(|g| g.peer_addr().ok().map(|a| a.port()) == s.local_addr().ok().map(|a| a.port())) {
                                return Ok(());
                            }
                        }
                    }
                })
                .await;
                match ok {
                    Some(Ok(())) => c.add("rebound_listeners_used", 1),
                    x => c.violation(
                        "lclose:rebind",
                        format!("a new listener on the freed port does not work: {x:?}, connected {}, {} accepted; state: {}", conn_done.is_some(), got.len(), STATES[st]),
                        w,
                    ),
                }
                drop(got);
                let _ = within(15.0, l2.close()).await;
            }
            _ => c.violation("lclose:rebind", "the freed port cannot be bound by a new listener", w),
        }
    }
}

/// Polls a future, turning a panic into Err.
pub async fn futures_catch<T>(f: &mut (impl std::future::Future<Output = T> + Unpin)) -> Result<T, ()> {
    std::future::poll_fn(|cx| {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::pin::Pin::new(&mut *f).poll(cx))) {
            Ok(std::task::Poll::Ready(x)) => std::task::Poll::Ready(Ok(x)),
            Ok(std::task::Poll::Pending) => std::task::Poll::Pending,
            Err(_) => std::task::Poll::Ready(Err(())),
        }
    })
    .await
}

/// Many idle listeners closed while every worker thread is busy: the notifications of the closing
/// tasks come early, late and in between.
async fn storm(c: C, n: usize) {
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut burners = vec![];
    for _ in 0..24 {
        let stop = stop.clone();
        burners.push(std::thread::spawn(move || {
            let mut x = 1u64;
            while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                for _ in 0..2000 {
                    x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
                }
                if x % 7 == 0 {
                    std::thread::yield_now();
                }
            }
        }));
    }
    let mut set = tokio::task::JoinSet::new();
    let mut hung = 0;
    for k in 0..n {
        while set.len() >= 96 {
            if let Some(Ok(false)) = set.join_next().await {
                hung += 1;
            }
        }
        if hung > 0 {
            break;
        }
        let c = c.clone();
        set.spawn(async move {
            let mut l = listener().await;
            for _ in 0..k % 3 {
                tokio::task::yield_now().await;
            }
            c.add("idle_listeners_closed_under_load", 1);
            within(25.0, l.close()).await.is_some()
        });
    }
    while let Some(x) = set.join_next().await {
        if let Ok(false) = x {
            hung += 1;
        }
    }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    for b in burners {
        let _ = b.join();
    }
    c.case(format!("storm {n}").as_bytes(), true);
    if hung > 0 {
        c.violation("lclose:hang", format!("{hung} of {n} close() calls of idle listeners never returned"), J::s("every thread busy"));
    }
}

/// Requests for connections arrive while the listener closes.
async fn requested_meanwhile(c: C, seed: u64) {
    let mut r = Rng::new(seed);
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let n = 1 + r.below(8);
    let socks: Vec<std::net::UdpSocket> = (0..n).filter_map(|_| std::net::UdpSocket::bind("127.0.0.1:0").ok()).collect();
    let rounds = 1 + r.below(20);
    let guid = r.next();
    let t = std::thread::spawn(move || {
        for _ in 0..rounds {
            for (i, s) in socks.iter().enumerate() {
                let _ = s.send_to(&enc_req2(la, 1400, guid + i as u64), la);
            }
        }
        socks
    });
    let spin = std::time::Instant::now();
    let us = r.below(600);
    while (spin.elapsed().as_micros() as u64) < us {
        std::hint::spin_loop();
    }
    let ok = within(20.0, l.close()).await;
    let socks = t.join();
    c.add("listeners_closed_amid_requests", 1);
    let w = J::o(vec![("seed", J::I(seed as i64)), ("clients", J::I(n as i64)), ("rounds", J::I(rounds as i64)), ("close_after_us", J::I(us as i64))]);
    if !matches!(ok, Some(Ok(()))) {
        return c.violation("lclose:hang", format!("close() returned {:?} while requests for connections arrived", ok.map(|x| x.is_ok())), w);
    }
    if let Err(e) = std::net::UdpSocket::bind(la) {
        c.violation("lclose:port", format!("the port is not free after close() amid requests: {e}"), w);
    }
    drop(socks);
}

pub async fn run(c: C) {
    let _: Option<SocketAddr> = None;
    c.rule("one case = one listener closed in one state, then every method called in two random orders; distinct by state and seed");
    let reps = c.q(8, 120);
    for (p, us) in [(0.0, 0), (0.02, 1000)] {
        set_chaos(p, us);
        let mut set = tokio::task::JoinSet::new();
        for k in 0..reps / 2 {
            for st in 0..STATES.len() {
                if set.len() >= 16 {
                    set.join_next().await;
                }
                if c.failed() {
                    break;
                }
                set.spawn(state(c.clone(), st, c.seed * 1000 + k * 2 + us as u64));
            }
        }
        while set.join_next().await.is_some() {}
    }
    for (p, us) in [(0.0, 0), (0.05, 300)] {
        set_chaos(p, us);
        let mut set = tokio::task::JoinSet::new();
        for k in 0..c.q(600, 8000) {
            if set.len() >= 4 {
                set.join_next().await;
            }
            if c.failed() {
                break;
            }
            set.spawn(requested_meanwhile(c.clone(), c.seed * 100_000 + k * 2 + us as u64 % 7));
        }
        while set.join_next().await.is_some() {}
    }
    if !c.failed() {
        set_chaos(0.0, 0);
        storm(c.clone(), c.q(20_000, 200_000) as usize).await;
    }
}
