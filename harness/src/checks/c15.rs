//! C15 Closing a connection.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::sync::Arc;
use std::time::Duration;

fn closed<T>(r: &Option<Result<T, error::RaknetError>>) -> bool {
    matches!(r, Some(Err(error::RaknetError::ConnectionClosed)))
}
fn show<T>(r: &Option<Result<T, error::RaknetError>>) -> String {
    match r {
        None => "did not return".into(),
        Some(Ok(_)) => "Ok".into(),
        Some(Err(e)) => format!("{e:?}"),
    }
}

/// What a closed end must answer from now on. `recv` must fail only once drained.
async fn after_close(c: &C, who: &str, s: &RaknetSocket, w: &J) {
    let m = Key::new(0, 0, ORDERED, 9999, 50).bytes();
    for rel in 0..5u8 {
        let r = within(6.0, s.send(&m, rel_of(rel))).await;
        if !closed(&r) {
            c.violation("close:send", format!("send() with reliability {rel} at the {who} gave {} instead of ConnectionClosed", show(&r)), w.clone());
            return;
        }
    }
    let r = within(6.0, s.flush()).await;
    if !closed(&r) {
        c.violation("close:flush", format!("flush() at the {who} gave {} instead of ConnectionClosed", show(&r)), w.clone());
    }
    for _ in 0..2 {
        let r = within(6.0, s.close()).await;
        if !matches!(r, Some(Ok(()))) {
            c.violation("close:again", format!("another close() at the {who} gave {}", show(&r)), w.clone());
        }
    }
}
/// Drains recv() until it fails; None if it hangs.
async fn drain(s: &RaknetSocket, secs: f64) -> Option<(Vec<Vec<u8>>, String)> {
    let mut v = vec![];
    loop {
        match within(secs, s.recv()).await {
            Some(Ok(m)) => v.push(m),
            Some(Err(e)) => return Some((v, format!("{e:?}"))),
            None => return None,
        }
    }
}

/// One end closes after messages were exchanged, on a more or less bad network.
async fn lib_close(c: C, k: u64, seed: u64) {
    let mut r = Rng::derive(seed, 15, k);
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), r.next()).await;
    let Ok((cl, sv)) = lib_pair(Some(&px), &mut l).await else {
        return c.violation("close:setup", "no connection", J::I(k as i64));
    };
    let client_closes = r.chance(0.5);
    let via_drop = r.chance(0.2);
    let (a, b) = if client_closes { (cl, sv) } else { (sv, cl) };
    let dir = if client_closes { 0u8 } else { 1 };
    let net = match r.below(4) {
        0 => NetCfg::clean(),
        1 => NetCfg { drop: 0.1, ..Default::default() },
        2 => NetCfg { drop: 0.3, dup: 0.1, ..Default::default() },
        _ => NetCfg { dup: 0.2, delay: 0.4, max_delay_ms: 60, ..Default::default() },
    };
    px.set(net.clone());
    let flushed = r.chance(0.6);
    let idle = r.chance(0.2);
    let reader_waiting = r.chance(0.5);
    let w = J::o(vec![
        ("closer", J::s(if client_closes { "client" } else { "server" })),
        ("network", J::s(format!("{net:?}"))),
        ("flush_before_close", J::B(flushed)),
        ("closed_by_drop", J::B(via_drop)),
        ("case", J::I(k as i64)),
    ]);
    let b = Arc::new(b);
    let mut early = vec![];
    // the other end may already be waiting in recv()
    let waiter = if reader_waiting {
        let b2 = b.clone();
        Some(tokio::spawn(async move { drain(&b2, 60.0).await }))
    } else {
        None
    };
    let a = Arc::new(a);
    let a_waiter = if !via_drop && r.chance(0.5) {
        let a2 = a.clone();
        Some(tokio::spawn(async move { drain(&a2, 60.0).await }))
    } else {
        None
    };
    let mut want = vec![];
    if !idle {
        // fewer than the receive buffer holds, since nobody may be reading
        for i in 0..r.range(1, 60) as u32 {
            let m = Key::new(0, dir, ORDERED, i, r.range(15, 3000) as usize).bytes();
            if a.send(&m, Reliability::ReliableOrdered).await.is_err() {
                return c.violation("close:presend", "send() failed before any close", w);
            }
            want.push(m);
        }
        if flushed {
            match within(40.0, a.flush()).await {
                Some(Ok(())) => {}
                x => return c.violation("close:preflush", format!("flush() before close gave {}", show(&x)), w),
            }
        }
        let m = Key::new(0, 1 - dir, ORDERED, 0, 60).bytes();
        if within(5.0, b.send(&m, Reliability::ReliableOrdered)).await.map(|r| r.is_ok()) == Some(true)
            && within(40.0, b.flush()).await.map(|r| r.is_ok()) == Some(true)
        {
            early.push(m);
        }
    }
    let t0 = ticks();
    let mut a = Some(a);
    if via_drop {
        drop(a.take());
    } else {
        let r = within(6.0, a.as_ref().unwrap().close()).await;
        if !matches!(r, Some(Ok(()))) {
            return c.violation("close:result", format!("close() gave {}", show(&r)), w);
        }
        let a = a.as_ref().unwrap();
        after_close(&c, "closing end", a, &w).await;
        let d = match a_waiter {
            Some(h) => h.await.ok().flatten(),
            None => drain(a, 8.0).await,
        };
        match d {
            None => c.violation("close:recv-hang", "recv() at the closing end hangs after close()", w.clone()),
            Some((v, _)) => {
                if v != early {
                    c.violation("close:recv-lost", format!("the closing end got {} of the {} messages that had arrived before close()", v.len(), early.len()), w.clone());
                }
            }
        }
    }
    // the peer learns of it
    let d = match waiter {
        Some(h) => within(25.0, h).await.and_then(|x| x.ok()).flatten(),
        None => {
            if r.chance(0.5) {
                // leaves the messages unread until well after the close
                lsleep(1.0).await;
            }
            drain(&b, 15.0).await
        }
    };
    let took = (ticks() - t0) as f64 / 100.0;
    c.max("slowest_peer_notice_ms", (took * 1000.0) as i64);
    match d {
        None => c.violation("close:peer-hang", format!("the peer's recv() still waits {took:.0} s after the close"), w.clone()),
        Some((v, _)) => {
            let prefix = v.len() <= want.len() && v[..] == want[..v.len()];
            if !prefix {
                c.violation("close:peer-data", "the peer received something else than the messages sent before the close", w.clone());
            } else if flushed && v.len() < want.len() {
                c.violation("close:peer-lost", format!("the peer's recv() returned {} of {} messages acknowledged before the close", v.len(), want.len()), w.clone());
            }
            c.add("messages_received_around_close", v.len() as i64);
            after_close(&c, "peer", &b, &w).await;
        }
    }
    let gone = px.st.lock().unwrap().trace.iter().filter(|t| t.bytes == [0x15]).count();
    c.add("disconnect_datagrams_seen", gone as i64);
    c.case(format!("{client_closes} {via_drop} {flushed} {idle} {reader_waiting} {net:?} {}", want.len()).as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// close() races with every other call at both ends.
async fn race(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x1515, k);
    let mut l = listener().await;
    let Ok((cl, sv)) = lib_pair(None, &mut l).await else {
        return c.violation("close:setup", "no connection", J::I(k as i64));
    };
    let ends = [Arc::new(cl), Arc::new(sv)];
    let mut set = tokio::task::JoinSet::new();
    for e in 0..2usize {
        for t in 0..r.range(2, 6) {
            let s = ends[e].clone();
            let big = *r.pick(&[20usize, 5000, 30_000]);
            set.spawn(async move {
                // an endless backlog would only measure the machine
                for i in 0..(3_000_000 / big as u32).min(10_000) {
                    let m = Key { task: t as u8, ..Key::new(0, e as u8, ORDERED, i, big) }.bytes();
                    if s.send(&m, Reliability::ReliableOrdered).await.is_err() {
                        return "send";
                    }
                    if i % 64 == 63 {
                        tokio::task::yield_now().await;
                    }
                }
                "send"
            });
        }
        for _ in 0..2 {
            let s = ends[e].clone();
            set.spawn(async move {
                while s.recv().await.is_ok() {}
                "recv"
            });
            let s = ends[e].clone();
            set.spawn(async move {
                while s.flush().await.is_ok() {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                "flush"
            });
        }
    }
    tokio::time::sleep(Duration::from_millis(r.below(60))).await;
    for _ in 0..r.range(1, 4) {
        let s = ends[r.below(2) as usize].clone();
        set.spawn(async move {
            let _ = s.close().await;
            "close"
        });
    }
    let end = ticks() + 2500;
    let mut left = vec![];
    while !set.is_empty() {
        match within(1.0, set.join_next()).await {
            Some(Some(Ok(n))) => left.push(n),
            Some(Some(Err(_))) => {
                if lib_panics() > 0 {
                    let p = &lib_panic_records()[0];
                    c.violation("close:panic", format!("a call racing with close() panicked at {}: {}", p.at, p.msg), J::I(k as i64));
                    return;
                }
            }
            Some(None) => break,
            None if ticks() > end => {
                c.violation("close:race-hang", format!("{} calls still hang 25 s after close(); returned: {left:?}", set.len()), J::I(k as i64));
                return;
            }
            None => {}
        }
    }
    c.add("calls_racing_with_close", left.len() as i64);
    c.case(format!("race {k} {:?}", left).as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// A raw peer ends the connection in every way a peer can, or hears how the library does.
async fn raw_end(c: C, how: u32, client_side: bool) {
    let mut l = listener().await;
    let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = r else { return c.violation("close:setup", "no connection", J::I(how as i64)) };
    let w = J::o(vec![("how", J::I(how as i64)), ("library_is", J::s(if client_side { "client" } else { "server" }))]);
    let mut want = vec![];
    for i in 0..20 {
        let m = Key::new(0, 0, ORDERED, i, 80).bytes();
        p.msg(ORDERED, &m).await;
        want.push(m);
    }
    let in_frame = |rel: u8| {
        let f = p.frame(rel, &[0x15]);
        async { let s = p.send(&[f]).await; s }
    };
    match how {
        0 => p.raw(&[0x15]).await,
        1 => { in_frame(ORDERED).await; }
        2 => { in_frame(RELIABLE).await; }
        3 => { in_frame(UNRELIABLE).await; }
        _ => {
            // the library closes; we never acknowledge anything
            p.with(|s| s.auto_ack = false);
            if !matches!(within(6.0, s.close()).await, Some(Ok(()))) {
                c.violation("close:result", "close() failed", w.clone());
            }
            if !wait_until(5.0, || p.with(|s| s.disconnects > 0)).await {
                c.violation("close:silent", "close() did not tell the peer", w.clone());
            }
            lsleep(1.0).await;
            let n = p.with(|s| s.log.len());
            lsleep(2.0).await;
            let m = p.with(|s| s.log.len());
            if m != n {
                c.violation("close:talks-on", format!("{} datagrams sent more than a second after close()", m - n), w.clone());
            }
        }
    }
    let d = drain(&s, 10.0).await;
    match d {
        None => c.violation("close:peer-hang", "recv() hangs after the peer disconnected", w.clone()),
        Some((v, _)) if v != want => c.violation("close:recv-lost", format!("recv() returned {} of {} messages that had arrived", v.len(), want.len()), w.clone()),
        _ => after_close(&c, "end", &s, &w).await,
    }
    c.case(format!("raw {how} {client_side}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// The peer ends the connection while this end is busy sending a large backlog and has no room for what arrives.
async fn busy_end(c: C, client_side: bool) {
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else { return c.violation("close:setup", "no connection", J::B(client_side)) };
    let _ = within(10.0, s.flush()).await;
    p.with(|s| {
        s.auto_ack = false;
        s.frames.clear();
    });
    let n = 60_000u32;
    for i in 0..n {
        if !matches!(s.send(&Key::new(0, 0, RELIABLE, i, 40).bytes(), Reliability::Reliable).await, Ok(())) {
            return c.violation("close:setup", "send() failed", J::B(client_side));
        }
    }
    // the first holds up the others
    let mut left = false;
    for _ in 0..100 {
        let Some(q) = p.with(|s| s.frames.iter().map(|f| f.1).max()) else {
            lsleep(0.05).await;
            continue;
        };
        p.raw(&enc_ack(ACK, &[(q, q)])).await;
        if wait_until(0.3, || p.with(|s| s.frames.len() > 50)).await {
            left = true;
            break;
        }
    }
    if !left {
        return c.violation("close:setup", "a backlog did not leave", J::B(client_side));
    }
    for _ in 0..700 {
        p.raw(&enc_ack(ACK, &[(0, 0)])).await;
    }
    for _ in 0..10 {
        p.raw(&[0x15]).await;
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("messages_outstanding", J::I(n as i64))]);
    match drain(&s, 20.0).await {
        None => c.violation("close:busy-hang", "an end that was busy sending does not learn of its peer's ten Disconnects", w),
        Some(_) => after_close(&c, "busy end", &s, &w).await,
    }
    c.case(format!("busy {client_side}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one connection closed or dropped by one end under one network, with what each call at both ends did; or one storm of calls racing with close(); distinct by parameters");
    let mut set = tokio::task::JoinSet::new();
    for side in [false, true] {
        for how in 0..5 {
            set.spawn(raw_end(c.clone(), how, side));
        }
    }
    while set.join_next().await.is_some() {}
    for k in 0..c.q(4, 40) {
        set.spawn(busy_end(c.clone(), k % 4 != 3));
        if k % 2 == 1 {
            set.join_next().await;
        }
    }
    while set.join_next().await.is_some() {}
    for k in 0..c.q(80, 1500) {
        if set.len() >= 24 {
            set.join_next().await;
        }
        if c.failed() {
            break;
        }
        set.spawn(lib_close(c.clone(), k, c.seed));
    }
    while set.join_next().await.is_some() {}
    for (p, us) in [(0.0, 0), (0.02, 1500), (0.2, 200)] {
        set_chaos(p, us);
        let mut set = tokio::task::JoinSet::new();
        for k in 0..c.q(20, 300) {
            if set.len() >= 5 {
                set.join_next().await;
            }
            if c.failed() {
                break;
            }
            set.spawn(race(c.clone(), k + us as u64 * 1000));
        }
        while set.join_next().await.is_some() {}
    }
}
