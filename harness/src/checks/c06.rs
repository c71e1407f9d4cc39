//! C06 flush() returns Ok only when everything is acknowledged.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::sync::Arc;

async fn peer_and_lib(l: &mut RaknetListener, client_side: bool) -> Result<(Peer, RaknetSocket), String> {
    if client_side {
        raw_server(1400).await
    } else {
        raw_client(l, 10, 1400).await
    }
}

/// The peer acknowledges everything except one frame.
async fn withhold(c: C, j: u32, client_side: bool, secs: f64) {
    let mut l = listener().await;
    let (p, s) = match peer_and_lib(&mut l, client_side).await {
        Ok(x) => x,
        Err(e) => {
            c.violation("flush:connect", e, J::s("withhold"));
            return;
        }
    };
    let s = Arc::new(s);
    // handshake frames of the library must be acknowledged first
    if within(10.0, s.flush()).await.map(|r| r.is_ok()) != Some(true) {
        c.violation("flush:idle", "flush() on an idle connection did not return Ok", J::s(format!("client_side={client_side}")));
        return;
    }
    let base = p.with(|s| s.frames.iter().filter(|f| is_reliable(f.2.rel)).map(|f| f.2.ridx + 1).max().unwrap_or(0));
    let held = base + j;
    p.with(|s| s.hold_ridx.insert(held));
    // nine reliable frames: a lone one, a split message of four, and four more
    let plan: &[(u8, usize)] =
        &[(RELIABLE, 40), (ORDERED, 1340 * 3 + 7), (UNRELIABLE, 30), (REL_SEQ, 100), (ORDERED, 50), (RELIABLE, 60), (REL_SEQ, 33)];
    for (i, (rel, n)) in plan.iter().enumerate() {
        let k = Key::new(0, 0, *rel, i as u32, *n);
        if s.send(&k.bytes(), rel_of(*rel)).await.is_err() {
            c.violation("flush:send", "send() failed on an open connection", J::s(format!("{k:?}")));
            return;
        }
    }
    let s2 = s.clone();
    let h = tokio::spawn(async move { s2.flush().await });
    lsleep(secs).await;
    let w = J::o(vec![
        ("withheld_frame", J::I(j as i64)),
        ("library_is", J::s(if client_side { "client" } else { "server" })),
        ("messages", J::s(format!("{plan:?}"))),
    ]);
    if h.is_finished() {
        let r = h.await;
        c.violation("flush:early", format!("flush() returned {r:?} although reliable frame {j} was not acknowledged"), w);
        return;
    }
    let before = p.with(|s| s.frames.iter().filter(|f| is_reliable(f.2.rel) && f.2.ridx == held).count());
    c.add("resends_seen_while_withheld", before as i64);
    p.with(|s| s.hold_ridx.clear());
    match within(25.0, h).await {
        Some(Ok(Ok(()))) => {
            if p.user_count() != plan.len() {
                c.violation("flush:incomplete", format!("flush() returned Ok but the peer has {} of {} messages", p.user_count(), plan.len()), w);
            }
        }
        Some(r) => c.violation("flush:error", format!("flush() returned {r:?} on an open connection"), w),
        None => c.violation("flush:hang", "flush() did not return after everything was acknowledged", w),
    }
    c.case(format!("withhold {j} {client_side} {secs} {before}").as_bytes(), before > 0);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Everything is acknowledged in one datagram, number by number.
async fn one_ack(c: C, n: u32, client_side: bool) {
    let mut l = listener().await;
    let Ok((p, s)) = peer_and_lib(&mut l, client_side).await else {
        return c.violation("flush:connect", "no connection", J::s("one_ack"));
    };
    let _ = within(10.0, s.flush()).await;
    p.with(|s| s.auto_ack = false);
    let w = J::o(vec![("numbers_in_the_acknowledgement", J::I(n as i64)), ("library_is", J::s(if client_side { "client" } else { "server" }))]);
    // the first one holds the others back, they go out together
    for i in 0..=n {
        let m = Key::new(0, 0, RELIABLE, i, 30).bytes();
        if within(5.0, s.send(&m, Reliability::Reliable)).await.map(|r| r.is_ok()) != Some(true) {
            return c.violation("flush:send", "send() failed on an open connection", w);
        }
    }
    let mine = |p: &Peer| p.with(|s| s.frames.iter().filter(|f| f.2.rel == RELIABLE).map(|f| (f.2.ridx, f.1)).collect::<std::collections::BTreeMap<_, _>>());
    wait_until(5.0, || !mine(&p).is_empty()).await;
    for (_, q) in mine(&p) {
        p.raw(&enc_ack(ACK, &[(q, q)])).await;
    }
    wait_until(10.0, || mine(&p).len() > n as usize).await;
    // some were sent again meanwhile: any number will do
    let all: Vec<(u32, u32)> = mine(&p).values().map(|q| (*q, *q)).collect();
    let mut ok = false;
    for _ in 0..3 {
        p.raw(&enc_ack(ACK, &all)).await;
        ok |= within(1.5, s.flush()).await.map(|r| r.is_ok()) == Some(true);
        if ok {
            break;
        }
    }
    c.max("numbers_in_one_acknowledgement", all.len() as i64);
    c.case(format!("one_ack {n} {client_side}").as_bytes(), all.len() > n as usize);
    if !ok {
        c.violation("flush:hang", format!("flush() did not return although one datagram acknowledged all {} frames", all.len()), w);
    }
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// The connection closes while flush() waits.
async fn closing(c: C, how: u32, client_side: bool) {
    let mut l = listener().await;
    let Ok((p, s)) = peer_and_lib(&mut l, client_side).await else {
        c.violation("flush:connect", "no connection", J::s("closing"));
        return;
    };
    let s = Arc::new(s);
    let _ = within(10.0, s.flush()).await;
    p.with(|s| s.auto_ack = false);
    for i in 0..3 {
        let _ = s.send(&Key::new(0, 0, ORDERED, i, 50).bytes(), Reliability::ReliableOrdered).await;
    }
    let s2 = s.clone();
    let h = tokio::spawn(async move { s2.flush().await });
    lsleep(0.25).await;
    match how {
        0 => {
            let _ = within(5.0, s.close()).await;
        }
        1 => {
            for _ in 0..3 {
                p.raw(&[0x15]).await;
            }
        }
        2 => {
            let f = p.frame(ORDERED, &[0x15]);
            p.send(&[f]).await;
        }
        _ => {
            if client_side {
                p.raw(&[0x15]).await;
            } else {
                let _ = within(15.0, l.close()).await;
            }
        }
    }
    let w = J::o(vec![("how", J::I(how as i64)), ("client_side", J::B(client_side))]);
    match within(12.0, h).await {
        Some(Ok(Err(rust_raknet::error::RaknetError::ConnectionClosed))) => {}
        Some(r) => c.violation("flush:closed-result", format!("flush() returned {r:?} when the connection closed first"), w.clone()),
        None => c.violation("flush:hang-on-close", "flush() kept waiting after the connection closed", w.clone()),
    }
    match within(5.0, s.flush()).await {
        Some(Err(rust_raknet::error::RaknetError::ConnectionClosed)) => {}
        r => c.violation("flush:after-close", format!("flush() on a closed connection returned {r:?}"), w),
    }
    c.case(format!("closing {how} {client_side}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// After flush() == Ok the sender is dropped or closed at once; everything must have arrived.
async fn then_drop(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0xF1, k);
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), r.next()).await;
    let Ok((cl, sv)) = lib_pair(Some(&px), &mut l).await else {
        c.violation("flush:connect", "no connection", J::s("then_drop"));
        return;
    };
    let from_client = r.chance(0.5);
    let (tx, rx) = if from_client { (cl, sv) } else { (sv, cl) };
    let app = App::new(rx);
    px.set(NetCfg::random(&mut r));
    let mut want = vec![];
    let rounds = 1 + r.below(3);
    let mut idx = 0;
    for round in 0..rounds {
        for _ in 0..r.range(1, 25) {
            let rel = *r.pick(&[RELIABLE, ORDERED, ORDERED, UNRELIABLE, REL_SEQ]);
            let n = if rel == ORDERED { r.range(15, 8000) } else { r.range(15, 1000) };
            let key = Key::new(0, 0, rel, idx, n as usize);
            idx += 1;
            if tx.send(&key.bytes(), rel_of(rel)).await.is_err() {
                c.violation("flush:send", "send() failed on an open connection", J::s(format!("{key:?}")));
                return;
            }
            if matches!(rel, RELIABLE | ORDERED) {
                want.push(key.bytes());
            }
        }
        match within(60.0, tx.flush()).await {
            Some(Ok(())) => {}
            x => {
                c.violation("flush:stuck", format!("flush() under losses returned {x:?}"), J::s(format!("{:?}", px.st.lock().unwrap().cfg)));
                return;
            }
        }
        c.add("flushes_completed_under_faults", 1);
        if round + 1 < rounds {
            // the acknowledgement is sent after delivery has been decided; the application may lag
            wait_until(3.0, || want.iter().all(|m| app.has(m))).await;
        }
    }
    let net = px.st.lock().unwrap().cfg.clone();
    match r.below(3) {
        0 => {
            let _ = tx.close().await;
        }
        _ => drop(tx),
    }
    wait_until(4.0, || want.iter().all(|m| app.has(m))).await;
    let miss = want.iter().filter(|m| !app.has(m)).count();
    if miss > 0 {
        c.violation("flush:lost", format!("{miss} of {} messages never arrived although flush() had returned Ok", want.len()), J::o(vec![("net", J::s(format!("{net:?}"))), ("from_client", J::B(from_client))]));
    }
    c.case(&px.trace().iter().flat_map(|t| vec![t.dir, t.copies, t.bytes[0]]).collect::<Vec<u8>>(), true);
    c.add("messages_flushed", want.len() as i64);
    drop(app);
    let _ = within(15.0, l.close()).await;
}

/// The application reads nothing and more arrives than is kept for it; what it sends is acknowledged.
async fn unread(c: C, client_side: bool, n: u32) {
    let mut l = listener().await;
    let (p, s) = match peer_and_lib(&mut l, client_side).await {
        Ok(x) => x,
        Err(e) => return c.violation("flush:connect", e, J::s("unread")),
    };
    let w = || J::o(vec![("client_side", J::B(client_side)), ("unread", J::I(n as i64))]);
    for i in 0..n {
        let f = p.frame(RELIABLE, &Key::new(0, 0, RELIABLE, i, 20).bytes());
        p.send(&[f]).await;
        if i % 20 == 19 {
            lsleep(0.01).await;
        }
    }
    for i in 0..30u32 {
        let (rel, len) = if i % 3 == 0 { (ORDERED, 3000) } else { (RELIABLE, 50) };
        if within(5.0, s.send(&Key::new(0, 1, rel, i, len).bytes(), rel_of(rel))).await.map(|r| r.is_ok()) != Some(true) {
            return c.violation("flush:send", "send() failed while the application does not read", w());
        }
        if i % 10 == 9 {
            match within(12.0, s.flush()).await {
                Some(Ok(())) => {}
                x => return c.violation("flush:hang", format!("flush() gave {x:?} in 12 s although everything is acknowledged; the application does not read"), w()),
            }
        }
    }
    if p.user_count() != 30 {
        c.violation("flush:incomplete", format!("flush() returned Ok but the peer has {} of 30 messages", p.user_count()), w());
    }
    c.case(format!("unread {client_side} {n}").as_bytes(), true);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one withheld frame, close variant, or lossy flush-then-drop run; distinct by scenario and observed resends, or by the observed datagram history");
    set_chaos(0.01, 300);
    let mut set = tokio::task::JoinSet::new();
    let mut long = tokio::task::JoinSet::new();
    for secs in if c.thorough { vec![3.0, 8.0, 20.0, 50.0] } else { vec![15.0] } {
        for side in [false, true] {
            for j in [0, 2, 5] {
                long.spawn(withhold(c.clone(), j, side, secs));
            }
        }
    }
    for side in [false, true] {
        for n in [200, 1100, 2500] {
            long.spawn(unread(c.clone(), side, n));
        }
        for n in [60, 200, 450] {
            long.spawn(one_ack(c.clone(), n, side));
        }
    }
    for rep in 0..c.q(2, 20) {
        let _ = rep;
        for side in [false, true] {
            for j in 0..9 {
                set.spawn(withhold(c.clone(), j, side, 0.8));
            }
            for how in 0..4 {
                set.spawn(closing(c.clone(), how, side));
            }
        }
        if rep % 4 == 3 {
            while set.join_next().await.is_some() {}
        }
    }
    for k in 0..c.q(60, 1500) {
        if set.len() >= 70 {
            set.join_next().await;
        }
        set.spawn(then_drop(c.clone(), k));
    }
    while set.join_next().await.is_some() {}
    while long.join_next().await.is_some() {}
}
