//! C18 Dead peers are detected, live ones are kept.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::time::Duration;

const TIMEOUT: f64 = 60.0;

/// The peer falls silent; `pending` leaves a message unacknowledged, `unread` an unread connection.
async fn dead(c: C, client_side: bool, pending: bool, accept: bool) {
    let w = J::o(vec![
        ("library_is", J::s(if client_side { "client" } else { "server" })),
        ("unacknowledged_data", J::B(pending)),
        ("accepted", J::B(accept)),
    ]);
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let mut app = None;
    let p = if client_side {
        match raw_server(1400).await {
            Ok((p, s)) => {
                app = Some(App::new(s));
                p
            }
            Err(e) => return c.violation("timeout:setup", e, w),
        }
    } else if accept {
        match raw_client(&mut l, 10, 1400).await {
            Ok((p, s)) => {
                app = Some(App::new(s));
                p
            }
            Err(e) => return c.violation("timeout:setup", e, w),
        }
    } else {
        let p = Peer::new(Role::Client).await;
        if let Err(e) = p.connect(la, 10, 1400).await {
            return c.violation("timeout:setup", e, w);
        }
        p
    };
    lsleep(0.3).await;
    // one last datagram, then silence
    p.with(|s| s.auto_ack = false);
    let m = Key::new(0, 0, ORDERED, 0, 40).bytes();
    let f = p.frame(ORDERED, &m);
    p.send(&[f]).await;
    let (t0, k0) = (now_ms(), ticks());
    let mut flusher = None;
    if let (Some(a), true) = (&app, pending) {
        let _ = a.s.send(&Key::new(0, 1, ORDERED, 0, 40).bytes(), Reliability::ReliableOrdered).await;
        let s = a.s.clone();
        flusher = Some(tokio::spawn(async move { s.flush().await }));
    }
    c.case(format!("dead {client_side} {pending} {accept}").as_bytes(), true);
    if let Some(a) = &app {
        wait_until(TIMEOUT + 15.0, || a.ended().is_some()).await;
        let Some((at, e)) = a.ended() else {
            return c.violation("timeout:never", format!("recv() still waits {:.0} s after the peer fell silent", (ticks() - k0) as f64 / 100.0), w);
        };
        let secs = (at - t0) / 1000.0;
        c.max("latest_timeout_ms", (secs * 1000.0) as i64);
        c.max("earliest_timeout_ms_negated", -(secs * 1000.0) as i64);
        if secs < TIMEOUT - 3.0 {
            c.violation("timeout:early", format!("the connection was closed {secs:.1} s after the peer's last datagram ({e})"), w.clone());
        }
        if !a.has(&m) {
            c.violation("timeout:lost", "the peer's last message was not delivered", w.clone());
        }
        if !matches!(within(5.0, a.s.send(&m, Reliability::ReliableOrdered)).await, Some(Err(error::RaknetError::ConnectionClosed))) {
            c.violation("timeout:send", "send() works on after the timeout", w.clone());
        }
        if let Some(h) = flusher {
            if !matches!(within(5.0, h).await, Some(Ok(Err(error::RaknetError::ConnectionClosed)))) {
                c.violation("timeout:flush", "flush() did not fail with ConnectionClosed at the timeout", w.clone());
            }
        }
    } else {
        lsleep(TIMEOUT + 8.0).await;
    }
    if !client_side {
        // the session is freed: the same address connects anew
        lsleep(2.0).await;
        if !accept {
            // the dead connection is still in the backlog; take it out
            match within(3.0, l.accept()).await {
                Some(Ok(s)) => {
                    let mut ended = false;
                    for _ in 0..3 {
                        match within(3.0, s.recv()).await {
                            Some(Err(_)) => ended = true,
                            Some(Ok(_)) => continue,
                            None => {}
                        }
                        break;
                    }
                    if !ended {
                        c.violation("timeout:backlog", "a connection that died unaccepted is still alive", w.clone());
                    }
                }
                _ => {}
            }
        }
        p.reset();
        p.with(|s| s.auto_ack = true);
        let (a, s) = tokio::join!(p.connect(la, 10, 1400), within(20.0, l.accept()));
        match (a, s) {
            (Ok(()), Some(Ok(s))) => {
                let app = App::new(s);
                let m = Key::new(0, 0, ORDERED, 5, 40).bytes();
                if !p.msg(ORDERED, &m).await || !app.expect(&m, 5.0).await {
                    c.violation("timeout:again", "a new connection after the timeout does not work", w);
                }
            }
            (a, _) => c.violation("timeout:session", format!("the address whose connection timed out cannot connect again: {a:?}"), w),
        }
    }
    let _ = within(15.0, l.close()).await;
}

/// The peer sends one datagram of `kind` every `gap` seconds and nothing else.
async fn alive(c: C, client_side: bool, kind: u32, gap: f64, total: f64) {
    let name = ["frames with a ping", "a repeated datagram", "ack", "nack", "a user message", "unreliable frame"][kind as usize];
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("traffic", J::s(name)), ("every_s", J::F(gap))]);
    let mut l = listener().await;
    let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match r {
        Ok(x) => x,
        Err(e) => return c.violation("timeout:setup", e, w),
    };
    let app = App::new(s);
    p.with(|s| s.auto_ack = true);
    let t0 = ticks();
    let mut old: Option<Vec<u8>> = None;
    let mut n = 0;
    while (ticks() - t0) as f64 / 100.0 < total {
        n += 1;
        match kind {
            0 => {
                let f = p.frame(UNRELIABLE, &enc_conn_ping(n));
                p.send(&[f]).await;
            }
            1 => {
                if old.is_none() {
                    let f = p.frame(ORDERED, &Key::new(0, 0, ORDERED, 0, 30).bytes());
                    old = Some(enc_frames(p.next_seq(), &[f]));
                }
                p.raw(old.as_ref().unwrap()).await;
            }
            2 => p.raw(&enc_ack(ACK, &[(0, 0)])).await,
            3 => p.raw(&enc_ack(NACK, &[(0, 0)])).await,
            4 => {
                let f = p.frame(ORDERED, &Key::new(0, 0, ORDERED, n as u32, 30).bytes());
                p.send(&[f]).await;
            }
            _ => {
                let f = p.frame(UNRELIABLE, &Key::new(0, 0, UNRELIABLE, n as u32, 30).bytes());
                p.send(&[f]).await;
            }
        }
        c.add("keepalive_datagrams_sent", 1);
        lsleep(gap).await;
        if let Some((_, e)) = app.ended() {
            c.violation("timeout:killed", format!("a connection whose peer sends {name} every {gap} s was closed: {e}"), w);
            return;
        }
    }
    let m = Key::new(0, 1, ORDERED, 1, 60).bytes();
    let ok = within(5.0, app.s.send(&m, Reliability::ReliableOrdered)).await.map(|r| r.is_ok()) == Some(true);
    if !ok || !wait_until(5.0, || p.user_count() > 0).await {
        c.violation("timeout:killed", format!("a connection whose peer sends {name} every {gap} s no longer works"), w);
    }
    c.case(format!("alive {client_side} {kind} {gap}").as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// The application does not read, its backlog is full and the peer goes on sending messages.
async fn unread(c: C, client_side: bool, total: f64) {
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("traffic", J::s("messages nobody reads"))]);
    let mut l = listener().await;
    let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match r {
        Ok(x) => x,
        Err(e) => return c.violation("timeout:setup", e, w),
    };
    for i in 0..1300u32 {
        let f = p.frame(UNRELIABLE, &Key::new(0, 0, UNRELIABLE, i, 30).bytes());
        p.send(&[f]).await;
        if i % 20 == 19 {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    let t0 = ticks();
    let mut i = 2000;
    while (ticks() - t0) as f64 / 100.0 < total {
        lsleep(20.0).await;
        let f = p.frame(UNRELIABLE, &Key::new(0, 0, UNRELIABLE, i, 30).bytes());
        p.send(&[f]).await;
        i += 1;
        c.add("keepalive_datagrams_sent", 1);
    }
    c.case(format!("unread {client_side}").as_bytes(), true);
    let back = Key::new(0, 1, ORDERED, 1, 60).bytes();
    let sent = within(5.0, s.send(&back, Reliability::ReliableOrdered)).await.map(|r| r.is_ok());
    if sent != Some(true) || !wait_until(5.0, || p.user_count() > 0).await {
        c.violation("timeout:killed", "a connection whose peer sends messages which the application does not read was closed", w.clone());
    }
    let app = App::new(s);
    if !wait_until(10.0, || app.count() > 500).await || app.ended().is_some() {
        c.violation("timeout:killed", "what was received on an unread connection is gone", w);
    }
    let _ = within(15.0, l.close()).await;
}

/// A library connection whose application only receives is kept by its peer's messages.
async fn lib_one_way(c: C, from_client: bool, total: f64) {
    let mut l = listener().await;
    let Ok((a, b)) = lib_pair(None, &mut l).await else { return c.violation("timeout:setup", "lib pair", J::s("")) };
    let (tx, rx) = if from_client { (App::new(a), App::new(b)) } else { (App::new(b), App::new(a)) };
    let t0 = ticks();
    let mut i = 0;
    while (ticks() - t0) as f64 / 100.0 < total {
        let m = Key::new(0, 0, ORDERED, i, 50).bytes();
        i += 1;
        let ok = within(5.0, tx.s.send(&m, Reliability::ReliableOrdered)).await.map(|r| r.is_ok()) == Some(true);
        if !ok || !rx.expect(&m, 5.0).await {
            c.violation("timeout:one-way", "a connection used in one direction only was lost", J::B(from_client));
            return;
        }
        lsleep(25.0).await;
    }
    c.case(format!("one way {from_client}").as_bytes(), true);
    let _ = within(5.0, tx.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one silent peer (side, pending data, accepted or not) or one kind of sparse traffic at one interval; distinct by parameters");
    let mut set = tokio::task::JoinSet::new();
    let total = c.q(100, 400) as f64;
    for pending in [false, true] {
        set.spawn(dead(c.clone(), true, pending, true));
        set.spawn(dead(c.clone(), false, pending, true));
    }
    set.spawn(dead(c.clone(), false, false, false));
    for side in [false, true] {
        for kind in 0..6 {
            set.spawn(alive(c.clone(), side, kind, 48.0, total));
            if c.thorough {
                set.spawn(alive(c.clone(), side, kind, 20.0, total));
                set.spawn(alive(c.clone(), side, kind, 55.0, total));
            }
        }
        set.spawn(unread(c.clone(), side, total));
        set.spawn(lib_one_way(c.clone(), side, total));
    }
    while set.join_next().await.is_some() {}
    let _ = Duration::from_secs(0);
}
