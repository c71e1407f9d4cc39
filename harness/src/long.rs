//! Scenarios with much outstanding at once, shared by several checks.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::time::Duration;

/// Sends every frame in a datagram of its own, in this order, and repeats what is not acknowledged.
async fn all_acked(p: &Peer, frames: &[Frame], secs: f64) -> bool {
    let mut left: Vec<(u32, usize)> = vec![];
    for (i, f) in frames.iter().enumerate() {
        left.push((p.send(std::slice::from_ref(f)).await, i));
        if i % 20 == 19 {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    let end = ticks() + (secs * 100.0) as u64;
    loop {
        lsleep(0.1).await;
        left.retain(|x| !p.is_acked(x.0));
        if left.is_empty() {
            return true;
        }
        if ticks() > end {
            return false;
        }
        for (k, x) in left.iter().enumerate() {
            p.raw(&enc_frames(x.0, std::slice::from_ref(&frames[x.1]))).await;
            if k % 20 == 19 {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
    }
}

/// A peer's first frame arrives after `n` later ones: as messages, or (split) as parts of one message.
pub async fn held_first(c: C, rel: u8, n: u32, split: bool, client_side: bool) {
    let w = J::o(vec![
        ("reliability", J::I(rel as i64)),
        ("frames", J::I(n as i64)),
        ("parts_of_one_message", J::B(split)),
        ("library_is", J::s(if client_side { "client" } else { "server" })),
    ]);
    let mut l = listener().await;
    let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match r {
        Ok(x) => x,
        Err(e) => return c.violation("workload:stuck", format!("could not connect: {e}"), w),
    };
    let app = App::new(s);
    p.with(|s| s.keep_log = false);
    let mut want: Vec<Vec<u8>> = vec![];
    let mut frames = if split {
        let m = Key::new(0, 0, rel, 1, n as usize * 40).bytes();
        want.push(m.clone());
        p.split(&m, n as usize)
    } else {
        (0..n)
            .map(|i| {
                let m = Key::new(0, 0, rel, i, 24 + (i % 50) as usize).bytes();
                want.push(m.clone());
                p.frame(rel, &m)
            })
            .collect()
    };
    let first = frames.remove(0);
    if !all_acked(&p, &frames, 30.0).await || !all_acked(&p, &[first], 10.0).await {
        return c.violation("held:unacked", "datagrams of a peer whose first frame is late are not acknowledged", w);
    }
    wait_until(15.0, || app.count() >= want.len()).await;
    lsleep(0.1).await;
    let mut got = app.got();
    c.add("messages_behind_a_late_first_frame", got.len() as i64);
    c.case(format!("held {rel} {n} {split} {client_side}").as_bytes(), true);
    if rel != ORDERED {
        got.sort();
        want.sort();
    }
    if got != want {
        let missing = want.iter().filter(|m| got.binary_search(m).is_err() && !got.contains(m)).count();
        c.violation(
            "held:lost",
            format!("the first of {n} frames arrived last: {} of {} messages were delivered, {missing} acknowledged ones never, or not as sent", got.len(), want.len()),
            w,
        );
    }
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// One message of `bytes` bytes between two libraries, and a small one after it.
pub async fn huge(c: C, bytes: usize, drop: f64, to_server: bool) {
    let w = J::o(vec![("bytes", J::I(bytes as i64)), ("loss", J::F(drop)), ("to_server", J::B(to_server))]);
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), c.seed ^ bytes as u64).await;
    let Ok((a, b)) = lib_pair(Some(&px), &mut l).await else { return c.violation("workload:stuck", "could not connect", w) };
    let (tx, rx) = if to_server { (a, b) } else { (b, a) };
    let app = App::new(rx);
    px.set(NetCfg { drop, ..NetCfg::clean() });
    let small = Key::new(0, 0, ORDERED, 2, 50).bytes();
    let big = Key::new(0, 0, ORDERED, 1, bytes).bytes();
    let s1 = within(60.0, tx.send(&big, Reliability::ReliableOrdered)).await.map(|r| r.is_ok());
    let s2 = within(60.0, tx.send(&small, Reliability::ReliableOrdered)).await.map(|r| r.is_ok());
    if (s1, s2) != (Some(true), Some(true)) {
        return c.violation("huge:send", format!("send() of a message of {bytes} bytes: {s1:?}, then a small one: {s2:?}"), w);
    }
    // losses cost rounds of retransmission
    lsleep(5.0).await;
    px.clean();
    wait_until(90.0, || app.count() >= 2).await;
    let got = app.got();
    c.add("bytes_in_huge_messages", got.iter().map(|m| m.len() as i64).sum());
    c.case(format!("huge {bytes} {drop} {to_server}").as_bytes(), true);
    if got != [big, small] {
        c.violation("huge:lost", format!("a message of {bytes} bytes and a small one were sent, received lengths {:?}", got.iter().map(|m| m.len()).collect::<Vec<_>>()), w);
    }
    let _ = within(5.0, tx.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// A long life of internal messages, then user messages.
pub async fn chatter(c: C, kind: u32, n: u32, client_side: bool) {
    let name = ["pings", "pongs", "handshake messages", "all of them", "messages of one byte", "messages of two bytes"][kind as usize];
    let w = J::o(vec![("after", J::s(format!("{n} {name}"))), ("library_is", J::s(if client_side { "client" } else { "server" }))]);
    let mut l = listener().await;
    let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match r {
        Ok(x) => x,
        Err(e) => return c.violation("workload:stuck", format!("could not connect: {e}"), w),
    };
    let app = App::new(s);
    p.with(|s| s.keep_log = false);
    if kind > 3 {
        let want = vec![0xfe; kind as usize - 3];
        for i in (0..n as usize).step_by(100) {
            // no more than a connection may leave unread
            let frames: Vec<Frame> = (0..100.min(n as usize - i)).map(|_| p.frame(RELIABLE, &want)).collect();
            if !all_acked(&p, &frames, 5.0).await || !wait_until(5.0, || app.count() >= i + frames.len()).await {
                return c.violation("chatter:lost", format!("of {} {name} only {} were delivered or acknowledged", i + frames.len(), app.count()), w);
            }
        }
        wait_until(5.0, || app.count() >= n as usize).await;
        if app.got().iter().any(|m| *m != want) || app.count() != n as usize {
            return c.violation("chatter:lost", format!("of {n} {name} {} were delivered", app.count()), w);
        }
    }
    for i in 0..if kind > 3 { 0 } else { n } {
        let k = if kind == 3 { i % 3 } else { kind };
        let f = match k {
            0 => p.frame(UNRELIABLE, &enc_conn_ping(i as i64)),
            1 => {
                let mut d = vec![3u8];
                d.extend_from_slice(&(i as i64).to_be_bytes());
                d.extend_from_slice(&(i as i64 + 1).to_be_bytes());
                p.frame(UNRELIABLE, &d)
            }
            _ => {
                // NewIncomingConnection again
                let to = p.with(|s| s.to).unwrap_or(p.addr);
                p.frame(ORDERED, &enc_incoming(to, 1, 2))
            }
        };
        p.send(&[f]).await;
        if i % 10 == 9 {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    c.add("internal_messages_sent", n as i64);
    c.case(format!("chatter {kind} {n} {client_side}").as_bytes(), true);
    for i in 0..5 {
        let m = Key::new(0, 0, RELIABLE, i, 60).bytes();
        if !p.msg(RELIABLE, &m).await || !app.expect(&m, 5.0).await {
            return c.violation("chatter:lost", format!("after {n} {name} of the peer its messages are no longer delivered"), w);
        }
    }
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}
