//! C04 No message is invented, altered or multiplied.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use std::collections::HashMap;
use std::time::Duration;

/// On a network that loses nothing every message of every reliability arrives; includes messages
/// too small to describe themselves and messages whose content imitates protocol packets.
async fn clean(c: C, k: u64, via_proxy: bool) {
    let mut r = Rng::derive(c.seed, 0xC1EA, k);
    let mut l = listener().await;
    let px = if via_proxy { Some(Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), c.seed).await) } else { None };
    let Ok((cl, sv)) = lib_pair(px.as_ref(), &mut l).await else {
        c.violation("workload:stuck", "could not connect", J::s("clean"));
        return;
    };
    let apps = [App::new(cl), App::new(sv)];
    let mut want: [HashMap<(Vec<u8>, bool), i64>; 2] = Default::default();
    let mut total = [0usize; 2];
    for i in 0..60u32 {
        for dir in 0..2usize {
            let rel = *r.pick(&[UNRELIABLE, UNRELIABLE, UNRELIABLE, RELIABLE, ORDERED]);
            let mut m = match r.below(6) {
                0 => vec![0xfe],
                1 => vec![0xfe, r.next() as u8],
                2 => {
                    // protocol look-alikes after the game byte
                    let mut m = vec![0xfe];
                    m.extend_from_slice(r.pick(&[&[0x15u8][..], &[0xc0, 0, 1], &[0x84, 0, 0, 0], &[0x09], &[0x10], &MAGIC[..]]));
                    m
                }
                _ => {
                    let n = r.range(3, 1340) as usize;
                    let mut m = vec![0xfe];
                    while m.len() < n {
                        m.push(r.next() as u8);
                    }
                    m
                }
            };
            if rel == ORDERED && r.chance(0.3) {
                let n = r.range(1340, 6000) as usize;
                while m.len() < n {
                    m.push(if m.len() % 1340 == 0 { 0x15 } else { r.next() as u8 });
                }
            }
            if let Err(e) = apps[dir].s.send(&m, rel_of(rel)).await {
                c.violation("workload:stuck", format!("send failed on an open connection: {e:?}"), J::s(format!("{i}")));
                return;
            }
            *want[dir].entry((m, rel == UNRELIABLE)).or_insert(0) += 1;
            total[dir] += 1;
        }
        // paced so that no socket buffer can overflow: the network loses nothing
        tokio::time::sleep(Duration::from_millis(2 + r.below(6))).await;
    }
    wait_until(20.0, || (0..2).all(|d| apps[1 - d].count() >= total[d])).await;
    lsleep(0.2).await;
    for dir in 0..2usize {
        let mut need: HashMap<Vec<u8>, i64> = HashMap::new();
        for ((m, _), n) in &want[dir] {
            *need.entry(m.clone()).or_insert(0) += n;
        }
        let got = apps[1 - dir].got();
        c.add("messages_verified_byte_for_byte", got.len() as i64);
        for m in &got {
            *need.entry(m.clone()).or_insert(0) -= 1;
        }
        if let Some((m, n)) = need.iter().find(|x| *x.1 != 0) {
            let w = J::o(vec![("message", J::s(hex(m))), ("direction", J::I(dir as i64)), ("via_proxy", J::B(via_proxy))]);
            if *n > 0 {
                c.violation("clean:missing", format!("{n} copies of a message never arrived on a loss-free network"), w);
            } else {
                c.violation("clean:extra", format!("a message arrived {} times more than it was sent", -n), w);
            }
        }
        c.case(&got.concat(), true);
    }
    for a in apps {
        let _ = within(5.0, a.s.close()).await;
    }
    let _ = within(15.0, l.close()).await;
}

/// A long queue builds up behind an unacknowledged message; all of it is sent in the end.
async fn queue(c: C, n: u32, client_side: bool) {
    let mut l = listener().await;
    let Ok((p, s)) = (if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await }) else {
        c.violation("workload:stuck", "could not connect", J::s("queue"));
        return;
    };
    let _ = within(10.0, s.flush()).await;
    p.with(|s| s.auto_ack = false);
    let mut r = Rng::derive(c.seed, 0x9E9E, n as u64);
    let mut sent = vec![];
    for i in 0..=n {
        let rel = if i == 0 { RELIABLE } else { *r.pick(&[UNRELIABLE, UNRELIABLE, UNRELIABLE, UNREL_SEQ, RELIABLE, ORDERED]) };
        let k = Key::new(0, client_side as u8, rel, i, r.range(HDR as u64, 60) as usize);
        if within(10.0, s.send(&k.bytes(), rel_of(rel))).await.map(|x| x.is_ok()) != Some(true) {
            c.violation("queue:send", "send() failed or hung with a long queue", J::s(format!("message {i} of {n}")));
            return;
        }
        sent.push(k);
    }
    // everything that has come is acknowledged from here on
    p.with(|s| s.auto_ack = true);
    wait_until(20.0, || p.user_count() >= sent.len()).await;
    lsleep(0.5).await;
    let got: Vec<Vec<u8>> = p.user().into_iter().map(|x| x.1).collect();
    for k in sent.iter().filter(|k| k.rel != UNREL_SEQ) {
        let b = k.bytes();
        let x = got.iter().filter(|m| **m == b).count();
        if x != 1 {
            c.violation("queue:count", format!("{k:?} of {n} queued messages was sent {x} times on a loss-free network"), J::o(vec![("queued", J::I(n as i64)), ("client_side", J::B(client_side))]));
            break;
        }
    }
    c.add("queued_messages_seen", got.len() as i64);
    c.case(&got.concat(), true);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Datagrams which arrive all at once.
async fn burst(c: C, n: u32, client_side: bool) {
    let mut l = listener().await;
    let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = r else { return c.violation("workload:stuck", "could not connect", J::s("burst")) };
    let port = if client_side { s.local_addr().unwrap().port() } else { l.local_addr().unwrap().port() };
    let app = App::new(s);
    lsleep(0.2).await;
    for round in 0..10u32 {
        let before = app.count();
        let drops = kernel_drops(port);
        let mut want: Vec<Vec<u8>> = vec![];
        let mut dgs = vec![];
        for i in 0..n {
            let m = Key::new(0, 0, UNRELIABLE, round * n + i, 30).bytes();
            dgs.push(enc_frames(p.next_seq(), &[p.frame(UNRELIABLE, &m)]));
            want.push(m);
        }
        let (sock, to) = (p.sock.clone(), p.with(|s| s.to.unwrap()));
        let sent = tokio::task::spawn_blocking(move || dgs.iter().filter(|d| sock.try_send_to(d, to).is_ok()).count()).await.unwrap_or(0);
        wait_until(5.0, || app.count() >= before + n as usize).await;
        lsleep(0.05).await;
        if sent < n as usize || drops.is_none() || kernel_drops(port) != drops {
            c.add("bursts_the_kernel_cut", 1);
            continue;
        }
        let mut got = app.got()[before..].to_vec();
        got.sort();
        want.sort();
        c.add("datagrams_in_bursts", n as i64);
        c.case(format!("burst {n} {client_side} {round}").as_bytes(), true);
        if got != want {
            let w = J::o(vec![("burst", J::I(n as i64)), ("library_is", J::s(if client_side { "client" } else { "server" }))]);
            return c.violation("clean:missing", format!("of {n} unreliable messages that arrived at once, none lost by the kernel, {} were delivered", got.len()), w);
        }
    }
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Whatever send() accepts arrives; what it refuses does not.
async fn headers(c: C) {
    let mut l = listener().await;
    let Ok((cl, sv)) = lib_pair(None, &mut l).await else {
        c.violation("workload:stuck", "could not connect", J::s("headers"));
        return;
    };
    let apps = [App::new(cl), App::new(sv)];
    for b in 0..=255u8 {
        for (dir, a) in apps.iter().enumerate() {
            for rel in [UNRELIABLE, RELIABLE, ORDERED, UNREL_SEQ, REL_SEQ] {
                let m = vec![b, 0x51, rel, dir as u8, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7];
                let ok = a.s.send(&m, rel_of(rel)).await.is_ok();
                let w = || J::o(vec![("first_byte", J::I(b as i64)), ("reliability", J::I(rel as i64)), ("direction", J::I(dir as i64))]);
                if ok {
                    c.add("first_bytes_accepted", 1);
                    if !apps[1 - dir].expect(&m, 5.0).await {
                        c.violation("clean:accepted-lost", format!("send() accepted a message that begins with {b:#04x} and reliability {rel}, and it never arrived"), w());
                        return;
                    }
                } else {
                    c.add("first_bytes_refused", 1);
                }
            }
        }
    }
    lsleep(0.3).await;
    for a in &apps {
        if a.got().iter().any(|m| m[0] != 0xfe && m.len() == 20) {
            c.add("messages_without_game_header_delivered", 1);
        }
        if let Some(e) = a.ended() {
            c.violation("clean:ended", format!("messages of all first bytes ended the connection: {}", e.1), J::s("headers"));
        }
    }
    c.case(b"headers", true);
    for a in apps {
        let _ = within(5.0, a.s.close()).await;
    }
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one workload or raw-peer plan; distinct by observed datagram history, or by the received byte stream for loss-free runs");
    set_chaos(0.01, 300);
    let all = [UNRELIABLE, UNRELIABLE, RELIABLE, ORDERED, REL_SEQ, UNREL_SEQ];
    let f = |c: &Ctx, o: &PairOut| {
        for (i, d) in o.dirs.iter().enumerate() {
            for j in 0..2 {
                let copies = unreliable_copies(&o.trace, i, j as u8);
                oracle_integrity(c, i, &d[j].sent, &d[j].got, &copies, w_cfg(o, i, j));
            }
        }
    };
    let cl = async {
        headers(c.clone()).await;
        for n in [60, 120, 180] {
            burst(c.clone(), n, false).await;
            burst(c.clone(), n, true).await;
        }
        for k in 0..6 {
            crate::long::chatter(c.clone(), k, 1500, k % 2 == 0).await;
        }
        for n in if c.thorough { vec![3, 130, 256, 300, 400, 500] } else { vec![3, 150, 400] } {
            queue(c.clone(), n, false).await;
            queue(c.clone(), n, true).await;
        }
        let mut set = tokio::task::JoinSet::new();
        for k in 0..c.q(24, 300) {
            if set.len() >= 12 {
                set.join_next().await;
            }
            set.spawn(clean(c.clone(), k, k % 2 == 0));
        }
        while set.join_next().await.is_some() {}
    };
    tokio::join!(
        pairs(&c, c.q(50, 800), 14, &all, f),
        pairs_of(&c, hard_cfgs(&c, &all), 20, f),
        raws(&c, c.q(120, 3000), 14, &all, |c, o| {
            oracle_integrity(c, 0, &o.sent, &o.got, &o.copies, w_raw(o));
            oracle_model(c, o, UNRELIABLE);
        }),
        cl
    );
}
