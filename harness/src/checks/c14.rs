//! C14 One stalled connection or a full backlog does not stall the server.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;

/// Pings and a live connection, for `secs`; returns what stalled.
async fn bystanders(c: &C, la: SocketAddr, live: &(App, App), secs: f64, salt: u32) -> Option<String> {
    let q = Peer::new(Role::Mute).await;
    q.with(|s| s.to = Some(la));
    let end = ticks() + (secs * 100.0) as u64;
    let mut i = 0u32;
    while ticks() < end {
        i += 1;
        let n = q.with(|s| s.pongs.len());
        let t0 = now_ms();
        let mut ok = false;
        for _ in 0..5 {
            q.raw(&enc_ping(1, i as i64, 1)).await;
            if wait_until(0.6, || q.with(|s| s.pongs.len() > n)).await {
                ok = true;
                break;
            }
        }
        if !ok {
            return Some("pings are not answered".into());
        }
        c.max("slowest_ping_ms", (now_ms() - t0) as i64);
        for dir in 0..2u8 {
            let m = Key::new(7, dir, ORDERED, salt * 10_000 + i, 200 + 1500 * (i as usize % 3)).bytes();
            let (a, b) = if dir == 0 { (&live.0, &live.1) } else { (&live.1, &live.0) };
            let t0 = now_ms();
            let sent = within(6.0, a.s.send(&m, Reliability::ReliableOrdered)).await.map(|r| r.is_ok());
            if sent != Some(true) || !b.expect(&m, 8.0).await {
                return Some(format!("another connection stopped carrying messages {}", if dir == 0 { "to the server" } else { "to its client" }));
            }
            c.max("slowest_bystander_message_ms", (now_ms() - t0) as i64);
        }
        c.add("bystander_rounds", 1);
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    None
}

/// A raw client floods a connection whose application does not read.
async fn unread_flood(c: C, rel: u8, accepted: bool) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let live = match lib_pair(None, &mut l).await {
        Ok((a, b)) => (App::new(a), App::new(b)),
        Err(e) => return c.violation("stall:setup", e, J::s("")),
    };
    let w = J::o(vec![("reliability", J::I(rel as i64)), ("accepted", J::B(accepted))]);
    let mut held = None;
    let p = if accepted {
        match raw_client(&mut l, 10, 1400).await {
            Ok((p, s)) => {
                held = Some(s);
                p
            }
            Err(e) => return c.violation("stall:setup", e, w),
        }
    } else {
        let p = Peer::new(Role::Client).await;
        if let Err(e) = p.connect(la, 10, 1400).await {
            return c.violation("stall:setup", e, w);
        }
        p
    };
    let mut set = tokio::task::JoinSet::new();
    let c2 = c.clone();
    let salt = rel as u32 * 2 + accepted as u32;
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stop2 = stop.clone();
    // messages in numbering order, each number used once, never repeated: what got lost stays lost
    let flood = async move {
        let mut n = 0u32;
        while !stop2.load(std::sync::atomic::Ordering::Relaxed) && n < 6000 {
            let k = Key::new(2, 0, rel, n, 60).bytes();
            let f = p.frame(rel, &k);
            p.send(&[f]).await;
            n += 1;
            if n % 20 == 0 {
                tokio::time::sleep(Duration::from_millis(4)).await;
            }
        }
        (p, n)
    };
    set.spawn(flood);
    tokio::time::sleep(Duration::from_millis(100)).await;
    let stalled = bystanders(&c2, la, &live, 4.0, salt).await;
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let (p, n) = set.join_next().await.unwrap().unwrap();
    c.add("messages_sent_into_unread_connections", n as i64);
    c.case(format!("flood {rel} {accepted}").as_bytes(), n > 300);
    if let Some(x) = stalled {
        c.violation("stall:unread", format!("while an application leaves a connection unread, {x}"), w);
    } else if let Some(s) = held {
        // the application reads again: the connection comes back to life
        let app = App::new(s);
        if rel == UNRELIABLE {
            let m = Key::new(2, 0, ORDERED, 1 << 20, 80).bytes();
            if !p.msg(ORDERED, &m).await || !app.expect(&m, 8.0).await {
                c.violation("stall:dead", "a connection left unread does not work when the application reads again", w);
            }
        }
    } else {
        match within(10.0, l.accept()).await {
            Some(Ok(s)) if s.peer_addr().unwrap() == p.addr => {}
            _ => c.violation("stall:lost", "a connection left unaccepted under traffic cannot be accepted any more", w),
        }
    }
    let _ = within(15.0, l.close()).await;
}

/// More arrives on one connection, in a moment, than the server can look at: it may lose datagrams,
/// the connection and the others stay.
async fn torrent(c: C, reads: bool, k: u64) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let live = match lib_pair(None, &mut l).await {
        Ok((a, b)) => (App::new(a), App::new(b)),
        Err(e) => return c.violation("stall:setup", e, J::s("")),
    };
    let (p, s) = match raw_client(&mut l, 10, 1400).await {
        Ok(x) => x,
        Err(e) => return c.violation("stall:setup", e, J::s("")),
    };
    let w = J::o(vec![("application_reads", J::B(reads))]);
    let (mut app, mut held) = (None, None);
    if reads {
        app = Some(App::new(s));
    } else {
        held = Some(s);
    }
    let sent = Arc::new(std::sync::atomic::AtomicU32::new(0));
    let mut threads = vec![];
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    for t in 0..2u32 {
        let (sock, sent, stop) = (p.sock.clone(), sent.clone(), stop.clone());
        let base = p.with(|s| s.seq) + t * 1_000_000;
        threads.push(std::thread::spawn(move || {
            use std::sync::atomic::Ordering::Relaxed;
            for i in 0..40_000u32 {
                if stop.load(Relaxed) {
                    break;
                }
                let f = Frame::new(UNRELIABLE, &Key::new(2, 0, UNRELIABLE, base + i, 20).bytes());
                if sock.try_send_to(&enc_frames(base + i, &[f]), la).is_ok() {
                    sent.fetch_add(1, Relaxed);
                }
            }
        }));
    }
    let stalled = bystanders(&c, la, &live, 3.0, 900 + k as u32).await;
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    for t in threads {
        let _ = t.join();
    }
    c.add("datagrams_in_torrents", sent.load(std::sync::atomic::Ordering::Relaxed) as i64);
    c.case(format!("torrent {reads} {k}").as_bytes(), true);
    if let Some(x) = stalled {
        return c.violation("stall:torrent", format!("while datagrams pour into one connection, {x}"), w);
    }
    p.with(|s| s.seq += 3_000_000);
    if let Some(s) = held {
        app = Some(App::new(s));
    }
    let app = app.unwrap();
    let m = Key::new(2, 0, ORDERED, 1 << 20, 80).bytes();
    if !p.msg(ORDERED, &m).await || !app.expect(&m, 8.0).await {
        c.violation("stall:dead", format!("after a torrent of datagrams its connection no longer works (ended {:?})", app.ended()), w);
    }
    let _ = within(15.0, l.close()).await;
}

/// Library clients send more than every buffer holds; the server application reads only later.
async fn unread_then_read(c: C, n: u32, big: usize, rel: u8) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let live = match lib_pair(None, &mut l).await {
        Ok((a, b)) => (App::new(a), App::new(b)),
        Err(e) => return c.violation("stall:setup", e, J::s("")),
    };
    let Ok((cl, sv)) = lib_pair(None, &mut l).await else {
        return c.violation("stall:setup", "second connection", J::s(""));
    };
    let cl = std::sync::Arc::new(cl);
    let c3 = cl.clone();
    let job = tokio::spawn(async move {
        let mut want = vec![];
        for i in 0..n {
            let m = Key::new(3, 0, rel, i, big).bytes();
            match within(30.0, c3.send(&m, rel_of(rel))).await {
                Some(Ok(())) => want.push(m),
                x => return Err(format!("send() into an unread connection: {x:?}")),
            }
        }
        Ok(want)
    });
    let w = J::o(vec![("messages", J::I(n as i64)), ("bytes", J::I(big as i64)), ("reliability", J::I(rel as i64))]);
    if let Some(x) = bystanders(&c, la, &live, 3.0, 100 + n).await {
        c.violation("stall:unread", format!("while an application leaves a connection unread, {x}"), w);
        return;
    }
    let app = App::new(sv);
    let want = match within(40.0, job).await {
        Some(Ok(Ok(v))) => v,
        Some(Ok(Err(e))) => return c.violation("stall:send", e, w),
        _ => return c.violation("stall:send", "send() hangs although the peer reads again", w),
    };
    wait_until(60.0, || app.count() >= want.len()).await;
    lsleep(0.3).await;
    let mut got = app.got();
    let mut need = want.clone();
    if rel == RELIABLE {
        got.sort();
        need.sort();
    }
    c.case(format!("unread {n} {big} {rel}").as_bytes(), true);
    if got != need {
        c.violation("stall:lost-messages", format!("{} of {} reliable messages delivered after the application read again", got.len(), want.len()), w);
    }
    let _ = within(15.0, l.close()).await;
}

/// More clients than the backlog holds, and nobody calls accept().
/// The clients come all at once, or one after another with some of them while the backlog is full.
async fn backlog(c: C, raw: bool, n: usize, apart_ms: u64) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let live = match lib_pair(None, &mut l).await {
        Ok((a, b)) => (App::new(a), App::new(b)),
        Err(e) => return c.violation("stall:setup", e, J::s("")),
    };
    let w = J::o(vec![("unaccepted_clients", J::I(n as i64)), ("raw", J::B(raw)), ("apart_ms", J::I(apart_ms as i64))]);
    let mut set = tokio::task::JoinSet::new();
    for i in 0..n as u64 {
        set.spawn(async move {
            tokio::time::sleep(Duration::from_millis(i * apart_ms)).await;
            if raw {
                let p = Peer::new(Role::Client).await;
                for _ in 0..8 {
                    if p.connect(la, 10, 1400).await.is_ok() {
                        lsleep(5.0).await;
                        return true;
                    }
                }
                false
            } else {
                match within(60.0, RaknetSocket::connect(&la)).await {
                    Some(Ok(s)) => {
                        let m = Key::new(5, 0, ORDERED, s.local_addr().unwrap().port() as u32, 90).bytes();
                        let ok = s.send(&m, Reliability::ReliableOrdered).await.is_ok();
                        let ok = ok && within(20.0, s.flush()).await.map(|r| r.is_ok()) == Some(true);
                        lsleep(3.0).await;
                        ok
                    }
                    _ => false,
                }
            }
        });
    }
    tokio::time::sleep(Duration::from_millis(300)).await;
    let stalled = bystanders(&c, la, &live, 3.0, 300).await;
    c.case(format!("backlog {raw} {n} {apart_ms}").as_bytes(), true);
    if let Some(x) = stalled {
        c.violation("stall:backlog", format!("while {n} connections are unaccepted, {x}"), w);
        return;
    }
    // now the application accepts
    let got = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let g2 = got.clone();
    let acc = tokio::spawn(async move {
        while let Ok(s) = l.accept().await {
            g2.lock().unwrap().push(s);
        }
    });
    let mut ok = 0;
    while let Some(r) = set.join_next().await {
        ok += r.unwrap_or(false) as usize;
    }
    wait_until(5.0, || got.lock().unwrap().len() >= n).await;
    let acc_n = got.lock().unwrap().len();
    c.add("backlogged_connections_established", ok as i64);
    if ok != n {
        c.violation("stall:backlog-lost", format!("only {ok} of {n} clients could connect once the application accepted again"), w);
    } else if acc_n < n {
        c.violation("stall:backlog-lost", format!("{n} clients connected but only {acc_n} connections were accepted"), w);
    }
    acc.abort();
}

/// A peer floods a connection with datagrams which are expensive to process.
async fn expensive(c: C, k: u64) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let live = match lib_pair(None, &mut l).await {
        Ok((a, b)) => (App::new(a), App::new(b)),
        Err(e) => return c.violation("stall:setup", e, J::s("")),
    };
    let (p, s) = match raw_client(&mut l, 10, 1400).await {
        Ok(x) => x,
        Err(e) => return c.violation("stall:setup", e, J::s("")),
    };
    lsleep(0.3).await;
    p.with(|s| {
        s.auto_ack = false;
        s.keep_log = false;
    });
    // much outstanding, and acknowledgements of something acknowledged long ago
    let mut big = vec![7u8; 1340 * 8000];
    big[0] = 0xfe;
    if within(30.0, s.send(&big, Reliability::ReliableOrdered)).await.map(|r| r.is_ok()) != Some(true) {
        return c.violation("stall:setup", "send() of a large message failed", J::s(""));
    }
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let sent = Arc::new(std::sync::atomic::AtomicU32::new(0));
    let (sock, sent2, stop2) = (p.sock.clone(), sent.clone(), stop.clone());
    let thread = std::thread::spawn(move || {
        use std::sync::atomic::Ordering::Relaxed;
        let d = enc_ack(ACK, &[(0, 0); 480]);
        while !stop2.load(Relaxed) {
            for _ in 0..4 {
                if sock.try_send_to(&d, la).is_ok() {
                    sent2.fetch_add(1, Relaxed);
                }
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    });
    tokio::time::sleep(Duration::from_millis(700)).await;
    let stalled = bystanders(&c, la, &live, 4.0, 1200 + k as u32).await;
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let _ = thread.join();
    c.add("expensive_datagrams", sent.load(std::sync::atomic::Ordering::Relaxed) as i64);
    c.case(format!("expensive {k}").as_bytes(), true);
    if let Some(x) = stalled {
        return c.violation("stall:torrent", format!("while one connection's peer sends it expensive acknowledgements, {x}"), J::s(""));
    }
    drop(s);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one stall scenario (unread connection under a flood of one reliability, unread then read, unaccepted backlog) with bystander traffic; distinct by parameters");
    let mut set = tokio::task::JoinSet::new();
    for rel in [UNRELIABLE, RELIABLE, ORDERED, UNREL_SEQ] {
        for accepted in [true, false] {
            set.spawn(unread_flood(c.clone(), rel, accepted));
        }
    }
    for (n, big, rel) in [(400, 60, ORDERED), (400, 60, RELIABLE), (150, 3000, ORDERED)] {
        set.spawn(unread_then_read(c.clone(), n, big, rel));
    }
    while set.join_next().await.is_some() {}
    let mut set = tokio::task::JoinSet::new();
    for (raw, n, apart) in [(false, 8, 0), (false, 14, 0), (false, 40, 0), (true, 30, 0), (false, 24, 70), (true, 30, 50)] {
        set.spawn(backlog(c.clone(), raw, n, apart));
    }
    while set.join_next().await.is_some() {}
    for k in 0..c.q(4, 30) {
        if !c.failed() {
            torrent(c.clone(), k % 2 == 0, k).await;
        }
    }
    for k in 0..c.q(1, 6) {
        if !c.failed() {
            expensive(c.clone(), k).await;
        }
    }
    if c.thorough && !c.failed() {
        let mut set = tokio::task::JoinSet::new();
        for k in 0..20u32 {
            set.spawn(unread_then_read(c.clone(), 110 + 37 * k, 40 + 300 * (k as usize % 5), if k % 2 == 0 { ORDERED } else { RELIABLE }));
            if k % 2 == 0 {
                set.spawn(backlog(c.clone(), k % 4 == 0, 10 + k as usize, 15 * k as u64));
            }
            if set.len() > 6 {
                set.join_next().await;
            }
        }
        while set.join_next().await.is_some() {}
    }
}
