//! C33 On a network that works everything is prompt and nothing is sent without need.
use super::c32::{median, Pace};
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::Duration;

static TIMES: Mutex<Vec<(&str, f64)>> = Mutex::new(vec![]);

/// What half of the samples must keep to, with what is usual.
const LIMITS: [(&str, f64); 17] = [
    ("connect", 600.0),                     // a few ms
    ("accept after connect", 300.0),
    ("ping", 300.0),
    ("message Unreliable", 20.0),           // 0.2
    ("message UnreliableSequenced", 20.0),
    ("message Reliable", 20.0),
    ("message ReliableOrdered", 20.0),
    ("message ReliableSequenced", 20.0),
    ("message split in ten", 30.0),
    ("message right behind another", 150.0), // a tick
    ("stream of one every 10 ms", 150.0),
    ("burst of 60", 400.0),
    ("60000 bytes", 400.0),
    ("flush", 60.0),
    ("close", 1500.0),
    ("peer learns of close", 500.0),
    ("listener close", 3000.0),
];

fn note(name: &'static str, ms: f64) {
    TIMES.lock().unwrap().push((name, ms));
}

/// One life of a connection between two library ends, timed.
async fn life(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x3301, k);
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let w = J::I(k as i64);
    let pace = Pace::start();
    let mut local: Vec<(&'static str, f64)> = vec![];
    let t = now_ms();
    if !matches!(within(15.0, RaknetSocket::ping(&la)).await, Some(Ok(_))) {
        return c.violation("prompt:ping", "ping() failed", w);
    }
    local.push(("ping", now_ms() - t));
    let t = now_ms();
    let Some(Ok(a)) = within(20.0, RaknetSocket::connect(&la)).await else { return c.violation("prompt:connect", "connect() failed", w) };
    local.push(("connect", now_ms() - t));
    let t = now_ms();
    let Some(Ok(b)) = within(20.0, l.accept()).await else { return c.violation("prompt:connect", "accept() failed", w) };
    local.push(("accept after connect", now_ms() - t));
    let ends = [&a, &b];
    let mut idx = 0u32;
    let one = |d: usize, m: Vec<u8>, rel: u8| async move {
        let t = now_ms();
        match within(5.0, ends[d].send(&m, rel_of(rel))).await {
            Some(Ok(())) => {}
            _ => return None,
        }
        match within(8.0, ends[1 - d].recv()).await {
            Some(Ok(x)) if x == m => Some(now_ms() - t),
            _ => None,
        }
    };
    for (name, rel, len) in [
        ("message Unreliable", UNRELIABLE, 0),
        ("message UnreliableSequenced", UNREL_SEQ, 0),
        ("message Reliable", RELIABLE, 0),
        ("message ReliableOrdered", ORDERED, 0),
        ("message ReliableSequenced", REL_SEQ, 0),
        ("message split in ten", ORDERED, 13_000),
    ] {
        for j in 0..4 {
            // idle: everything is acknowledged
            let d = j % 2;
            let t = now_ms();
            let was_busy = j == 3;
            for e in ends {
                if !matches!(within(8.0, e.flush()).await, Some(Ok(()))) {
                    return c.violation("prompt:flush", "flush() failed on a working network", w);
                }
            }
            if was_busy {
                local.push(("flush", now_ms() - t));
            }
            tokio::time::sleep(Duration::from_millis(r.below(60))).await;
            idx += 1;
            let n = if len > 0 { len } else { r.range(20, 1300) as usize };
            match one(d, Key::new(0, d as u8, rel, idx, n).bytes(), rel).await {
                Some(t) => local.push((name, t)),
                None => return c.violation("prompt:message", format!("a {name} did not arrive alone on a working network"), w),
            }
        }
    }
    // right behind another, a stream, a burst, a large one
    for d in 0..2usize {
        for j in 0..6 {
            let _ = within(8.0, ends[d].flush()).await;
            idx += 2;
            let (m1, m2) = (Key::new(0, d as u8, ORDERED, idx, 300).bytes(), Key::new(0, d as u8, ORDERED, idx + 1, 300).bytes());
            let t = now_ms();
            let _ = ends[d].send(&m1, Reliability::ReliableOrdered).await;
            let _ = ends[d].send(&m2, Reliability::ReliableOrdered).await;
            for m in [&m1, &m2] {
                if !matches!(within(8.0, ends[1 - d].recv()).await, Some(Ok(x)) if x == *m) {
                    return c.violation("prompt:message", format!("one of two messages did not arrive ({j})"), w);
                }
            }
            local.push(("message right behind another", now_ms() - t));
        }
        let n = 60u32;
        let at = Mutex::new(vec![]);
        let recv = async {
            let mut v = vec![];
            for _ in 0..n {
                match within(8.0, ends[1 - d].recv()).await {
                    Some(Ok(_)) => v.push(now_ms()),
                    _ => break,
                }
            }
            v
        };
        let send = async {
            for i in 0..n {
                at.lock().unwrap().push(now_ms());
                let _ = ends[d].send(&Key::new(0, d as u8, ORDERED, idx + 1 + i, 200).bytes(), Reliability::ReliableOrdered).await;
                tokio::time::sleep(Duration::from_millis(10)).await;
            }
        };
        let (v, _) = tokio::join!(recv, send);
        idx += n;
        if v.len() < n as usize {
            return c.violation("prompt:message", "a stream did not arrive", w);
        }
        local.push(("stream of one every 10 ms", median(&v.iter().zip(at.lock().unwrap().iter()).map(|(a, b)| a - b).collect::<Vec<_>>())));
        let _ = within(8.0, ends[d].flush()).await;
        let t = now_ms();
        for i in 0..n {
            let _ = ends[d].send(&Key::new(0, d as u8, *r.pick(&[ORDERED, RELIABLE]), idx + 1 + i, 500).bytes(), Reliability::ReliableOrdered).await;
        }
        idx += n;
        for _ in 0..n {
            if !matches!(within(8.0, ends[1 - d].recv()).await, Some(Ok(_))) {
                return c.violation("prompt:message", "a burst did not arrive", w);
            }
        }
        local.push(("burst of 60", now_ms() - t));
        let _ = within(8.0, ends[d].flush()).await;
        idx += 1;
        match one(d, Key::new(0, d as u8, ORDERED, idx, 60_000).bytes(), ORDERED).await {
            Some(t) => local.push(("60000 bytes", t)),
            None => return c.violation("prompt:message", "60000 bytes did not arrive", w),
        }
    }
    let first = r.below(2) as usize;
    let other = ends[1 - first];
    let learn = async {
        let r = within(15.0, other.recv()).await;
        (now_ms(), matches!(r, Some(Err(_))))
    };
    let close = async {
        let t = now_ms();
        let r = within(15.0, ends[first].close()).await;
        (t, now_ms(), matches!(r, Some(Ok(()))))
    };
    let (x, y) = tokio::join!(learn, close);
    if !x.1 || !y.2 {
        return c.violation("prompt:close", "close() failed or was not noticed", w);
    }
    local.push(("close", y.1 - y.0));
    local.push(("peer learns of close", x.0 - y.0));
    let t = now_ms();
    if !matches!(within(15.0, l.close()).await, Some(Ok(()))) {
        return c.violation("prompt:close", "RaknetListener::close() did not return", w);
    }
    local.push(("listener close", now_ms() - t));
    if pace.kept(&c) {
        c.add("durations_measured", local.len() as i64);
        c.case(format!("life {k} {first}").as_bytes(), true);
        for (n, t) in local {
            note(n, t);
        }
    }
}

/// Everything a raw peer receives on a network that works: one datagram for each piece of data, at most one
/// acknowledgement for each of its own, nothing unasked, nothing while idle, nothing after the end.
async fn economy(c: C, client_side: bool, end: u64, k: u64) {
    let mut r = Rng::derive(c.seed, 0x3302, k);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match x {
        Ok(x) => x,
        Err(e) => return c.violation("prompt:connect", e, J::B(client_side)),
    };
    let _ = within(10.0, s.flush()).await;
    p.with(|s| s.keep_log = true);
    lsleep(0.3).await;
    let endname = ["close", "close in the middle", "drop", "drop in the middle", "the peer's Disconnect", "the listener's close"][end as usize];
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("ends_by", J::s(endname)), ("workload", J::I(k as i64))]);
    p.with(|s| {
        s.log.clear();
        s.frames.clear();
        s.nacks.clear();
        s.ack_events.clear();
    });
    let app = App::new(s);
    let pace = Pace::start();
    let (n, mut mine, mut frames) = (120u32, 0u64, 0u64);
    for i in 0..n {
        let rel = *r.pick(&[ORDERED, RELIABLE, REL_SEQ, UNRELIABLE, UNREL_SEQ]);
        let len = if rel == ORDERED && r.chance(0.2) { r.range(1341, 5000) } else { r.range(20, 1300) } as usize;
        frames += if len > 1339 { (len as u64).div_ceil(1340) } else { 1 };
        let _ = app.s.send(&Key::new(0, 0, rel, i, len).bytes(), rel_of(rel)).await;
        if r.chance(0.7) {
            let f = p.frame(RELIABLE, &Key::new(0, 2, RELIABLE, i, 60).bytes());
            let q = p.send(&[f.clone()]).await;
            mine += 1;
            if r.chance(0.1) {
                // the network repeats it
                p.raw(&enc_frames(q, &[f])).await;
                mine += 1;
            }
        }
        tokio::time::sleep(Duration::from_millis(r.below(25))).await;
    }
    if !matches!(within(8.0, app.s.flush()).await, Some(Ok(()))) {
        return c.violation("prompt:flush", "flush() failed on a working network", w);
    }
    lsleep(0.3).await;
    let count = |p: &Peer| {
        p.with(|s| {
            let mut m: HashMap<&str, u64> = HashMap::new();
            for x in &s.log {
                let k = match x.bytes.first() {
                    Some(0xc0) => "acknowledgements",
                    Some(0xa0) => "NACKs",
                    Some(0x80..=0x8f) => "data",
                    _ => "other datagrams",
                };
                *m.entry(k).or_default() += 1;
            }
            m
        })
    };
    let m = count(&p);
    let of = |k: &str| m.get(k).copied().unwrap_or(0);
    if pace.kept(&c) {
        c.add("datagrams_counted", m.values().sum::<u64>() as i64);
        c.case(format!("economy {client_side} {endname} {k}").as_bytes(), true);
        // an acknowledgement that takes longer than the shortest timer costs a repetition
        let pieces = p.with(|s| {
            let mut rel: Vec<u32> = s.frames.iter().filter(|f| is_reliable(f.2.rel)).map(|f| f.2.ridx).collect();
            rel.sort_unstable();
            rel.dedup();
            (rel.len() + s.frames.iter().filter(|f| !is_reliable(f.2.rel)).count()) as u64
        });
        if of("data") > pieces + pieces / 10 + 3 {
            c.violation("thrift:data", format!("{pieces} pieces of messages took {} datagrams on a working network", of("data")), w.clone());
        }
        if pieces > frames + frames / 2 {
            c.violation("thrift:pieces", format!("messages that fit into {frames} datagrams were sent in {pieces} pieces"), w.clone());
        }
        if of("acknowledgements") > mine + 2 {
            c.violation("thrift:acks", format!("{mine} datagrams were answered with {} acknowledgements", of("acknowledgements")), w.clone());
        }
        if of("NACKs") > 0 {
            c.violation("thrift:nacks", format!("{} NACKs were sent though nothing was missing", of("NACKs")), w.clone());
        }
        if of("other datagrams") > 0 {
            c.violation("thrift:other", format!("{} datagrams that are neither data nor acknowledgements were sent", of("other datagrams")), w.clone());
        }
    }
    // one large message
    p.with(|s| s.frames.clear());
    let large = r.range(30_000, 60_000);
    let _ = app.s.send(&Key::new(0, 0, ORDERED, 400, large as usize).bytes(), Reliability::ReliableOrdered).await;
    if !matches!(within(8.0, app.s.flush()).await, Some(Ok(()))) {
        return c.violation("prompt:flush", "flush() failed on a working network", w);
    }
    let pieces = p.with(|s| s.frames.iter().map(|f| f.2.ridx).collect::<std::collections::HashSet<_>>().len() as u64);
    c.add("pieces_of_large_messages", pieces as i64);
    if pieces > large.div_ceil(1340) * 5 / 4 + 1 {
        c.violation("thrift:pieces", format!("a message of {large} bytes was sent in {pieces} pieces"), w.clone());
    }
    // idle
    lsleep(0.2).await;
    p.with(|s| s.log.clear());
    lsleep(4.0).await;
    let idle = p.with(|s| s.log.len());
    if idle > 0 {
        c.violation("thrift:idle", format!("{idle} datagrams were sent in 4 s by a connection without anything to send"), w.clone());
    }
    // the end, with data outstanding that nobody acknowledges
    if end == 1 || end == 3 || end == 4 || end == 5 {
        p.with(|s| s.auto_ack = false);
        for i in 0..5 {
            let _ = app.s.send(&Key::new(0, 0, ORDERED, 500 + i, 3000).bytes(), Reliability::ReliableOrdered).await;
        }
        lsleep(0.2).await;
    }
    match end {
        0 | 1 => {
            let _ = within(8.0, app.s.close()).await;
        }
        2 | 3 => drop(app.into_inner().await),
        4 => p.raw(&[0x15]).await,
        _ => {
            let _ = within(15.0, l.close()).await;
        }
    }
    lsleep(3.0).await;
    if end == 5 && client_side {
        // that listener was another's
        return;
    }
    p.with(|s| s.log.clear());
    lsleep(6.0).await;
    let late = p.with(|s| s.log.iter().map(|x| x.bytes.iter().take(4).map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>());
    c.add("ends_watched", 1);
    if !late.is_empty() {
        c.violation("thrift:after-end", format!("{} datagrams were sent to a peer 3 to 9 s after the connection ended by {endname}: {:?}", late.len(), &late[..late.len().min(5)]), w);
    }
    let _ = within(15.0, l.close()).await;
}

/// A peer that acknowledges after 25 ms: the share of frames sent again before that.
async fn steady_delay(c: &C, client_side: bool) -> Option<(u64, u64)> {
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = x.ok()?;
    let _ = within(10.0, s.flush()).await;
    lsleep(0.2).await;
    p.with(|s| {
        s.auto_ack = false;
        s.frames.clear();
    });
    for i in 0..40u32 {
        let _ = s.send(&Key::new(0, 0, RELIABLE, i, 100).bytes(), Reliability::Reliable).await;
        wait_until(1.0, || p.with(|s| s.frames.iter().any(|f| Key::parse(&f.2.data).is_some_and(|k| k.idx == i)))).await;
        tokio::time::sleep(Duration::from_millis(25)).await;
        let q: Vec<u32> = p.with(|s| s.frames.iter().filter(|f| Key::parse(&f.2.data).is_some_and(|k| k.idx == i)).map(|f| f.1).collect());
        for q in q {
            p.raw(&enc_ack(ACK, &[(q, q)])).await;
        }
        if !matches!(within(5.0, s.flush()).await, Some(Ok(()))) {
            return None;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    let n = p.with(|s| s.frames.iter().filter(|f| Key::parse(&f.2.data).is_some()).count()) as u64;
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
    Some((40, n))
}

async fn patient(c: C, client_side: bool) {
    let pace = Pace::start();
    let mut set = tokio::task::JoinSet::new();
    for _ in 0..3 {
        let c = c.clone();
        set.spawn(async move { steady_delay(&c, client_side).await });
    }
    let (mut a, mut b) = (0, 0);
    while let Some(x) = set.join_next().await {
        let Ok(Some((x, y))) = x else { return c.add("delayed_runs_given_up", 1) };
        a += x;
        b += y;
    }
    if pace.kept(&c) {
        c.case(format!("patient {client_side}").as_bytes(), true);
        c.max("transmissions_of_120_messages_acked_after_25_ms", b as i64);
        if b > a + a / 4 {
            c.violation("thrift:impatient", format!("{a} messages, each acknowledged 25 ms after it came, were sent {b} times"), J::B(client_side));
        }
    }
}

/// A listener and a ping say nothing unasked.
async fn quiet(c: C) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let p = Peer::new(Role::Mute).await;
    p.with(|s| {
        s.to = Some(la);
        s.keep_log = true;
    });
    p.raw(&enc_ping(1, 5, 1)).await;
    p.raw(&enc_req1(11, 1372)).await;
    lsleep(1.0).await;
    let n = p.with(|s| s.log.len());
    lsleep(5.0).await;
    let m = p.with(|s| s.log.len());
    c.case(b"quiet listener", true);
    if m > n {
        c.violation("thrift:listener", format!("a listener sent {} datagrams to an address that asked for nothing more", m - n), J::s(""));
    }
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one timed life of a connection, or one connection whose datagrams were all counted until 9 s after its end");
    let mut set = tokio::task::JoinSet::new();
    for k in 0..c.q(12, 120) {
        if set.len() >= 4 {
            set.join_next().await;
        }
        set.spawn(life(c.clone(), k));
    }
    while set.join_next().await.is_some() {}
    let all = TIMES.lock().unwrap().clone();
    for (name, limit) in LIMITS {
        let v: Vec<f64> = all.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
        if v.len() < 5 {
            continue;
        }
        let m = median(&v);
        c.sample(J::o(vec![("what", J::s(name)), ("median_us", J::I((m * 1000.0) as i64)), ("samples", J::I(v.len() as i64))]));
        if m > limit {
            c.violation("prompt:slow", format!("{name}: half of {} samples took more than {m:.0} ms on an idle machine and a working network; {limit} are enough", v.len()), J::s(name));
        }
    }
    set.spawn(patient(c.clone(), true));
    set.spawn(patient(c.clone(), false));
    while set.join_next().await.is_some() {}
    set.spawn(quiet(c.clone()));
    for k in 0..c.q(12, 60) {
        set.spawn(economy(c.clone(), k % 2 == 0, k / 2 % 6, k));
    }
    while set.join_next().await.is_some() {}
}
