//! C19 Unconnected ping: current MOTD and real latency.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Arc;
use std::time::Duration;

fn motd(r: &mut Rng) -> String {
    match r.below(7) {
        0 => String::from("x"),
        1 => "MCPE;Server \u{00a7}aname;486;1.18.11;0;10;1;Bedrock level;Survival;1;19132;".into(),
        2 => (0..r.range(1, 200)).map(|_| char::from(r.range(0x20, 0x7e) as u8)).collect(),
        3 => (0..r.range(1, 150)).map(|_| *r.pick(&['\u{00e9}', '\u{4e2d}', '\u{1f600}', 'a', ';'])).collect(),
        4 => "m".repeat(r.range(985, 1010) as usize),
        5 => "L".repeat(r.range(1010, 1365) as usize),
        _ => format!("motd number {}", r.next()),
    }
}

/// Sends pings until one is answered; returns the pong.
async fn ask(p: &Peer, id: u8, time: i64, guid: u64) -> Option<(i64, u64, Vec<u8>)> {
    let n = p.with(|s| s.pongs.len());
    for _ in 0..4 {
        p.raw(&enc_ping(id, time, guid)).await;
        if wait_until(1.5, || p.with(|s| s.pongs[n..].iter().any(|x| x.1 == time))).await {
            return p.with(|s| s.pongs[n..].iter().find(|x| x.1 == time).map(|x| (x.1, x.2, x.3.clone())));
        }
        // an answer with another time stamp is an answer too
        if p.with(|s| s.pongs.len() > n) {
            return p.with(|s| s.pongs.last().map(|x| (x.1, x.2, x.3.clone())));
        }
    }
    None
}

async fn raw_part(c: C, seed: u64) {
    let mut r = Rng::new(seed);
    let v6 = r.chance(0.25);
    let at = if v6 { "[::1]:0" } else { "127.0.0.1:0" };
    let Some(Ok(mut l)) = within(10.0, RaknetListener::bind(&at.parse().unwrap())).await else {
        return c.violation("ping:bind", "bind() failed", J::s(at));
    };
    // what the application set last, if anything
    let mut full: Option<String> = None;
    if r.chance(0.5) {
        let m = motd(&mut r);
        let _ = l.set_full_motd(m.clone());
        full = Some(m).filter(|m| !m.is_empty());
    }
    l.listen().await;
    let la = l.local_addr().unwrap();
    let app = if r.chance(0.6) && !v6 { lib_pair(None, &mut l).await.ok().map(|(a, b)| (App::new(a), App::new(b))) } else { None };
    let p = Peer::bind(at, Role::Mute).await;
    p.with(|s| s.to = Some(la));
    let mut guids = std::collections::HashSet::new();
    for step in 0..r.range(4, 10) {
        let how = if step == 0 { 0 } else { r.below(4) };
        match how {
            0 => {}
            1 => {
                let (name, max) = (format!("name{}", r.below(1000)), r.below(5000) as u32);
                l.set_motd(&name, max, "486", "1.18.11", "Survival", 19132).await;
                full = None;
                let now = l.get_motd().await;
                let f: Vec<&str> = now.split(';').collect();
                if !(f.contains(&name.as_str()) && f.contains(&max.to_string().as_str()) && f.contains(&"486") && f.contains(&"Survival")) {
                    c.violation("ping:set-motd", format!("after set_motd({name}, {max}, ..) the MOTD is {now:?}"), J::I(seed as i64));
                }
            }
            _ => {
                let m = motd(&mut r);
                let _ = l.set_full_motd(m.clone());
                full = Some(m);
            }
        }
        let want = l.get_motd().await;
        if full.as_ref().is_some_and(|m| *m != want) {
            c.violation("ping:set-motd", format!("the MOTD was set to {full:?} but is {want:?} (step {step})"), J::I(seed as i64));
        }
        for _ in 0..r.range(1, 3) {
            let id = *r.pick(&[1u8, 2]);
            let time = *r.pick(&[0i64, 1, -1, i64::MAX, i64::MIN, r.clone().next() as i64, 1_700_000_000_000]);
            let w = J::o(vec![
                ("seed", J::I(seed as i64)),
                ("ping_id", J::I(id as i64)),
                ("time", J::s(time.to_string())),
                ("motd_set", J::s(want.clone())),
                ("changed_after_listen", J::B(how != 0)),
            ]);
            match ask(&p, id, time, r.next()).await {
                None => c.violation("ping:unanswered", format!("a well-formed ping (id {id}) got no pong"), w),
                Some((t, g, m)) => {
                    guids.insert(g);
                    if t != time {
                        c.violation("ping:time", format!("the pong carries time {t}, the ping had {time}"), w.clone());
                    }
                    if m != want.as_bytes() {
                        c.violation("ping:motd", format!("the pong carries MOTD {:?}, the listener's is {want:?}", String::from_utf8_lossy(&m)), w);
                    }
                }
            }
            c.add("raw_pings_checked", 1);
            c.case(&[&want.as_bytes()[..want.len().min(40)], &time.to_be_bytes(), &[id]].concat(), true);
        }
        if c.failed() {
            return;
        }
    }
    if guids.len() > 1 {
        c.violation("ping:guid", format!("one listener answered pings with different guids {guids:?}"), J::I(seed as i64));
    }
    // no connection appeared
    if let Some(r) = within(0.3, l.accept()).await {
        c.violation("ping:accept", format!("pinging made accept() return {:?}", r.is_ok()), J::I(seed as i64));
    }
    // the pinging address can still connect, and its session is its first
    let q = p;
    if let Err(e) = q.connect(la, 10, 1400).await {
        c.violation("ping:then-connect", format!("an address that pinged cannot connect: {e}"), J::I(seed as i64));
        return;
    }
    let Some(Ok(s)) = within(10.0, l.accept()).await else {
        c.violation("ping:then-connect", "an address that pinged connected but accept() gave nothing", J::I(seed as i64));
        return;
    };
    // and may ping again without disturbing its connection
    for id in [1u8, 2] {
        if ask(&q, id, 99, 7).await.map(|x| x.0) != Some(99) {
            c.violation("ping:unanswered", format!("a well-formed ping (id {id}) from an address with a connection got no pong of its time"), J::I(seed as i64));
        }
    }
    let a = App::new(s);
    let m = Key::new(0, 0, ORDERED, 1, 50);
    q.msg(ORDERED, &m.bytes()).await;
    if !a.expect(&m.bytes(), 5.0).await {
        c.violation("ping:disturbed", "a connection does not deliver after its own address pinged the listener", J::I(seed as i64));
    }
    if let Some((x, y)) = app {
        let m = Key::new(1, 0, ORDERED, 1, 50).bytes();
        if x.ended().is_some() || y.ended().is_some() || x.s.send(&m, Reliability::ReliableOrdered).await.is_err() || !y.expect(&m, 5.0).await {
            c.violation("ping:disturbed", "pings disturbed an existing connection", J::I(seed as i64));
        }
    }
    let _ = within(15.0, l.close()).await;
}

/// RaknetSocket::ping through a network with a known delay.
async fn lib_part(c: C, seed: u64, base: Option<u64>) {
    let mut r = Rng::new(seed);
    let mut l = listener().await;
    let _ = l.set_full_motd(motd(&mut r));
    let la = l.local_addr().unwrap();
    let base = base.unwrap_or(*r.pick(&[0u64, 0, 20, 80, 250, 600]));
    let px = Proxy::new(la, NetCfg { base_ms: base, ..NetCfg::clean() }, seed).await;
    for i in 0..r.range(2, 4) {
        let want = l.get_motd().await;
        let sys0 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64;
        let t0 = std::time::Instant::now();
        let x = within(30.0, RaknetSocket::ping(&px.addr)).await;
        let took = t0.elapsed().as_millis() as i64;
        let sys = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64 - sys0;
        let w = J::o(vec![
            ("seed", J::I(seed as i64)),
            ("one_way_delay_ms", J::I(base as i64)),
            ("call_took_ms", J::I(took)),
            ("motd", J::s(want.clone())),
        ]);
        match x {
            None => c.violation("ping:hang", format!("ping() did not return although the listener answers (one-way delay {base} ms)"), w),
            Some(Err(e)) => c.violation("ping:error", format!("ping() failed with {e:?}"), w),
            Some(Ok((lat, m))) => {
                if m != want {
                    c.violation("ping:lib-motd", format!("ping() returned MOTD {m:?}, the listener's is {want:?}"), w.clone());
                }
                // only judged when the wall clock agreed with the monotonic one meanwhile
                if (sys - took).abs() <= 2 && (lat < 2 * base as i64 - 2 || lat > took + 3) {
                    c.violation("ping:latency", format!("ping() returned latency {lat} ms; the round trip is at least {} ms and the call took {took} ms", 2 * base), w);
                }
                c.add("lib_pings_checked", 1);
                c.max("largest_latency_ms", lat);
            }
        }
        c.case(format!("lib {base} {i} {seed}").as_bytes(), true);
        if r.chance(0.6) {
            let _ = l.set_full_motd(motd(&mut r));
        }
    }
    if within(0.2, l.accept()).await.is_some() {
        c.violation("ping:accept", "RaknetSocket::ping() made accept() return", J::I(seed as i64));
    }
    drop(px);
    let _ = within(15.0, l.close()).await;
}

/// Answers ping() with something else first: it must not be taken for the pong, nor kill the caller.
async fn odd_part(c: C, seed: u64) {
    let mut r = Rng::new(seed);
    let kind = r.below(6);
    let p = Peer::new(Role::Mute).await;
    let addr = p.addr;
    let h = tokio::spawn(async move {
        let t = std::time::Instant::now();
        let x = within(30.0, RaknetSocket::ping(&addr)).await;
        (x, t.elapsed().as_millis() as i64)
    });
    let other = Peer::new(Role::Mute).await;
    let (mut seen, mut n, mut first) = (0, 0, None);
    let end = ticks() + 3200;
    while !h.is_finished() && ticks() < end {
        tokio::time::sleep(Duration::from_millis(2)).await;
        let fresh: Vec<Rx> = p.with(|s| {
            let v = s.log[seen..].to_vec();
            seen = s.log.len();
            v
        });
        for rx in fresh {
            let Ok(Dg::Ping { time }) = decode(&rx.bytes) else { continue };
            n += 1;
            first.get_or_insert(time);
            if n == 1 {
                let bad: Vec<u8> = match kind {
                    0 => enc_pong(time, 5, &[0xff, 0xfe, 0xc0, 0x80]),
                    1 => enc_pong(time, 5, b"cut short")[..38].to_vec(),
                    2 => {
                        // right shape, another packet id
                        let mut b = enc_pong(time, 5, b"not a pong");
                        b[0] = 0x1b;
                        b
                    }
                    3 => vec![],
                    4 => vec![0x1c],
                    _ => {
                        let _ = other.sock.send_to(&enc_pong(time, 6, b"from someone else"), rx.from).await;
                        tokio::time::sleep(Duration::from_millis(20)).await;
                        enc_pong(time, 5, b"right")
                    }
                };
                let _ = p.sock.send_to(&bad, rx.from).await;
                if kind != 5 {
                    tokio::time::sleep(Duration::from_millis(r.below(20))).await;
                }
            }
            if n > 1 || kind != 5 {
                let _ = p.sock.send_to(&enc_pong(time, 5, b"right"), rx.from).await;
            }
        }
    }
    let w = J::o(vec![("kind", J::I(kind as i64)), ("seed", J::I(seed as i64))]);
    match h.await {
        Ok((Some(Ok((lat, m))), took)) => {
            if m == "right" {
                if lat < 0 || lat > took + 3 {
                    c.violation("ping:latency", format!("ping() returned latency {lat} ms; the call took {took} ms"), w);
                }
            } else if kind == 0 && m == "\u{fffd}\u{fffd}\u{fffd}\u{fffd}" {
                // a lossy rendering of an invalid MOTD is one way of coping with it
            } else {
                c.violation("ping:wrong-answer", format!("ping() returned {m:?} from something that was not the server's pong (kind {kind})"), w);
            }
        }
        // giving up with an error is a legal answer to garbage
        Ok((Some(Err(_)), _)) => {}
        Ok((None, _)) => c.violation("ping:hang", format!("ping() did not return although a pong followed (kind {kind})"), w),
        Err(_) => c.violation("ping:panic", format!("ping() panicked on an answer of kind {kind}"), w),
    }
    c.case(format!("odd {kind} {seed}").as_bytes(), true);
    c.add("odd_answers_tried", 1);
}

/// MOTD changed while pings keep coming: each answer is the MOTD before or after the change,
/// never older than the one current when its ping was sent.
async fn race_part(c: C, seed: u64) {
    let mut l = listener().await;
    let _ = l.set_full_motd("v0".into());
    let la = l.local_addr().unwrap();
    let now = Arc::new(AtomicU64::new(0));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for k in 0..4u64 {
        let (now, next, stop, c) = (now.clone(), next.clone(), stop.clone(), c.clone());
        hs.push(tokio::spawn(async move {
            let p = Peer::new(Role::Mute).await;
            p.with(|s| s.to = Some(la));
            let mut t = 0i64;
            while !stop.load(SeqCst) {
                t += 1;
                let lo = now.load(SeqCst);
                let Some((_, _, m)) = ask(&p, 1 + (t as u8 & 1), t, k).await else {
                    c.violation("ping:unanswered", "a ping got no pong while the MOTD was being changed", J::I(seed as i64));
                    return;
                };
                let hi = next.load(SeqCst);
                let v = String::from_utf8_lossy(&m).strip_prefix('v').and_then(|x| x.parse::<u64>().ok());
                match v {
                    Some(v) if v >= lo && v <= hi => c.add("concurrent_pings_checked", 1),
                    _ => {
                        c.violation("ping:stale", format!("a pong carried {:?} although v{lo} was set before its ping was sent (latest v{hi})", String::from_utf8_lossy(&m)), J::I(seed as i64));
                        return;
                    }
                }
            }
        }));
    }
    for v in 1..60u64 {
        next.store(v, SeqCst);
        let _ = l.set_full_motd(format!("v{v}"));
        now.store(v, SeqCst);
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    stop.store(true, SeqCst);
    for h in hs {
        let _ = h.await;
    }
    c.case(format!("race {seed}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one ping and the MOTD current at that time, or one ping() call through one network");
    for (round, (p, us)) in [(0.0, 0), (0.02, 800)].into_iter().enumerate() {
        set_chaos(p, us);
        let mut set = tokio::task::JoinSet::new();
        // a pong slower than the 5 s after which ping() asks again
        for (i, b) in [2600u64, 3200, 3700].into_iter().enumerate() {
            set.spawn(lib_part(c.clone(), c.seed * 31 + i as u64, Some(b)));
        }
        for k in 0..c.q(14, 150) {
            let s = c.seed * 100_003 + k * 2 + round as u64;
            while set.len() >= 12 {
                set.join_next().await;
            }
            set.spawn(raw_part(c.clone(), s));
            set.spawn(lib_part(c.clone(), s ^ 0x55, None));
            set.spawn(odd_part(c.clone(), s ^ 0xaa));
            if k % 4 == 0 {
                set.spawn(race_part(c.clone(), s ^ 0x77));
            }
        }
        while set.join_next().await.is_some() {}
    }
    set_chaos(0.0, 0);
    c.take_panics("ping");
}
