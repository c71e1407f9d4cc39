//! C28 Memory follows what is live, not what has passed.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::time::Duration;

/// Bytes in use once nothing moves any more: the least seen within a second.
async fn settled() -> i64 {
    let mut least = i64::MAX;
    let mut still = 0;
    for _ in 0..120 {
        tokio::time::sleep(Duration::from_millis(25)).await;
        let h = heap();
        if h < least {
            least = h;
            still = 0;
        } else {
            still += 1;
            if still > 24 {
                break;
            }
        }
    }
    least
}

/// Judges the heap after each of several equal rounds.
struct Growth {
    what: &'static str,
    unit: &'static str,
    at: Vec<i64>,
    units: Vec<u64>,
    slack: f64,
}
impl Growth {
    fn new(what: &'static str, unit: &'static str) -> Growth {
        Growth { what, unit, at: vec![], units: vec![], slack: 6144.0 }
    }
    async fn mark(&mut self, units: u64) {
        self.at.push(settled().await);
        self.units.push(units);
    }
    /// The first `warm` marks are not judged; more than `per` bytes a unit is growth.
    fn judge(&self, c: &C, warm: usize, per: f64, w: J) {
        let n: u64 = self.units[warm..].iter().sum();
        let base = self.at[warm - 1];
        let grown = *self.at.last().unwrap() - base;
        c.add("units_watched", n as i64);
        c.max(&format!("bytes_per_1000_{}", self.unit.replace(' ', "_")), grown * 1000 / n.max(1) as i64);
        c.case(format!("{} {}", self.what, w.render()).as_bytes(), true);
        if std::env::var("RKV_DEBUG").is_ok() {
            eprintln!("{} {:?} {:?} -> {} of {}", self.what, self.at, w.render(), grown, n as f64 * per + self.slack);
        }
        if grown as f64 > n as f64 * per + self.slack {
            c.violation(
                format!("memory:{}", self.what),
                format!("{grown} bytes more are in use after {n} {} than before them, {:.1} each; after each round: {:?}", self.unit, grown as f64 / n as f64, self.at),
                w,
            );
        }
    }
}

/// Receives and forgets.
fn drain(s: Arc<RaknetSocket>) -> (Arc<AtomicUsize>, Task) {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let t = spawn(async move {
        while s.recv().await.is_ok() {
            m.fetch_add(1, SeqCst);
        }
    });
    (n, t)
}

/// One long-lived connection carries message after message, of every kind, with and without loss.
async fn long_lived(c: &C, stage: u8, rounds: usize, n: u64, k: u64) {
    let mut r = Rng::derive(c.seed, 0x2801, k);
    let mut l = listener().await;
    let w = J::o(vec![("loss_stage", J::I(stage as i64)), ("rounds", J::I(rounds as i64)), ("messages_a_round_and_way", J::I(n as i64))]);
    let Ok((mut a, mut b)) = lib_pair(None, &mut l).await else { return c.violation("memory:connect", "no connection", w) };
    if stage < 10 {
        a.set_loss_rate(stage);
        b.set_loss_rate(stage);
    }
    let (a, b) = (Arc::new(a), Arc::new(b));
    let ((na, _ta), (nb, _tb)) = (drain(a.clone()), drain(b.clone()));
    let mut g = Growth::new("long-lived", if stage < 10 { "messages on a lossy connection" } else { "messages" });
    let mut due = [0usize; 2];
    for _ in 0..rounds {
        for i in 0..n {
            for (d, s) in [&a, &b].into_iter().enumerate() {
                let rel = *r.pick(&[UNRELIABLE, UNREL_SEQ, RELIABLE, ORDERED, ORDERED, ORDERED, REL_SEQ]);
                let len = if rel == ORDERED && r.chance(0.05) { r.range(1341, 6000) } else { r.range(HDR as u64, 300) };
                let m = Key::new(0, d as u8, rel, i as u32, len as usize).bytes();
                if !matches!(within(8.0, s.send(&m, rel_of(rel))).await, Some(Ok(()))) {
                    return c.violation("memory:send", "send() failed", w);
                }
                due[d] += matches!(rel, RELIABLE | ORDERED) as usize;
            }
            if i % 64 == 63 {
                let _ = within(30.0, a.flush()).await;
                let _ = within(30.0, b.flush()).await;
            }
        }
        let _ = within(60.0, a.flush()).await;
        let _ = within(60.0, b.flush()).await;
        wait_until(30.0, || nb.load(SeqCst) >= due[0] && na.load(SeqCst) >= due[1]).await;
        g.mark(2 * n).await;
    }
    g.judge(c, rounds / 3, 1.0, w);
    let _ = within(5.0, a.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// A raw peer keeps a connection busy with traffic that leaves nothing to remember.
async fn chatter(c: &C, client_side: bool, rounds: usize, n: u64) {
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" }))]);
    let Ok((p, s)) = x else { return c.violation("memory:connect", "no connection", w) };
    let s = Arc::new(s);
    let (_n, _t) = drain(s.clone());
    let mut g = Growth::new("chatter", "datagrams of a peer");
    let old = p.frame(RELIABLE, &Key::new(0, 0, RELIABLE, 0, 60).bytes());
    let old_split = p.split(&Key::new(0, 0, ORDERED, 0, 3000).bytes(), 3);
    let stale = p.frame(REL_SEQ, &Key::new(0, 0, REL_SEQ, 0, 60).bytes());
    for round in 0..rounds {
        for i in 0..n {
            let q = p.next_seq();
            match i % 8 {
                // pings, repeats of frames, out of date sequenced frames, acknowledgements and
                // requests of what never was, malformed datagrams
                0 => p.raw(&enc_frames(q, &[Frame::new(UNRELIABLE, &enc_conn_ping(i as i64))])).await,
                1 => p.raw(&enc_frames(q, std::slice::from_ref(&old))).await,
                2 => p.raw(&enc_frames(q, std::slice::from_ref(&stale))).await,
                3 => p.raw(&enc_frames(q, &[old_split[i as usize % 3].clone()])).await,
                4 => p.raw(&enc_ack(NACK, &[(0, 100 + i as u32)])).await,
                5 => p.raw(&enc_ack(ACK, &[(i as u32, i as u32 + 5), (1 << 20, 1 << 22)])).await,
                6 => p.raw(&[0x84, 1, 2, 3, 0xff, 9]).await,
                _ => {
                    let m = Frame::new(UNRELIABLE, &Key::new(0, 0, UNRELIABLE, i as u32, 40).bytes());
                    p.raw(&enc_frames(q, &[m])).await
                }
            }
            if i % 16 == 15 {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        let m = p.frame(ORDERED, &Key::new(0, 0, ORDERED, 7000 + round as u32, 60).bytes());
        if !p.send_acked(&[m], 10.0).await {
            return c.violation("memory:chatter", "the connection stopped acknowledging", w);
        }
        // what the peer itself noted
        p.with(|s| {
            s.log = vec![];
            s.frames = vec![];
            s.seqs = Default::default();
            s.acked = Default::default();
            s.nacks = Default::default();
            s.ack_events = Default::default();
            s.conn_pongs = Default::default();
            s.model = Model::default();
        });
        g.mark(n).await;
    }
    g.judge(c, rounds / 3, 1.0, w);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Connections to one listener come and go.
async fn come_and_go(c: &C, rounds: usize, n: u64) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let ended = Arc::new(AtomicUsize::new(0));
    let mut g = Growth::new("come-and-go", "connections that ended");
    for round in 0..rounds {
        let mut set = tokio::task::JoinSet::new();
        for i in 0..n {
            let ended = ended.clone();
            set.spawn(async move {
                let Some(Ok(s)) = within(30.0, RaknetSocket::connect_with_version(&la, 10 + (i % 2) as u8)).await else { return false };
                let _ = within(5.0, s.send(&Key::new(0, 0, ORDERED, i as u32, 2000).bytes(), Reliability::ReliableOrdered)).await;
                let _ = within(20.0, s.recv()).await;
                if i % 3 == 0 {
                    let _ = within(5.0, s.close()).await;
                }
                drop(s);
                ended.fetch_add(1, SeqCst);
                true
            });
            while set.len() >= 8 || i + 1 == n && !set.is_empty() {
                tokio::select! {
                    x = set.join_next() => {
                        if !matches!(x, Some(Ok(true))) {
                            return c.violation("memory:connect", "no connection", J::I(round as i64));
                        }
                    }
                    s = l.accept() => {
                        if let Ok(s) = s {
                            tokio::spawn(async move {
                                if let Some(Ok(m)) = within(20.0, s.recv()).await {
                                    let _ = within(5.0, s.send(&m, Reliability::ReliableOrdered)).await;
                                    let _ = within(8.0, s.recv()).await;
                                }
                            });
                        }
                    }
                }
            }
        }
        // until every task of theirs is gone
        lsleep(1.2).await;
        g.mark(n).await;
    }
    g.judge(c, rounds / 3, 8.0, J::o(vec![("rounds", J::I(rounds as i64)), ("connections_a_round", J::I(n as i64))]));
    let _ = within(15.0, l.close()).await;
}

/// Strangers ask and go away.
async fn strangers(c: &C, rounds: usize, n: u64) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let mut g = Growth::new("strangers", "strangers that asked");
    // a bounded number of them may be remembered
    g.slack = 1_500_000.0;
    let mut asked = 0;
    for round in 0..rounds {
        for i in 0..n {
            // ports are few, addresses are many
            let host = format!("127.{}.{}.{}:0", 1 + round, i / 200 % 250, 1 + i % 200);
            let Ok(s) = std::net::UdpSocket::bind(&host) else { continue };
            asked += 1;
            let v = 10 + (i % 2) as u8;
            let _ = match i % 16 {
                0 => s.send_to(&enc_ping(1, i as i64, i), la),
                1 => s.send_to(&[0x84, 0, 0, 0, 0, 0, 8, 1], la),
                2 => s.send_to(&[0x15], la),
                _ => s.send_to(&enc_req1(v, 1400), la),
            };
            if i % 32 == 31 {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        g.mark(n).await;
    }
    c.max("distinct_stranger_addresses", asked);
    g.judge(c, 3, 4.0, J::o(vec![("rounds", J::I(rounds as i64)), ("strangers_a_round", J::I(n as i64))]));
    match lib_pair(None, &mut l).await {
        Ok((a, _b)) => {
            let _ = within(5.0, a.close()).await;
        }
        Err(e) => c.violation("memory:connect", e, J::s("after strangers")),
    }
    let _ = within(15.0, l.close()).await;
}

/// connect() that fails or is given up, ping() that is given up.
async fn failed_connects(c: &C, rounds: usize, n: u64) {
    let l = listener().await;
    let la = l.local_addr().unwrap();
    let silent = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let sa = silent.local_addr().unwrap();
    let mut g = Growth::new("failed-connects", "connect() calls that failed");
    for _ in 0..rounds {
        for i in 0..n {
            match i % 3 {
                0 => {
                    let _ = within(5.0, RaknetSocket::connect_with_version(&la, 9)).await;
                }
                1 => {
                    let _ = tokio::time::timeout(Duration::from_millis(2), RaknetSocket::connect(&sa)).await;
                }
                _ => {
                    let _ = tokio::time::timeout(Duration::from_millis(2), RaknetSocket::ping(&sa)).await;
                }
            }
        }
        lsleep(0.3).await;
        g.mark(n).await;
    }
    g.judge(c, rounds / 3, 8.0, J::I(rounds as i64));
}

/// An application that does not read: what waits for it is bounded, and goes with the connection.
async fn unread(c: &C, client_side: bool, n: u64, len: usize) {
    let mut l = listener().await;
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("messages", J::I(n as i64)), ("bytes_each", J::I(len as i64))]);
    let before = settled().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else { return c.violation("memory:connect", "no connection", w) };
    let mut most = 0;
    for i in 0..n {
        let f = p.frame(if i % 2 == 0 { RELIABLE } else { UNRELIABLE }, &Key::new(0, 0, RELIABLE, i as u32, len).bytes());
        let q = p.next_seq();
        p.raw(&enc_frames(q, &[f])).await;
        if i % 16 == 15 {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        if i % 256 == 255 {
            p.with(|s| {
                s.log = vec![];
                s.acked = Default::default();
                s.ack_events = Default::default();
                s.nacks = Default::default();
            });
            most = most.max(heap() - before);
        }
    }
    let held = settled().await - before;
    c.max("unread_bytes_held_at_most", most);
    c.max("unread_bytes_held_settled", held);
    // what a thousand of them take, the queue of the session, and as much again
    let limit = 2 * (2000 * (len as i64 + 120)) + 400_000;
    if most > limit {
        c.violation("memory:unread", format!("{most} bytes are in use for an application that does not read, of {n} messages with {len} bytes each"), w.clone());
    }
    drop(s);
    drop(p);
    if !wait_until(20.0, || heap() - before < 60_000).await {
        c.violation("memory:unread-kept", format!("20 s after the connection was dropped with unread messages {} bytes are still in use", heap() - before), w.clone());
    }
    c.case(format!("unread {client_side} {n} {len}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// A connection is dropped, or ended by its peer, with much unsent, unacknowledged and unread.
async fn dropped_full(c: &C, client_side: bool, by_peer: bool) {
    let mut l = listener().await;
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("ended_by", J::s(if by_peer { "peer" } else { "drop" }))]);
    let before = settled().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else { return c.violation("memory:connect", "no connection", w) };
    p.with(|s| {
        s.auto_ack = false;
        s.keep_log = false;
    });
    for i in 0..40 {
        let m = Key::new(0, 1, ORDERED, i, 50_000).bytes();
        if !matches!(within(8.0, s.send(&m, Reliability::ReliableOrdered)).await, Some(Ok(()))) {
            return c.violation("memory:send", "send() failed", w);
        }
    }
    // half of a compound, and ordered messages after a gap
    let parts = p.split(&Key::new(0, 0, ORDERED, 0, 100_000).bytes(), 90);
    for f in &parts[..80] {
        let q = p.next_seq();
        p.raw(&enc_frames(q, std::slice::from_ref(f))).await;
    }
    drop(parts);
    for i in 0..200 {
        let f = p.frame(ORDERED, &Key::new(0, 0, ORDERED, i, 1000).bytes());
        let q = p.next_seq();
        p.raw(&enc_frames(q, &[f])).await;
        if i % 16 == 15 {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    lsleep(0.2).await;
    c.max("bytes_held_when_dropped", heap() - before);
    if by_peer {
        for _ in 0..3 {
            p.raw(&[0x15]).await;
        }
        let ended = within(10.0, async { while s.recv().await.is_ok() {} }).await;
        if ended.is_none() {
            return c.violation("memory:end", "recv() does not fail after the peer's disconnect", w);
        }
    }
    drop(s);
    drop(p);
    if !wait_until(20.0, || heap() - before < 60_000).await {
        c.violation("memory:dropped-kept", format!("20 s after a connection was dropped with full queues {} bytes are still in use", heap() - before), w.clone());
    }
    c.case(format!("dropped_full {client_side} {by_peer}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one history; the bytes of the heap in use afterwards are compared with those before");
    let d = std::env::var("RKV_DEBUG").is_ok();
    let t = |what: &str| {
        if d {
            eprintln!("{what} {:.1}", now_ms() / 1000.0);
        }
    };
    t("long");
    long_lived(&c, 10, 6, c.q(2000, 40000), 0).await;
    long_lived(&c, 8, 6, c.q(500, 6000), 1).await;
    t("chatter");
    for side in [true, false] {
        chatter(&c, side, 6, c.q(4000, 60000)).await;
    }
    t("come");
    come_and_go(&c, 6, c.q(60, 600)).await;
    t("strangers");
    strangers(&c, 10, c.q(16000, 40000)).await;
    t("failed");
    failed_connects(&c, 6, c.q(120, 1500)).await;
    t("unread");
    for side in [true, false] {
        unread(&c, side, c.q(8000, 60000), 1000).await;
        unread(&c, side, c.q(8000, 60000), 60).await;
        for by_peer in [false, true] {
            dropped_full(&c, side, by_peer).await;
        }
    }
    t("end");
    c.max("heap_bytes_at_the_end", heap());
    c.add("allocations_made", allocations() as i64);
}
