//! C32 Losses cost little: immediate acknowledgements, fast and selective retransmission, gentle backoff.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::{HashMap, HashSet};
use std::time::Duration;

async fn link(c: &C, client_side: bool, l: &mut RaknetListener) -> Option<(Peer, RaknetSocket)> {
    let x = if client_side { raw_server(1400).await } else { raw_client(l, 10, 1400).await };
    match x {
        Ok(x) => {
            let _ = within(10.0, x.1.flush()).await;
            Some(x)
        }
        Err(e) => {
            c.violation("fast:connect", e, J::B(client_side));
            None
        }
    }
}

fn seen(p: &Peer, ridx: u32) -> Vec<(f64, u32)> {
    p.with(|s| s.frames.iter().filter(|f| is_reliable(f.2.rel) && f.2.ridx == ridx).map(|f| (f.0, f.1)).collect())
}
fn next_ridx(p: &Peer) -> u32 {
    p.with(|s| s.frames.iter().filter(|f| is_reliable(f.2.rel)).map(|f| f.2.ridx + 1).max().unwrap_or(0))
}

pub fn median(v: &[f64]) -> f64 {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.total_cmp(b));
    v.get(v.len() / 2).copied().unwrap_or(0.0)
}

/// Whether the machine kept up: the share by which logical time fell behind.
pub struct Pace(f64, u64);
impl Pace {
    pub fn start() -> Pace {
        Pace(now_ms(), ticks())
    }
    pub fn kept(&self, c: &C) -> bool {
        let (wall, logical) = (now_ms() - self.0, (ticks() - self.1) as f64 * 10.0);
        let ok = wall < 1.35 * logical + 60.0;
        if !ok {
            c.add("scenarios_void_on_a_busy_machine", 1);
        }
        ok
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hint {
    /// NACK of single numbers
    Nack,
    /// NACK of a range
    NackRange,
    /// a later datagram is acknowledged
    Skip,
    /// the oldest, then one a little later
    SkipNear,
}

/// Frames that wait for a timer of seconds: what the peer reports as missing comes at once, and only that.
async fn fast(c: C, client_side: bool, hint: Hint, k: u64) {
    let mut r = Rng::derive(c.seed, 0x3201, k);
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    p.with(|s| s.auto_ack = false);
    let base = next_ridx(&p);
    // many, where each is asked for by a record of its own
    let many = hint == Hint::Nack && k % 16 >= 8;
    let n = if many { r.range(80, 160) } else { r.range(4, 9) } as u32;
    for i in 0..=n {
        let rel = *r.pick(&[ORDERED, RELIABLE, REL_SEQ]);
        let _ = s.send(&Key::new(0, 0, rel, i, 60 + 10 * i as usize % 900).bytes(), rel_of(rel)).await;
    }
    // the first forms a batch of its own
    if !wait_until(5.0, || !seen(&p, base).is_empty()).await {
        return c.violation("fast:never-sent", "a message was not sent", J::B(client_side));
    }
    for x in seen(&p, base) {
        p.raw(&enc_ack(ACK, &[(x.1, x.1)])).await;
    }
    let (first, last) = (base + 1, base + n);
    let w = |what: &str| J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("hint", J::s(format!("{hint:?}"))), ("frames", J::I(n as i64)), ("asked_for", J::s(what))]);
    // until the timer stands at about two seconds and more
    if !wait_until(40.0, || (first..=last).all(|i| seen(&p, i).len() >= 10)).await {
        return c.violation("fast:backoff", "unacknowledged frames were not sent ten times in 40 s", w(""));
    }
    let counts: HashMap<u32, usize> = (first..=last).map(|i| (i, seen(&p, i).len())).collect();
    let mut cur: Vec<(u32, u32)> = (first..=last).map(|i| (seen(&p, i).last().unwrap().1, i)).collect();
    cur.sort_unstable();
    let pace = Pace::start();
    let t0 = now_ms();
    let mut wanted: HashSet<u32> = HashSet::new();
    let mut acked: HashSet<u32> = HashSet::new();
    match hint {
        Hint::Nack => {
            let mut ranges = vec![];
            for (q, i) in &cur {
                if r.chance(0.4) {
                    wanted.insert(*i);
                    ranges.push((*q, *q));
                }
            }
            if ranges.is_empty() {
                wanted.insert(cur[1].1);
                ranges.push((cur[1].0, cur[1].0));
            }
            p.raw(&enc_ack(NACK, &ranges)).await;
        }
        Hint::NackRange => {
            let a = r.below(n as u64 - 1) as usize;
            let b = r.range(a as u64, n as u64 - 1) as usize;
            for x in &cur[a..=b] {
                wanted.insert(x.1);
            }
            p.raw(&enc_ack(NACK, &[(cur[a].0, cur[b].0)])).await;
        }
        Hint::Skip => {
            let a = r.range(1, n as u64 - 1) as usize;
            for x in &cur[..a] {
                wanted.insert(x.1);
            }
            acked.insert(cur[a].1);
            p.raw(&enc_ack(ACK, &[(cur[a].0, cur[a].0)])).await;
        }
        Hint::SkipNear => {
            let a = r.range(2, n as u64 - 1) as usize;
            for x in &cur[1..a] {
                wanted.insert(x.1);
            }
            acked.insert(cur[0].1);
            acked.insert(cur[a].1);
            p.raw(&enc_ack(ACK, &[(cur[0].0, cur[0].0)])).await;
            p.raw(&enc_ack(ACK, &[(cur[a].0, cur[a].0)])).await;
        }
    }
    wait_until(0.7, || false).await;
    let again = |i: u32| seen(&p, i).into_iter().skip(counts[&i]).map(|x| x.0 - t0).collect::<Vec<_>>();
    if pace.kept(&c) {
        let desc = format!("{wanted:?}");
        for i in first..=last {
            let v = again(i);
            if wanted.contains(&i) {
                c.add("frames_asked_for", 1);
                match v.first() {
                    Some(t) => {
                        c.max("slowest_fast_retransmission_ms", *t as i64);
                        if *t > 400.0 {
                            c.violation("fast:late", format!("a frame the peer asked for came after {t:.0} ms"), w(&desc));
                        }
                    }
                    None => c.violation("fast:late", "a frame the peer asked for did not come within 0.7 s", w(&desc)),
                }
            } else if acked.contains(&i) {
                if !v.is_empty() {
                    c.violation("fast:acked", "a frame was sent again right after its acknowledgement", w(&desc));
                }
            } else {
                c.add("frames_not_asked_for", 1);
                // its timer may have run out in this very moment, after ten times it stands at 1.9 s
                if !v.is_empty() && seen(&p, i).iter().rev().take(2).map(|x| x.0).reduce(|a, b| a - b).unwrap_or(0.0) < 900.0 {
                    c.violation("fast:unselective", "a frame nobody asked for was sent again along with those that were asked for", w(&desc));
                }
            }
        }
        c.case(format!("fast {client_side} {hint:?} {n} {}", wanted.len()).as_bytes(), true);
    }
    // all of it is acknowledged
    let mut all: Vec<(u32, u32)> = (first..=last).flat_map(|i| seen(&p, i)).map(|x| (x.1, x.1)).collect();
    all.sort_unstable();
    for part in all.chunks(if many { 150 } else { 1 }) {
        p.raw(&enc_ack(ACK, part)).await;
    }
    if !matches!(within(5.0, s.flush()).await, Some(Ok(()))) {
        c.violation("fast:flush", "flush() did not return though everything was acknowledged", w(""));
    }
    if many {
        // each of these acknowledgements measured seconds
        let _ = within(5.0, s.close()).await;
        let _ = within(15.0, l.close()).await;
        return;
    }
    // a new frame starts with a short timer again
    let b = next_ridx(&p);
    let pace = Pace::start();
    let _ = s.send(&Key::new(0, 0, RELIABLE, 900, 50).bytes(), Reliability::Reliable).await;
    wait_until(3.0, || seen(&p, b).len() >= 2).await;
    let v = seen(&p, b);
    if pace.kept(&c) {
        let gap = if v.len() >= 2 { v[1].0 - v[0].0 } else { 3000.0 };
        c.max("slowest_first_repetition_ms", gap as i64);
        // the estimate is an average with what these acknowledgements measured, about a second
        if gap > 2000.0 {
            c.violation("fast:timer-kept", format!("a new frame is repeated only after {gap:.0} ms once earlier ones had waited long"), w(""));
        }
    }
    for x in seen(&p, b) {
        p.raw(&enc_ack(ACK, &[(x.1, x.1)])).await;
    }
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// A frame that was asked for many times waits no longer than any other: (wait, repetitions without a request).
async fn asked_often(c: &C, client_side: bool) -> Option<(f64, usize)> {
    let mut l = listener().await;
    let (p, s) = link(c, client_side, &mut l).await?;
    p.with(|s| s.auto_ack = false);
    let base = next_ridx(&p);
    let _ = s.send(&Key::new(0, 0, RELIABLE, 0, 50).bytes(), Reliability::Reliable).await;
    for k in 0..10 {
        if !wait_until(5.0, || seen(&p, base).len() > k).await {
            return Some((5000.0, k));
        }
        let q = seen(&p, base).last().unwrap().1;
        p.raw(&enc_ack(NACK, &[(q, q)])).await;
    }
    let n = seen(&p, base).len();
    wait_until(8.0, || seen(&p, base).len() >= n + 2).await;
    let v = seen(&p, base);
    let wait = if v.len() >= n + 2 { v[n + 1].0 - v[n].0 } else { 8000.0 };
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
    Some((wait, n))
}

async fn asked_for_often(c: C, client_side: bool) {
    let pace = Pace::start();
    let mut set = tokio::task::JoinSet::new();
    for _ in 0..5 {
        let c = c.clone();
        set.spawn(async move { asked_often(&c, client_side).await });
    }
    let mut v = vec![];
    while let Some(x) = set.join_next().await {
        match x {
            Ok(Some((w, _))) => v.push(w),
            _ => return,
        }
    }
    if pace.kept(&c) {
        let m = median(&v);
        c.case(format!("asked for often {client_side}").as_bytes(), true);
        c.max("wait_after_ten_requests_ms", m as i64);
        if m > 700.0 {
            c.violation("fast:asked-counts", format!("a frame sent ten times because the peer asked for it was repeated by the timer only after {m:.0} ms"), J::B(client_side));
        }
    }
}

/// The time from a datagram to its acknowledgement, and from a gap to its NACK.
async fn acks(c: C, client_side: bool, k: u64) {
    let mut r = Rng::derive(c.seed, 0x3202, k);
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    let app = App::new(s);
    let pace = Pace::start();
    let mut times: HashMap<&str, Vec<f64>> = HashMap::new();
    let mut nacks = vec![];
    let mut missing = 0;
    for i in 0..100u32 {
        tokio::time::sleep(Duration::from_millis(r.range(20, 110))).await;
        let kind = ["single", "behind a gap", "repeated", "fragment", "unreliable"][i as usize % 5];
        let m = Key::new(0, 2, RELIABLE, i, 60).bytes();
        let f = match kind {
            "fragment" => p.split(&Key::new(0, 2, ORDERED, i, 900).bytes(), 2).remove(0),
            "unreliable" => p.frame(UNRELIABLE, &Key::new(0, 2, UNRELIABLE, i, 60).bytes()),
            _ => p.frame(RELIABLE, &m),
        };
        let gap = (kind == "behind a gap").then(|| p.next_seq());
        let t0 = now_ms();
        let q = p.send(&[f.clone()]).await;
        if kind == "repeated" {
            wait_until(1.0, || p.is_acked(q)).await;
            tokio::time::sleep(Duration::from_millis(r.range(20, 60))).await;
        }
        let (t0, q) = if kind == "repeated" { (now_ms(), p.send(&[f]).await) } else { (t0, q) };
        if !wait_until(2.0, || p.is_acked(q)).await {
            missing += 1;
        }
        if let Some(t) = p.with(|s| s.ack_events.iter().find(|e| e.1 <= q && q <= e.2).map(|e| e.0)) {
            times.entry(kind).or_default().push(t - t0);
        }
        if let Some(g) = gap {
            wait_until(2.0, || p.with(|s| s.nacks.iter().any(|x| x.1 <= g && g <= x.2))).await;
            nacks.push(p.with(|s| s.nacks.iter().find(|x| x.1 <= g && g <= x.2).map(|x| x.0 - t0)).unwrap_or(2000.0));
            // fill it
            let f = p.frame(RELIABLE, &Key::new(0, 2, RELIABLE, 1000 + i, 40).bytes());
            p.raw(&enc_frames(g, &[f])).await;
        }
    }
    if !pace.kept(&c) {
        return;
    }
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("workload", J::I(k as i64))]);
    if missing > 2 {
        c.violation("fast:no-ack", format!("{missing} of 100 datagrams were not acknowledged within 2 s"), w.clone());
    }
    for (kind, v) in &times {
        let m = median(v);
        c.add("acknowledgements_timed", v.len() as i64);
        c.max("median_ack_delay_us", (m * 1000.0) as i64);
        c.case(format!("acks {client_side} {kind} {k}").as_bytes(), true);
        if m > 15.0 {
            c.violation("fast:ack-delayed", format!("half of the datagrams ({kind}) were acknowledged only after {m:.1} ms on an idle machine"), w.clone());
        }
    }
    let m = median(&nacks);
    c.max("median_nack_delay_ms", m as i64);
    if m > 200.0 {
        c.violation("fast:nack-late", format!("half of the gaps were reported only after {m:.0} ms"), w.clone());
    }
    nacks.sort_by(f64::total_cmp);
    let tenth = nacks.len() - 1 - nacks.len() / 10;
    c.max("nine_tenths_nack_delay_ms", nacks[tenth] as i64);
    if nacks[tenth] > 350.0 {
        c.violation("fast:nack-late", format!("a tenth of the gaps were reported only after {:.0} ms", nacks[tenth]), w);
    }
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// The times at which a frame is sent that nobody acknowledges.
async fn silent(c: &C, client_side: bool) -> Option<Vec<f64>> {
    let mut l = listener().await;
    let (p, s) = link(c, client_side, &mut l).await?;
    p.with(|s| s.auto_ack = false);
    let base = next_ridx(&p);
    let _ = s.send(&Key::new(0, 0, RELIABLE, 0, 50).bytes(), Reliability::Reliable).await;
    lsleep(14.0).await;
    let v = seen(&p, base).iter().map(|x| x.0).collect();
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
    Some(v)
}

/// Waits grow by a half each time.
async fn backoff(c: C, client_side: bool) {
    let pace = Pace::start();
    let mut set = tokio::task::JoinSet::new();
    for _ in 0..5 {
        let c = c.clone();
        set.spawn(async move { silent(&c, client_side).await });
    }
    let mut all = vec![];
    while let Some(x) = set.join_next().await {
        match x {
            Ok(Some(v)) => all.push(v),
            _ => return,
        }
    }
    if !pace.kept(&c) {
        return;
    }
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("sent_at_ms", J::s(format!("{:?}", all.iter().map(|v| v.iter().map(|x| (x - v[0]).round()).collect::<Vec<_>>()).collect::<Vec<_>>())))]);
    c.sample(w.clone());
    let least = all.iter().map(|v| v.len()).min().unwrap_or(0);
    let gap = |k: usize| median(&all.iter().filter(|v| v.len() > k + 1).map(|v| v[k + 1] - v[k]).collect::<Vec<_>>());
    c.case(format!("backoff {client_side} {least}").as_bytes(), true);
    c.max("transmissions_in_14_s", least as i64);
    if least < 2 || gap(0) > 250.0 {
        return c.violation("fast:first-repetition", format!("on a network that had answered at once an unacknowledged frame was repeated after {:.0} ms", if least < 2 { 14_000.0 } else { gap(0) }), w);
    }
    for k in 0..least.saturating_sub(2) {
        if gap(k + 1) > 1.5 * gap(k) + 130.0 {
            return c.violation("fast:backoff", format!("the waits of an unacknowledged frame grew from {:.0} to {:.0} ms, by more than a half", gap(k), gap(k + 1)), w);
        }
    }
    if least < 10 {
        c.violation("fast:backoff", format!("an unacknowledged frame was sent {least} times in 14 s"), w);
    }
}

/// After an outage of `secs` whose last transmission is acknowledged at once: the wait of the next frame.
async fn recovered(c: &C, client_side: bool, secs: f64) -> Option<f64> {
    let mut l = listener().await;
    let (p, s) = link(c, client_side, &mut l).await?;
    p.with(|s| s.auto_ack = false);
    let base = next_ridx(&p);
    let _ = s.send(&Key::new(0, 0, RELIABLE, 0, 50).bytes(), Reliability::Reliable).await;
    lsleep(secs).await;
    let n = seen(&p, base).len();
    if !wait_until(6.0, || seen(&p, base).len() > n).await {
        return Some(6000.0);
    }
    let q = seen(&p, base).last().unwrap().1;
    p.raw(&enc_ack(ACK, &[(q, q)])).await;
    if !matches!(within(5.0, s.flush()).await, Some(Ok(()))) {
        return Some(5000.0);
    }
    let b = next_ridx(&p);
    let _ = s.send(&Key::new(0, 0, RELIABLE, 1, 50).bytes(), Reliability::Reliable).await;
    wait_until(6.0, || seen(&p, b).len() >= 2).await;
    let v = seen(&p, b);
    let wait = if v.len() >= 2 { v[1].0 - v[0].0 } else { 6000.0 };
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
    Some(wait)
}

/// An outage that is over slows nothing down: what is measured is the network, not the waiting.
async fn outage_over(c: C, client_side: bool) {
    let pace = Pace::start();
    let mut set = tokio::task::JoinSet::new();
    for _ in 0..7 {
        let c = c.clone();
        set.spawn(async move { recovered(&c, client_side, 4.0).await });
    }
    let mut v = vec![];
    while let Some(x) = set.join_next().await {
        match x {
            Ok(Some(w)) => v.push(w),
            _ => return,
        }
    }
    if pace.kept(&c) {
        let m = median(&v);
        c.case(format!("outage over {client_side}").as_bytes(), true);
        c.max("wait_after_an_outage_ms", m as i64);
        if m > 400.0 {
            c.violation("fast:outage-kept", format!("after four seconds without an answer, and a quick one then, a new frame is repeated only after {m:.0} ms"), J::B(client_side));
        }
    }
}

/// The benchmark of the README: 800 bytes every 30 ms, 100 times, while half of the datagrams are lost.
async fn benchmark(c: C, kind: u64, k: u64) {
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), c.seed * 100 + k).await;
    let Ok((a, mut b)) = lib_pair(Some(&px), &mut l).await else { return c.violation("fast:connect", "no connection", J::I(k as i64)) };
    let _ = within(5.0, b.flush()).await;
    if kind == 0 {
        b.set_loss_rate(5);
    } else {
        px.set(NetCfg { drop: [0.0, 0.1, 0.3][kind as usize], ..NetCfg::clean() });
    }
    let pace = Pace::start();
    let mut at = vec![];
    let reader = tokio::spawn(async move {
        let mut v = vec![];
        while v.len() < 100 {
            match within(60.0, a.recv()).await {
                Some(Ok(_)) => v.push(now_ms()),
                _ => break,
            }
        }
        (v, a)
    });
    for i in 0..100u32 {
        at.push(now_ms());
        let _ = within(5.0, b.send(&Key::new(0, 1, ORDERED, i, 800).bytes(), Reliability::ReliableOrdered)).await;
        tokio::time::sleep(Duration::from_millis(30)).await;
    }
    let Ok((got, a)) = reader.await else { return };
    let w = J::o(vec![("loss", J::s(["half of the server's datagrams", "a tenth, both ways", "three tenths, both ways"][kind as usize])), ("workload", J::I(k as i64))]);
    if pace.kept(&c) {
        if got.len() < 100 {
            c.violation("fast:delay", format!("{} of 100 messages arrived", got.len()), w);
        } else {
            let mean = got.iter().zip(&at).map(|(g, s)| g - s).sum::<f64>() / 100.0;
            MEANS.lock().unwrap().push((kind, mean));
            c.add("delays_measured", 100);
            c.case(format!("benchmark {kind} {}", mean as i64 / 50).as_bytes(), true);
        }
    }
    let _ = within(5.0, a.close()).await;
    let _ = within(15.0, l.close()).await;
}

static MEANS: std::sync::Mutex<Vec<(u64, f64)>> = std::sync::Mutex::new(vec![]);

pub async fn run(c: C) {
    c.rule("one case = one set of frames whose retransmission was asked for, one kind of datagram with its acknowledgement times, one backoff series or one run of the README's benchmark");
    let mut set = tokio::task::JoinSet::new();
    for k in 0..c.q(16, 120) {
        set.spawn(fast(c.clone(), k % 2 == 0, [Hint::Nack, Hint::NackRange, Hint::Skip, Hint::SkipNear][k as usize / 2 % 4], k));
    }
    set.spawn(asked_for_often(c.clone(), true));
    set.spawn(asked_for_often(c.clone(), false));
    set.spawn(backoff(c.clone(), true));
    set.spawn(backoff(c.clone(), false));
    set.spawn(outage_over(c.clone(), true));
    set.spawn(outage_over(c.clone(), false));
    while set.join_next().await.is_some() {}
    for k in 0..c.q(2, 20) {
        set.spawn(acks(c.clone(), k % 2 == 0, k));
    }
    while set.join_next().await.is_some() {}
    for k in 0..c.q(24, 240) {
        if set.len() >= 12 {
            set.join_next().await;
        }
        set.spawn(benchmark(c.clone(), k % 3, k));
    }
    while set.join_next().await.is_some() {}
    let all = MEANS.lock().unwrap().clone();
    for kind in 0..3u64 {
        let v: Vec<f64> = all.iter().filter(|x| x.0 == kind).map(|x| x.1).collect();
        if v.len() < 5 {
            continue;
        }
        let m = median(&v);
        // ten times what single runs usually show: the tail of a run with an unlucky message is long
        let limit = [2000.0, 300.0, 2000.0][kind as usize];
        if m > limit {
            c.violation("fast:delay", format!("the mean delay of 100 messages was above {limit} ms in half of the runs: {:?}", v.iter().map(|x| x.round()).collect::<Vec<_>>()), J::I(kind as i64));
        }
        c.max(["mean_delay_ms_half_lost", "mean_delay_ms_tenth_lost", "mean_delay_ms_three_tenths_lost"][kind as usize], m as i64);
    }
}
