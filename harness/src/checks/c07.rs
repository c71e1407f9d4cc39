//! C07 Acknowledgements are sound and complete.
use crate::monitor::*;
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;

/// Every datagram, first copy or repeat, current or stale, is acknowledged anew.
async fn repeats(c: C, client_side: bool, k: u64) {
    let mut r = Rng::derive(c.seed, 0xAC, k);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else {
        c.violation("ack:connect", "no connection", J::s("repeats"));
        return;
    };
    let app = App::new(s);
    let mut idx = 0u32;
    let mut mk = |rel: u8, n: usize| {
        idx += 1;
        Key::new(0, 0, rel, idx, n).bytes()
    };
    // datagrams of all kinds
    let mut dgs: Vec<(&'static str, Vec<Frame>)> = vec![];
    for rel in 0..5u8 {
        dgs.push(("single", vec![p.frame(rel, &mk(rel, 30))]));
        dgs.push(("large", vec![p.frame(rel, &mk(rel, 1200))]));
    }
    let sp = p.split(&mk(ORDERED, 3000), 3);
    for f in sp {
        dgs.push(("fragment", vec![f]));
    }
    let several: Vec<Frame> = (0..5u8).map(|rel| p.frame(rel, &mk(rel, 40))).collect();
    dgs.push(("several frames", several));
    let pinged = Frame::new(UNRELIABLE, &enc_conn_ping(42));
    dgs.push(("ping", vec![pinged]));
    if r.chance(0.5) {
        r.shuffle(&mut dgs);
    }
    let mut sent: Vec<(u32, Vec<u8>, &'static str)> = vec![];
    for (what, d) in &dgs {
        if r.chance(0.3) {
            for _ in 0..r.below(4) {
                p.next_seq();
            }
        }
        let seq = p.next_seq();
        let b = enc_frames(seq, d);
        p.with(|s| {
            s.acked.remove(&seq);
        });
        p.raw(&b).await;
        if !wait_until(4.0, || p.is_acked(seq)).await {
            c.violation("ack:missing", format!("a datagram ({what}) was never acknowledged"), J::o(vec![("datagram", J::s(hex(&b))), ("client_side", J::B(client_side))]));
            return;
        }
        sent.push((seq, b, what));
    }
    // repeats of the same datagrams, in random order, some several times; then frames under new numbers
    for round in 0..2 {
        r.shuffle(&mut sent);
        for (seq, b, what) in &sent {
            p.with(|s| s.acked.remove(seq));
            p.raw(b).await;
            if !wait_until(4.0, || p.is_acked(*seq)).await {
                c.violation(
                    "ack:repeat-missing",
                    format!("repeat {} of a datagram ({what}) was not acknowledged", round + 1),
                    J::o(vec![("datagram", J::s(hex(b))), ("client_side", J::B(client_side))]),
                );
                return;
            }
        }
    }
    r.shuffle(&mut dgs);
    for (what, d) in &dgs {
        let seq = p.send(d).await;
        if !wait_until(4.0, || p.is_acked(seq)).await {
            c.violation("ack:stale-missing", format!("already delivered frames ({what}) under a new number were not acknowledged"), J::o(vec![("client_side", J::B(client_side))]));
            return;
        }
    }
    c.add("repeats_acknowledged", (sent.len() * 2 + dgs.len()) as i64);
    let used: std::collections::HashSet<u32> = p.with(|s| (0..s.seq).collect());
    let bad = p.with(|s| s.ack_events.iter().find(|(_, a, b)| !(used.contains(a) && used.contains(b))).cloned());
    if let Some(b) = bad {
        c.violation("ack:unsound", format!("acknowledged {b:?}, numbers never sent"), J::s("repeats"));
    }
    c.case(format!("repeats {client_side} {k} {}", sent.iter().map(|s| s.2).collect::<String>()).as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Skipped numbers are neither acknowledged nor silently ignored.
async fn gaps(c: C, client_side: bool, k: u64) {
    let mut r = Rng::derive(c.seed, 0x6A, k);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else {
        c.violation("ack:connect", "no connection", J::s("gaps"));
        return;
    };
    let app = App::new(s);
    let mut skipped = vec![];
    let mut used: Vec<u32> = (0..p.with(|s| s.seq)).collect();
    let jumps: &[u64] = if k % 3 == 0 { &[1, 2, 50, 3000, 200_000] } else { &[1, 2, 3, 7] };
    for i in 0..20u32 {
        let rel = *r.pick(&[UNRELIABLE, RELIABLE, ORDERED, REL_SEQ, UNREL_SEQ]);
        let gap = if r.chance(0.5) { *r.pick(jumps) as u32 } else { 0 };
        if gap > 0 {
            let a = p.with(|s| s.seq);
            p.with(|s| s.seq += gap);
            skipped.push((a, a + gap - 1));
        }
        let f = p.frame(rel, &Key::new(0, 0, rel, i, 30).bytes());
        let t0 = now_ms();
        let seq = p.send(&[f]).await;
        used.push(seq);
        if !wait_until(4.0, || p.is_acked(seq)).await {
            c.violation("ack:missing", format!("datagram {seq} was never acknowledged"), J::s(format!("skipped so far {skipped:?}")));
            return;
        }
        let top = seq;
        if gap > 0 {
            let (a, b) = *skipped.last().unwrap();
            let covered = || p.with(|s| {
                let mut x = a;
                loop {
                    match s.nacks.iter().filter(|n| n.1 <= x && n.2 >= x).map(|n| n.2).max() {
                        Some(m) if m >= b => return true,
                        Some(m) => x = m + 1,
                        None => return false,
                    }
                }
            });
            if !wait_until(3.0, covered).await {
                c.violation("nack:missing", format!("datagrams {a}..={b} never arrived and were not asked for"), J::o(vec![("client_side", J::B(client_side)), ("after_ms", J::F(now_ms() - t0))]));
                return;
            }
            c.add("gaps_reported", 1);
        }
        if let Some(n) = p.with(|s| s.nacks.iter().find(|n| n.2 >= top).cloned()) {
            c.violation("nack:unsound", format!("asked for {}..={} although {top} is the highest number sent", n.1, n.2), J::B(client_side));
            return;
        }
    }
    let set: std::collections::HashSet<u32> = used.into_iter().collect();
    let bad = p.with(|s| {
        s.ack_events.iter().find(|(_, a, b)| b - a > 100_000 || (*a..=*b).any(|x| !set.contains(&x))).cloned()
    });
    if let Some(b) = bad {
        c.violation("ack:unsound", format!("acknowledged {}..={} although not all of it was sent", b.1, b.2), J::s(format!("skipped {skipped:?}")));
    }
    c.case(format!("gaps {client_side} {skipped:?}").as_bytes(), !skipped.is_empty());
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Bursts with many gaps within one reporting interval: all of them are asked for, all that came is acknowledged.
async fn bursts(c: C, client_side: bool, k: u64) {
    let mut r = Rng::derive(c.seed, 0xB0, k);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else {
        c.violation("ack:connect", "no connection", J::s("bursts"));
        return;
    };
    let app = App::new(s);
    let mut idx = 0;
    let mut used: std::collections::HashSet<u32> = (0..p.with(|s| s.seq)).collect();
    for round in 0..5 {
        let n = *r.pick(&[4usize, 12, 60, 250]);
        let mut burst: Vec<(u32, Vec<u8>)> = vec![];
        let mut skipped = vec![];
        for _ in 0..n {
            if r.chance(0.5) {
                for _ in 0..1 + r.below(3) {
                    skipped.push(p.next_seq());
                }
            }
            let rel = *r.pick(&[UNRELIABLE, RELIABLE, ORDERED, REL_SEQ]);
            let f = p.frame(rel, &Key::new(0, 0, rel, idx, 24).bytes());
            idx += 1;
            let q = p.next_seq();
            used.insert(q);
            burst.push((q, enc_frames(q, &[f])));
        }
        if r.chance(0.5) {
            for i in 1..burst.len() {
                if r.chance(0.2) {
                    burst.swap(i - 1, i);
                }
            }
        }
        let mut ok = false;
        for _ in 0..20 {
            for (q, d) in &burst {
                if !p.is_acked(*q) {
                    p.raw(d).await;
                }
            }
            ok = wait_until(0.5, || burst.iter().all(|b| p.is_acked(b.0))).await;
            if ok {
                break;
            }
        }
        let text = format!("burst of {n} datagrams, {} numbers skipped, client_side={client_side} round={round}", skipped.len());
        let w = || J::s(text.clone());
        if !ok {
            let m = burst.iter().filter(|b| !p.is_acked(b.0)).count();
            c.violation("ack:missing", format!("{m} of {n} datagrams were never acknowledged"), w());
            return;
        }
        let top = burst.iter().map(|b| b.0).max().unwrap();
        skipped.retain(|x| *x < top);
        let missing = || p.with(|s| skipped.iter().filter(|x| !s.nacks.iter().any(|n| n.1 <= **x && **x <= n.2)).count());
        if !wait_until(3.0, || missing() == 0).await {
            c.violation("nack:missing", format!("{} of {} numbers that never arrived were not asked for", missing(), skipped.len()), w());
            return;
        }
        c.add("gaps_reported", skipped.len() as i64);
    }
    if let Some(b) = p.with(|s| s.ack_events.iter().find(|(_, a, b)| b - a > 100_000 || (*a..=*b).any(|x| !used.contains(&x))).cloned()) {
        c.violation("ack:unsound", format!("acknowledged {}..={} although not all of it was sent", b.1, b.2), J::s("bursts"));
    }
    c.case(format!("bursts {client_side} {used:?}").as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Much arrives ahead of one missing ordered message and of missing fragments: it is acknowledged
/// all the same, and delivered when the missing ones come.
async fn deep(c: C, client_side: bool, k: u64) {
    let mut r = Rng::derive(c.seed, 0xDE, k);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else {
        c.violation("ack:connect", "no connection", J::s("deep"));
        return;
    };
    let app = App::new(s);
    let n = 100 + r.below(500) as u32;
    let hole = p.frame(ORDERED, &Key::new(0, 0, ORDERED, 0, 30).bytes());
    let mut late = vec![hole];
    let mut want = vec![Key::new(0, 0, ORDERED, 0, 30)];
    for i in 1..n {
        let key = Key::new(0, 0, ORDERED, i, if i % 7 == 0 { 900 } else { 30 });
        want.push(key.clone());
        let mut fr = if i % 7 == 0 { p.split(&key.bytes(), 3) } else { vec![p.frame(ORDERED, &key.bytes())] };
        if i % 21 == 0 {
            late.push(fr.remove(r.below(3) as usize));
        }
        for f in fr {
            let seq = p.send(&[f]).await;
            if !wait_until(6.0, || p.is_acked(seq)).await {
                c.violation("ack:missing", format!("ordered message {i} ahead of a missing one was not acknowledged"), J::B(client_side));
                return;
            }
        }
    }
    if app.count() != 0 {
        c.violation("ack:order", "messages were delivered past a missing ordered message", J::B(client_side));
        return;
    }
    r.shuffle(&mut late);
    for f in late {
        if !p.send_acked(&[f], 8.0).await {
            c.violation("ack:missing", "the missing frame was not acknowledged", J::B(client_side));
            return;
        }
    }
    wait_until(5.0, || app.count() >= want.len()).await;
    let got: Vec<Option<Key>> = app.got().iter().map(|m| Key::parse(m)).collect();
    if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g.as_ref() != Some(w)) {
        c.violation("ack:lost", format!("{} of {} acknowledged ordered messages were delivered, or not in order", got.len(), want.len()), J::B(client_side));
    }
    c.max("deepest_ordered_backlog", n as i64);
    c.case(format!("deep {client_side} {n}").as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one raw-peer scenario or one lossy workload whose whole trace is checked; distinct by scenario parameters or observed datagram history");
    set_chaos(0.01, 300);
    let a = async {
        let mut set = tokio::task::JoinSet::new();
        for k in 0..c.q(8, 200) {
            for side in [false, true] {
                if set.len() >= 24 {
                    set.join_next().await;
                }
                set.spawn(repeats(c.clone(), side, k));
                set.spawn(gaps(c.clone(), side, k));
                set.spawn(bursts(c.clone(), side, k));
                if k % 2 == 0 {
                    set.spawn(deep(c.clone(), side, k));
                }
            }
        }
        while set.join_next().await.is_some() {}
    };
    let all = [ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ, UNREL_SEQ];
    let b = pairs(&c, c.q(40, 700), 16, &all, |c, o| {
        for conn in 0..o.dirs.len() {
            let (f, s) = monitor(&o.trace, conn, &Opts { mtu: 1400, settled: false });
            c.add("ack_datagrams_checked", s.acks);
            c.add("nack_datagrams_checked", s.nacks);
            for x in f.iter().filter(|x| x.class == "ack") {
                c.violation(x.sig, x.what.clone(), J::o(w_cfg(o, conn, 0)));
            }
        }
    });
    let d = raws(&c, c.q(60, 1500), 12, &all, |c, o| {
        if !o.unacked.is_empty() {
            c.violation("ack:missing", format!("datagrams {:?} were never acknowledged", o.unacked), J::o(w_raw(o)));
        }
        let set: std::collections::HashSet<u32> = o.seq_sent.iter().cloned().collect();
        let lo = *o.seq_sent.iter().min().unwrap_or(&0);
        for (_, a, b) in &o.acks {
            if (*a..=*b).any(|x| x >= lo && !set.contains(&x)) {
                c.violation("ack:unsound", format!("acknowledged {a}..={b}, not all sent"), J::o(w_raw(o)));
            }
        }
        let top = *o.seq_sent.iter().max().unwrap_or(&0);
        for (_, a, b) in &o.nacks {
            if *b >= top {
                c.violation("nack:unsound", format!("asked for {a}..={b}; {top} was the highest sent"), J::o(w_raw(o)));
            }
        }
    });
    tokio::join!(a, b, d);
}
