//! C26 Simulated loss: as much as asked for, of one connection's own datagrams, and recoverable.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::time::Duration;

/// The share of a connection's datagrams that is lost at a stage.
fn share(stage: u8) -> f64 {
    (10 - stage.min(10)) as f64 / 11.0
}

/// Between a tenth of everything per stage and the exact share, with room for chance.
fn plausible(stage: u8, lost: usize, n: usize) -> bool {
    let (lo, hi) = (share(stage), (10 - stage.min(10)) as f64 / 10.0);
    let slack = |p: f64| 5.0 * (p * (1.0 - p) * n as f64).sqrt() + 0.01 * n as f64;
    if stage >= 10 {
        return lost == 0;
    }
    lost as f64 >= lo * n as f64 - slack(lo) && lost as f64 <= hi * n as f64 + slack(hi.min(0.95))
}

/// Sends `n` unreliable messages; how many the peer did not get.
async fn lost_messages(p: &Peer, s: &RaknetSocket, n: u32, tag: u32) -> Result<usize, String> {
    let mut want = std::collections::HashSet::new();
    for i in 0..n {
        let m = Key::new(0, 1, UNRELIABLE, tag * 100_000 + i, 40).bytes();
        match within(5.0, s.send(&m, Reliability::Unreliable)).await {
            Some(Ok(())) => {}
            x => return Err(format!("send() gave {x:?}")),
        }
        want.insert(m);
        if i % 8 == 7 {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    lsleep(0.3).await;
    p.with(|s| {
        for f in &s.frames {
            want.remove(&f.2.data);
        }
    });
    Ok(want.len())
}

/// Sends datagrams to the library; how many it did not acknowledge.
async fn lost_acks(p: &Peer, n: u32) -> usize {
    let ping = Frame::new(UNRELIABLE, &[3u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    let mut q = vec![];
    for i in 0..n {
        q.push(p.send(std::slice::from_ref(&ping)).await);
        if i % 4 == 3 {
            tokio::time::sleep(Duration::from_millis(4)).await;
        }
    }
    lsleep(0.3).await;
    q.iter().filter(|x| !p.is_acked(**x)).count()
}

/// Stages in turn on one connection; another connection of the same listener loses nothing.
async fn stages(c: C, client_side: bool, list: Vec<u8>) {
    let mut l = listener().await;
    let w = |stage: u8| J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("stage", J::I(stage as i64)), ("stages_in_turn", J::s(format!("{list:?}")))]);
    let mut two = vec![];
    for _ in 0..2 {
        let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
        match x {
            Ok(x) => two.push(x),
            Err(e) => return c.violation("loss:connect", e, w(10)),
        }
    }
    let (p2, s2) = two.pop().unwrap();
    let (p, mut s) = two.pop().unwrap();
    let _ = within(10.0, s.flush()).await;
    let _ = within(10.0, s2.flush()).await;
    let n = 400u32;
    // what the kernel drops, at any of the ports, is nobody's loss
    let ports: Vec<u16> = [p.addr.port(), p2.addr.port()].into_iter().chain(if client_side { s.local_addr().ok().map(|a| a.port()) } else { l.local_addr().ok().map(|a| a.port()) }).collect();
    let drops = || ports.iter().map(|p| kernel_drops(*p)).collect::<Vec<_>>();
    for (k, stage) in [255u8].iter().chain(&list).enumerate() {
        if *stage != 255 {
            s.set_loss_rate(*stage);
        }
        let before = drops();
        let (a, b) = tokio::join!(lost_messages(&p, &s, n, k as u32), lost_messages(&p2, &s2, n, k as u32));
        let (lost, other) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            x => return c.violation("loss:send", format!("{x:?}"), w(*stage)),
        };
        if drops() != before || before.contains(&None) {
            c.add("rounds_with_kernel_drops", 1);
            continue;
        }
        c.add("messages_counted", 2 * n as i64);
        c.case(format!("stage {client_side} {stage} {lost}").as_bytes(), true);
        if other != 0 {
            c.violation("loss:other", format!("a connection whose loss was never set lost {other} of {n} messages"), w(*stage));
        }
        if !plausible(*stage, lost, n as usize) {
            c.violation("loss:share", format!("at stage {stage} {lost} of {n} datagrams were lost, {:.0} % are due", share(*stage) * 100.0), w(*stage));
        }
        let la = lost_acks(&p, 200).await;
        if drops() != before {
            c.add("rounds_with_kernel_drops", 1);
            continue;
        }
        c.add("acknowledgements_counted", 200);
        // one ACK may name several numbers
        if !plausible(*stage, la, 200) {
            c.violation("loss:share-of-acks", format!("at stage {stage} {la} of 200 acknowledgements were lost, {:.0} % are due", share(*stage) * 100.0), w(*stage));
        }
    }
    let _ = within(5.0, s.close()).await;
    let _ = within(5.0, s2.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Sends of frames the peer asks for again and again: how many datagrams were sent (their numbers tell) and how many came.
async fn repetitions(c: C, client_side: bool, stage: u8) {
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, mut s)) = x else { return c.violation("loss:connect", "no connection", J::I(stage as i64)) };
    let _ = within(10.0, s.flush()).await;
    p.with(|s| s.auto_ack = false);
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("stage", J::I(stage as i64))]);
    // one is outstanding, the others leave together when it is acknowledged
    for i in 0..101u32 {
        let _ = within(5.0, s.send(&Key::new(0, 1, RELIABLE, i, 40).bytes(), Reliability::Reliable)).await;
    }
    let top = |p: &Peer| p.with(|s| s.frames.iter().map(|f| f.1).max());
    let (mut first, mut left) = (0, false);
    for _ in 0..40 {
        lsleep(0.05).await;
        first = top(&p).unwrap_or(0);
        p.raw(&enc_ack(ACK, &[(first, first)])).await;
        left = wait_until(0.3, || top(&p).is_some_and(|t| t >= first + 90)).await;
        if left {
            break;
        }
    }
    if !left {
        return c.violation("loss:send", "what was sent did not leave", w);
    }
    s.set_loss_rate(stage);
    lsleep(0.2).await;
    let port = if client_side { s.local_addr().map(|a| a.port()) } else { l.local_addr().map(|a| a.port()) }.unwrap_or(0);
    let drops = || (kernel_drops(p.addr.port()), kernel_drops(port));
    let (before, from) = (drops(), top(&p).unwrap());
    for _ in 0..12 {
        // anything sent so far may be missing
        p.raw(&enc_ack(NACK, &[(first + 1, top(&p).unwrap())])).await;
        lsleep(0.12).await;
    }
    let to = top(&p).unwrap();
    let got: std::collections::HashSet<u32> = p.with(|s| s.frames.iter().map(|f| f.1).filter(|q| *q > from && *q <= to).collect());
    if drops() != before {
        return c.add("rounds_with_kernel_drops", 1);
    }
    let n = (to - from) as usize;
    c.case(format!("repetitions {client_side} {stage} {}", got.len()).as_bytes(), true);
    c.add("repetitions_counted", n as i64);
    if stage > 0 && n < 300 {
        c.add("repetitions_too_few", 1);
    } else if n >= 50 && !plausible(stage, n - got.len(), n) {
        c.violation("loss:share-of-repetitions", format!("at stage {stage} {} of {n} repetitions were lost, {:.0} % are due", n - got.len(), share(stage) * 100.0), w);
    }
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Both ends lose datagrams by themselves: what is reliable arrives all the same, exactly once.
async fn recovers(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x26, k);
    let mut l = listener().await;
    let Ok((mut a, mut b)) = lib_pair(None, &mut l).await else { return c.violation("loss:connect", "no connection", J::I(k as i64)) };
    let (sa, sb) = (r.range(4, 10) as u8, r.range(4, 10) as u8);
    a.set_loss_rate(sa);
    b.set_loss_rate(sb);
    let w = J::o(vec![("stage_of_the_client", J::I(sa as i64)), ("stage_of_the_server", J::I(sb as i64)), ("workload", J::I(k as i64))]);
    let (a, b) = (App::new(a), App::new(b));
    let mut sent = [vec![], vec![]];
    for i in 0..40u32 {
        for d in 0..2u8 {
            let rel = *r.pick(&[ORDERED, ORDERED, RELIABLE]);
            let n = if rel == ORDERED && r.chance(0.2) { r.range(1341, 9000) } else { r.range(30, 1300) };
            let m = Key::new(0, d, rel, i, n as usize).bytes();
            let s = if d == 0 { &a.s } else { &b.s };
            if !matches!(within(5.0, s.send(&m, rel_of(rel))).await, Some(Ok(()))) {
                return c.violation("loss:send", "send() failed", w);
            }
            sent[d as usize].push((rel, m));
        }
        if r.chance(0.3) {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }
    // With more than a little loss the waits between repetitions add up without bound, so the loss ends
    // after a while: from then on nothing stands in the way.
    let heal = sa.min(sb) < 8;
    let (mut a, mut b) = (a, b);
    let (mut had_a, mut had_b) = (vec![], vec![]);
    let all_there = |x: &App, had: &Vec<Vec<u8>>, d: usize| had.len() + x.count() >= sent[d].len();
    wait_until(if heal { 20.0 } else { 150.0 }, || all_there(&b, &had_b, 0) && all_there(&a, &had_a, 1)).await;
    if heal {
        let mut out = vec![];
        for (x, had) in [(a, &mut had_a), (b, &mut had_b)] {
            let got = x.got_handle();
            let Some(mut s) = x.into_inner().await else { return c.add("reader_not_stopped", 1) };
            had.extend(got.lock().unwrap().drain(..));
            s.set_loss_rate(10);
            out.push(App::new(s));
        }
        b = out.pop().unwrap();
        a = out.pop().unwrap();
        c.add("connections_healed", 1);
        wait_until(120.0, || all_there(&b, &had_b, 0) && all_there(&a, &had_a, 1)).await;
    }
    lsleep(0.3).await;
    for (d, app, had) in [(0usize, &b, &had_b), (1, &a, &had_a)] {
        let got = [had.clone(), app.got()].concat();
        let ordered = |v: Vec<&Vec<u8>>| v.into_iter().filter(|m| m.get(..).is_some()).cloned().collect::<Vec<_>>();
        let want_o = ordered(sent[d].iter().filter(|x| x.0 == ORDERED).map(|x| &x.1).collect());
        let got_o: Vec<Vec<u8>> = got.iter().filter(|m| want_o.contains(m)).cloned().collect();
        let mut all: Vec<Vec<u8>> = sent[d].iter().map(|x| x.1.clone()).collect();
        let mut gs = got.clone();
        all.sort();
        gs.sort();
        if all != gs || want_o != got_o {
            c.violation("loss:unrecovered", format!("{} reliable messages were sent, {} received; in order: {}", all.len(), gs.len(), want_o == got_o), w.clone());
        }
        c.add("messages_recovered", gs.len() as i64);
    }
    // the end is noticed at the other side as well
    let _ = within(5.0, a.s.close()).await;
    if !wait_until(15.0, || b.ended().is_some()).await {
        c.violation("loss:close", "the peer does not notice a close at this loss", w);
    }
    c.case(format!("recovers {sa} {sb} {k}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one stage of one connection with the number of datagrams lost, or one workload between two lossy ends");
    let mut set = tokio::task::JoinSet::new();
    let mut r = Rng::derive(c.seed, 0x2600, 0);
    for k in 0..c.q(6, 40) {
        let mut v: Vec<u8> = (0..=10).collect();
        r.shuffle(&mut v);
        v.truncate(5);
        v.insert(r.below(5) as usize, 10);
        if k < 2 {
            v = vec![8, 10, 0, 10, 5];
        }
        set.spawn(stages(c.clone(), k % 2 == 0, v));
    }
    while set.join_next().await.is_some() {}
    for k in 0..c.q(10, 60) {
        while set.len() >= 5 {
            set.join_next().await;
        }
        let stage = if k < 2 { 10 } else if k < 4 { 5 } else { r.range(2, 10) as u8 };
        set.spawn(repetitions(c.clone(), k % 2 == 0, stage));
    }
    while set.join_next().await.is_some() {}
    for k in 0..c.q(24, 400) {
        while set.len() >= 12 {
            set.join_next().await;
        }
        set.spawn(recovers(c.clone(), k));
    }
    while set.join_next().await.is_some() {}
}
