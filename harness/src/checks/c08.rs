//! C08 Unacknowledged frames are resent until acknowledged, then never.
use crate::monitor::*;
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::time::Duration;

async fn link(c: &C, client_side: bool, l: &mut RaknetListener) -> Option<(Peer, RaknetSocket)> {
    let x = if client_side { raw_server(1400).await } else { raw_client(l, 10, 1400).await };
    match x {
        Ok(x) => {
            let _ = within(10.0, x.1.flush()).await;
            Some(x)
        }
        Err(e) => {
            c.violation("resend:connect", e, J::B(client_side));
            None
        }
    }
}

/// (ms, seq) of each appearance of a reliable index
fn seen(p: &Peer, ridx: u32) -> Vec<(f64, u32)> {
    p.with(|s| s.frames.iter().filter(|f| is_reliable(f.2.rel) && f.2.ridx == ridx).map(|f| (f.0, f.1)).collect())
}
fn next_ridx(p: &Peer) -> u32 {
    p.with(|s| s.frames.iter().filter(|f| is_reliable(f.2.rel)).map(|f| f.2.ridx + 1).max().unwrap_or(0))
}

/// Nothing is acknowledged for `secs`: every frame keeps coming, unchanged, never more than about
/// 12 s apart, never faster than the 50 ms minimum.
async fn silence(c: C, client_side: bool, secs: f64, ack_delay_ms: u64) {
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    // slow acknowledgements first, so that the sender's round-trip estimate is large
    if ack_delay_ms > 0 {
        p.with(|s| s.auto_ack = false);
        for i in 0..6 {
            let r = next_ridx(&p);
            let _ = s.send(&Key::new(0, 0, RELIABLE, 900 + i, 40).bytes(), Reliability::Reliable).await;
            lsleep(ack_delay_ms as f64 / 1000.0).await;
            let Some(x) = seen(&p, r).last().cloned() else {
                c.violation("resend:never-sent", "a message was not sent at all", J::B(client_side));
                return;
            };
            p.raw(&enc_ack(ACK, &[(x.1, x.1)])).await;
            lsleep(0.05).await;
            // acknowledge everything else the estimate phase left over
            let all: Vec<u32> = seen(&p, r).iter().map(|x| x.1).collect();
            for a in all {
                p.raw(&enc_ack(ACK, &[(a, a)])).await;
            }
        }
        lsleep(0.3).await;
    }
    p.with(|s| s.auto_ack = false);
    let base = next_ridx(&p);
    let plan = [(ORDERED, 2900usize), (RELIABLE, 40), (REL_SEQ, 50), (UNRELIABLE, 33), (ORDERED, 60)];
    // one message first: it forms a batch of its own; the others queue behind it
    let _ = s.send(&Key::new(0, 0, plan[0].0, 0, plan[0].1).bytes(), rel_of(plan[0].0)).await;
    let t_start = now_ms();
    let end = ticks() + (secs * 100.0) as u64;
    let ping = Frame::new(UNRELIABLE, &enc_conn_ping(5));
    while ticks() < end {
        p.send(&[ping.clone()]).await; // keeps the connection alive
        lsleep(4.0).await;
    }
    let now = now_ms();
    let w = |r: u32, v: &[(f64, u32)]| {
        J::o(vec![
            ("reliable_index", J::I(r as i64)),
            ("library_is", J::s(if client_side { "client" } else { "server" })),
            ("ack_delay_ms", J::I(ack_delay_ms as i64)),
            ("sent_at_ms", J::s(format!("{:?}", v.iter().map(|x| (x.0 - t_start).round()).collect::<Vec<_>>()))),
        ])
    };
    for r in base..base + 3 {
        let v = seen(&p, r);
        c.add("resends_timed", v.len() as i64);
        if v.len() < 4 {
            c.violation("resend:stopped", format!("an unacknowledged frame was sent only {} times in {secs} s", v.len()), w(r, &v));
            return;
        }
        let gaps: Vec<f64> = v.windows(2).map(|x| x[1].0 - x[0].0).chain([now - v.last().unwrap().0]).collect();
        let worst = gaps.iter().cloned().fold(0.0, f64::max);
        c.max("longest_resend_interval_ms", worst as i64);
        if worst > 13_200.0 {
            c.violation("resend:too-slow", format!("{worst:.0} ms passed between two transmissions of an unacknowledged frame"), w(r, &v));
        }
        let least = gaps[..gaps.len() - 1].iter().cloned().fold(1e9, f64::min);
        // timers wake late, never early, but two late wake-ups may lie closer together
        let fast = gaps[..gaps.len() - 1].iter().filter(|g| **g < 35.0).count();
        if fast > 2 || v.len() as f64 > secs * 1000.0 / 50.0 {
            c.violation("resend:flood", format!("unacknowledged frame sent {} times, {fast} intervals under 35 ms (least {least:.1})", v.len()), w(r, &v));
        }
        let mut sq: Vec<u32> = v.iter().map(|x| x.1).collect();
        sq.sort_unstable();
        sq.dedup();
        if sq.len() != v.len() {
            c.violation("resend:same-number", "a frame was sent again under a datagram number already used", w(r, &v));
        }
        let same = p.with(|s| {
            let f: Vec<&Frame> = s.frames.iter().filter(|f| is_reliable(f.2.rel) && f.2.ridx == r).map(|f| &f.2).collect();
            f.windows(2).all(|x| x[0] == x[1])
        });
        if !same {
            c.violation("resend:changed", "a frame was sent again with other content", w(r, &v));
        }
    }
    c.case(format!("silence {client_side} {ack_delay_ms} {}", seen(&p, base).len()).as_bytes(), true);
    c.sample(w(base, &seen(&p, base)));
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// After several transmissions one of the numbers a frame was sent under is acknowledged:
/// that ends its retransmission.
async fn ack_ends(c: C, client_side: bool, which: usize, rel: u8, nack: bool) {
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    p.with(|s| s.auto_ack = false);
    let base = next_ridx(&p);
    let n = if rel == ORDERED { 2600 } else { 40 };
    let _ = s.send(&Key::new(0, 0, rel, 0, n).bytes(), rel_of(rel)).await;
    let frames = if rel == ORDERED { 2 } else { 1 };
    if nack {
        // the second transmission is one the peer asked for
        wait_until(5.0, || (base..base + frames).all(|r| !seen(&p, r).is_empty())).await;
        for r in base..base + frames {
            for x in seen(&p, r) {
                p.raw(&enc_ack(NACK, &[(x.1, x.1)])).await;
            }
        }
    }
    // at least four transmissions
    wait_until(10.0, || seen(&p, base).len() >= 4).await;
    for r in base..base + frames {
        let v = seen(&p, r);
        if v.is_empty() {
            c.violation("resend:never-sent", "a message was not sent at all", J::B(client_side));
            return;
        }
        let x = match which {
            0 => v[0],
            1 => v[v.len() / 2],
            3 => v[v.len().min(2) - 1],
            _ => *v.last().unwrap(),
        };
        p.raw(&enc_ack(ACK, &[(x.1, x.1)])).await;
    }
    lsleep(0.25).await;
    let before: Vec<usize> = (base..base + frames).map(|r| seen(&p, r).len()).collect();
    lsleep(2.5).await;
    let after: Vec<usize> = (base..base + frames).map(|r| seen(&p, r).len()).collect();
    if before != after {
        c.violation(
            "resend:after-ack",
            format!("frames went on being sent after the acknowledgement of transmission {which}: {before:?} then {after:?}"),
            J::o(vec![("reliability", J::I(rel as i64)), ("client_side", J::B(client_side)), ("nacked_first", J::B(nack))]),
        );
    }
    match within(2.0, s.flush()).await {
        Some(Ok(())) => {}
        x => c.violation("resend:still-pending", format!("everything is acknowledged but flush() gives {x:?}"), J::o(vec![("which", J::I(which as i64)), ("reliability", J::I(rel as i64))])),
    }
    c.case(format!("ack_ends {client_side} {which} {rel} {nack} {before:?}").as_bytes(), before[0] >= 4);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// A frame whose timer has backed off is resent promptly when the peer asks for it.
async fn nacked(c: C, client_side: bool, frames: u32, as_range: bool) {
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    p.with(|s| s.auto_ack = false);
    let base = next_ridx(&p);
    let _ = s.send(&Key::new(0, 0, ORDERED, 0, frames as usize * 1340 - 20).bytes(), Reliability::ReliableOrdered).await;
    // wait until the interval has grown well beyond two seconds
    let backed = wait_until(40.0, || {
        let v = seen(&p, base);
        v.len() >= 2 && v[v.len() - 1].0 - v[v.len() - 2].0 > 1900.0
    })
    .await;
    if !backed {
        c.inconclusive("the retransmission timer never backed off");
        return;
    }
    lsleep(0.2).await;
    for round in 0..3 {
        let last: Vec<u32> = (base..base + frames).map(|r| seen(&p, r).last().unwrap().1).collect();
        let n: Vec<usize> = (base..base + frames).map(|r| seen(&p, r).len()).collect();
        let (lo, hi) = (*last.iter().min().unwrap(), *last.iter().max().unwrap());
        if as_range && hi - lo == frames - 1 {
            p.raw(&enc_ack(NACK, &[(lo, hi)])).await;
        } else {
            p.raw(&enc_ack(NACK, &last.iter().map(|x| (*x, *x)).collect::<Vec<_>>())).await;
        }
        let t0 = now_ms();
        let ok = wait_until(1.2, || (0..frames).all(|i| seen(&p, base + i).len() > n[i as usize])).await;
        let w = J::o(vec![
            ("client_side", J::B(client_side)),
            ("frames", J::I(frames as i64)),
            ("round", J::I(round)),
            ("sent_at_ms", J::s(format!("{:?}", seen(&p, base).iter().map(|x| (x.0 - t0).round()).collect::<Vec<_>>()))),
        ]);
        if !ok {
            c.violation("resend:nack-ignored", "a frame reported missing was not resent within 1.2 s", w);
            return;
        }
        c.max("slowest_resend_after_nack_ms", (now_ms() - t0) as i64);
        lsleep(0.3).await;
        let extra = (0..frames).map(|i| seen(&p, base + i).len() - n[i as usize]).max().unwrap();
        if extra > 3 {
            c.violation("resend:nack-flood", format!("one NACK made it send the frame {extra} times"), w);
            return;
        }
    }
    // a NACK of numbers it does not wait for changes nothing
    let n = p.with(|s| s.frames.len());
    let far = p.with(|s| s.frames.iter().map(|f| f.1).max().unwrap()) + 1000;
    p.raw(&enc_ack(NACK, &[(far, far + 5)])).await;
    lsleep(0.2).await;
    let m = p.with(|s| s.frames.len());
    c.add("frames_after_irrelevant_nack", (m - n) as i64);
    c.case(format!("nacked {client_side} {frames} {as_range}").as_bytes(), true);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Unreliable frames are sent exactly once, acknowledged or not.
async fn unreliable_once(c: C, client_side: bool) {
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    p.with(|s| s.auto_ack = false);
    let mut want = vec![];
    for i in 0..20u32 {
        let rel = if i % 2 == 0 { UNRELIABLE } else { UNREL_SEQ };
        let k = Key::new(0, 0, rel, i, 40).bytes();
        let _ = s.send(&k, rel_of(rel)).await;
        want.push(k);
        if i == 10 {
            // ask for them again: unreliable frames cannot be repeated
            let top = p.with(|s| s.frames.iter().map(|f| f.1).max().unwrap_or(0));
            p.raw(&enc_ack(NACK, &[(top.saturating_sub(5), top)])).await;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    lsleep(1.5).await;
    for k in &want {
        let n = p.with(|s| s.frames.iter().filter(|f| f.2.data == *k).count());
        if n != 1 {
            c.violation("resend:unreliable", format!("an unreliable message was sent {n} times"), J::B(client_side));
            break;
        }
    }
    c.add("unreliable_messages_watched", want.len() as i64);
    c.case(format!("unreliable {client_side}").as_bytes(), true);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// However often send() is called meanwhile, a frame is not repeated before the 50 ms minimum.
async fn early(c: C, client_side: bool) {
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    for i in 0..40 {
        let _ = s.send(&Key::new(0, 0, RELIABLE, 800 + i, 40).bytes(), Reliability::Reliable).await;
        let _ = within(5.0, s.flush()).await;
    }
    let mut first = vec![];
    let mut later = vec![];
    for t in 0..15 {
        p.with(|s| s.auto_ack = false);
        let base = next_ridx(&p);
        for i in 0..120 {
            let _ = s.send(&Key::new(0, 0, RELIABLE, 1000 + t * 200 + i, 40).bytes(), Reliability::Reliable).await;
            tokio::time::sleep(Duration::from_millis(3)).await;
            if seen(&p, base).len() >= 3 {
                break;
            }
        }
        if !wait_until(3.0, || seen(&p, base).len() >= 3).await {
            c.violation("resend:stopped", "an unacknowledged frame was not resent within 3 s", J::B(client_side));
            return;
        }
        let v = seen(&p, base);
        first.push(v[1].0 - v[0].0);
        later.push(v[2].0 - v[1].0);
        let all: Vec<u32> = v.iter().map(|x| x.1).collect();
        p.with(|s| s.auto_ack = true);
        for a in all {
            p.raw(&enc_ack(ACK, &[(a, a)])).await;
        }
        if within(10.0, s.flush()).await.is_none() {
            c.violation("resend:still-pending", "flush() hangs although everything is acknowledged", J::B(client_side));
            return;
        }
    }
    let w = J::s(format!(
        "client_side={client_side} first repeat after ms {:?}, second after {:?}",
        first.iter().map(|x| x.round()).collect::<Vec<_>>(),
        later.iter().map(|x| x.round()).collect::<Vec<_>>()
    ));
    first.sort_by(|a, b| a.partial_cmp(b).unwrap());
    later.sort_by(|a, b| a.partial_cmp(b).unwrap());
    c.max("median_first_repeat_ms", first[7] as i64);
    c.max("median_second_repeat_ms", later[7] as i64);
    // one measured interval can shrink when a datagram is read late; most of them cannot
    if first[7] < 40.0 || later[7] < 40.0 {
        c.violation(
            "resend:too-early",
            format!("frames were repeated after {:.1} ms and again after {:.1} ms (medians of 15) while send() was called often", first[7], later[7]),
            w,
        );
    }
    c.case(format!("early {client_side} {:?}", first[7] as i64).as_bytes(), true);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// One ACK datagram acknowledges many frames, in one range or in mixed records.
async fn wide(c: C, client_side: bool, mode: u32) {
    let mut l = listener().await;
    let Some((p, s)) = link(&c, client_side, &mut l).await else { return };
    let mut r = Rng::derive(c.seed, 0x8ac, mode as u64);
    for round in 0..3u32 {
        p.with(|s| s.auto_ack = false);
        let base = next_ridx(&p);
        let n = [40u32, 90, 150][round as usize];
        let _ = s.send(&Key::new(0, 0, ORDERED, round, n as usize * 1340 - 20).bytes(), Reliability::ReliableOrdered).await;
        if !wait_until(5.0, || (0..n).all(|i| !seen(&p, base + i).is_empty())).await {
            // a full receive buffer of the harness: the library repeats them
            c.add("wide_rounds_with_missing_fragments", 1);
        }
        // the numbers last used, as ranges
        let mut nums: Vec<u32> = (0..n).filter_map(|i| seen(&p, base + i).last().map(|x| x.1)).collect();
        nums.sort_unstable();
        let mut rs: Vec<(u32, u32)> = vec![];
        for x in nums {
            match rs.last_mut() {
                Some(l) if l.1 + 1 == x && mode != 3 && (mode == 0 || r.chance(0.9)) => l.1 = x,
                _ => rs.push((x, x)),
            }
        }
        if mode == 2 {
            // also what was acknowledged long ago
            rs.push((0, rs[0].0.saturating_sub(1)));
            rs.reverse();
        }
        for part in rs.chunks(150) {
            p.raw(&enc_ack(ACK, part)).await;
        }
        lsleep(0.3).await;
        let t = now_ms();
        lsleep(1.2).await;
        let late: Vec<u32> = (0..n).filter(|i| seen(&p, base + i).last().map_or(false, |x| x.0 > t)).collect();
        let w = J::o(vec![("ranges", J::s(format!("{rs:?}"))), ("client_side", J::B(client_side)), ("frames", J::I(n as i64))]);
        if late.len() == n as usize || (!late.is_empty() && late.iter().any(|i| seen(&p, base + i).iter().any(|x| rs.iter().any(|q| q.0 <= x.1 && x.1 <= q.1)))) {
            c.violation("resend:after-range-ack", format!("{} of {n} frames went on being sent after an ACK that covers them", late.len()), w);
            return;
        }
        c.add("frames_acknowledged_by_ranges", n as i64);
        p.with(|s| s.auto_ack = true);
        if within(10.0, s.flush()).await.is_none() {
            c.violation("resend:still-pending", "flush() hangs although everything is acknowledged", w);
            return;
        }
    }
    c.case(format!("wide {client_side} {mode}").as_bytes(), true);
    let _ = within(5.0, s.close()).await;
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one raw-peer scenario (who is silent, which transmission is acknowledged, what is NACKed) or one lossy workload; distinct by parameters and observed transmissions");
    set_chaos(0.005, 200);
    let mut set = tokio::task::JoinSet::new();
    for side in [false, true] {
        set.spawn(silence(c.clone(), side, c.q(70, 150) as f64, 0));
        set.spawn(silence(c.clone(), side, c.q(70, 150) as f64, 300));
        set.spawn(silence(c.clone(), side, c.q(60, 150) as f64, 3000));
        for which in 0..4 {
            for rel in [RELIABLE, ORDERED, REL_SEQ] {
                set.spawn(ack_ends(c.clone(), side, which, rel, which == 3));
                if c.thorough {
                    set.spawn(ack_ends(c.clone(), side, which, rel, which != 3));
                }
            }
        }
        for (n, range) in [(1, false), (1, true), (3, true), (4, false)] {
            set.spawn(nacked(c.clone(), side, n, range));
        }
        set.spawn(unreliable_once(c.clone(), side));
        set.spawn(early(c.clone(), side));
        // 3: a record for each number
        for mode in 0..4 {
            set.spawn(wide(c.clone(), side, mode));
        }
    }
    let w = async { while set.join_next().await.is_some() {} };
    let all = [ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ, UNREL_SEQ];
    let b = pairs(&c, c.q(60, 800), 8, &all, |c, o| {
        for conn in 0..o.dirs.len() {
            let (f, s) = monitor(&o.trace, conn, &Opts { mtu: 1400, settled: false });
            c.add("resends_in_traces", s.resends);
            for x in f.iter().filter(|x| x.class == "resend") {
                c.violation(x.sig, x.what.clone(), J::o(w_cfg(o, conn, 0)));
            }
        }
    });
    tokio::join!(w, b);
}
