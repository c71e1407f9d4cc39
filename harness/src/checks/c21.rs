//! C21 Connections survive counter wrap-around.
use crate::monitor::*;
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::Reliability;
use std::time::Duration;

const ALL: [u8; 7] = [ORDERED, ORDERED, RELIABLE, RELIABLE, UNRELIABLE, REL_SEQ, UNREL_SEQ];

fn counters(r: &mut Rng, k: u64) -> [u32; 5] {
    // each counter wraps somewhere in the middle of the workload, or (rarely) starts at zero
    let mut near = |most: u64| {
        if k % 4 == 3 && r.chance(0.4) {
            0
        } else {
            (M24 + 1 - r.range(2, most) as u32) & M24
        }
    };
    let (a, b, c, d) = (near(90), near(60), near(15), near(30));
    [a, b, c, d, 65536 - r.range(1, 8) as u32]
}

fn pair_oracles(c: &Ctx, o: &PairOut) {
    for (i, d) in o.dirs.iter().enumerate() {
        for (j, x) in d.iter().enumerate() {
            oracle_ordered(c, &x.sent, &x.got, o.complete, w_cfg(o, i, j));
            oracle_reliable(c, &x.sent, &x.got, w_cfg(o, i, j));
            oracle_sequenced(c, &x.sent, &x.got, true, w_cfg(o, i, j));
            let copies = unreliable_copies(&o.trace, i, j as u8);
            oracle_integrity(c, i, &x.sent, &x.got, &copies, w_cfg(o, i, j));
        }
        let (f, st) = monitor(&o.trace, i, &Opts { mtu: 1400, settled: true });
        c.add("datagrams_checked_across_the_wrap", st.datagrams);
        c.add("resends_across_the_wrap", st.resends);
        for x in f {
            let mut w = w_cfg(o, i, 0);
            w.push(("first_counters", J::s(format!("{:?}", start()))));
            c.violation(format!("wrap:{}", x.sig), x.what, J::o(w));
        }
    }
}

/// More than 65536 split messages from a raw peer, with repeated stale fragments, over a few thousand datagrams.
async fn compounds(c: C, client_side: bool, n: u32) {
    let mut r = Rng::derive(c.seed, 0xC0, client_side as u64);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else {
        c.violation("wrap:connect", "no connection", J::s("compounds"));
        return;
    };
    p.with(|s| s.keep_log = false);
    let app = App::new(s);
    let mut sent: Vec<Key> = vec![];
    let mut cur: Vec<Frame> = vec![];
    let mut room = 1300usize;
    let mut stale: Vec<Frame> = vec![];
    let mut lost = false;
    let mut batch = vec![];
    for i in 0..n {
        let k = Key::new(0, 0, ORDERED, i, HDR + (i % 5) as usize);
        let mut fr = p.split(&k.bytes(), 2);
        if r.chance(0.3) {
            fr.reverse();
        }
        // an old fragment once more: the sender never saw its acknowledgement
        if r.chance(0.05) && !stale.is_empty() {
            fr.push(r.pick(&stale).clone());
        }
        if r.chance(0.01) {
            stale.push(fr[0].clone());
            if stale.len() > 20 {
                stale.remove(0);
            }
        }
        sent.push(k);
        for f in fr {
            let b = f.header() + f.data.len();
            if b > room {
                batch.push((p.next_seq(), std::mem::take(&mut cur)));
                room = 1300;
            }
            room -= b;
            cur.push(f);
        }
        if batch.len() >= 12 || i + 1 == n {
            if i + 1 == n {
                batch.push((p.next_seq(), std::mem::take(&mut cur)));
            }
            for _ in 0..40 {
                for (q, d) in &batch {
                    if !p.is_acked(*q) {
                        p.raw(&enc_frames(*q, d)).await;
                    }
                }
                if wait_until(0.5, || batch.iter().all(|b| p.is_acked(b.0))).await {
                    break;
                }
            }
            if !batch.iter().all(|b| p.is_acked(b.0)) {
                lost = true;
                break;
            }
            batch.clear();
        }
    }
    let n = sent.len();
    wait_until(20.0, || app.count() >= n).await;
    c.case(format!("compounds {client_side} {n}").as_bytes(), n > 65536);
    c.add("split_messages_from_one_peer", n as i64);
    if lost {
        c.violation("wrap:compound-unacked", format!("after about {n} split messages datagrams were no longer acknowledged"), J::s(format!("client_side={client_side}")));
    }
    oracle_ordered(&c, &sent, &app.got(), true, vec![("scenario", J::s(format!("{n} split messages from a raw peer, client_side={client_side}")))]);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// More than 65536 split messages sent by the library.
async fn lib_compounds(c: C, n: u32) {
    let mut l = listener().await;
    let to = l.local_addr().unwrap();
    let p = Peer::new(Role::Client).await;
    let (a, s) = tokio::join!(p.connect(to, 10, 400), within(20.0, l.accept()));
    let (Ok(()), Some(Ok(s))) = (a, s) else {
        c.violation("wrap:connect", "no connection", J::s("lib_compounds"));
        return;
    };
    p.with(|s| s.keep_log = false);
    let app = App::new(s);
    let mut done = 0u32;
    let mut bad = None;
    while done < n && bad.is_none() {
        let m = (n - done).min(600);
        let mut want = vec![];
        for i in done..done + m {
            let k = Key::new(0, 1, ORDERED, i, 345);
            match within(30.0, app.s.send(&k.bytes(), rel_of(ORDERED))).await {
                Some(Ok(())) => want.push(k.bytes()),
                x => {
                    bad = Some(format!("send of split message {i}: {x:?}"));
                    break;
                }
            }
        }
        let w = want.len();
        if !wait_until(60.0, || p.user_count() >= w).await && bad.is_none() {
            bad = Some(format!("split message {} or later never arrived complete", done + p.user_count() as u32));
        }
        let have: Vec<Vec<u8>> = p.user().into_iter().map(|x| x.1).collect();
        if bad.is_none() && have != want {
            bad = Some(format!("split messages {done}.. arrived altered or out of order"));
        }
        p.with(|s| {
            s.model.out.clear();
            s.frames.clear();
        });
        done += m;
    }
    c.case(format!("lib_compounds {done}").as_bytes(), done > 65536);
    c.add("split_messages_from_the_library", done as i64);
    if let Some(e) = bad {
        c.violation("wrap:compound-id", e, J::s(format!("the library sends {n} messages of 345 bytes with an MTU of 400")));
    }
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// A raw peer whose datagram numbers and sequenced indexes jump (everything between lost) across the wrap.
async fn jumps(c: C, client_side: bool, k: u64) {
    let mut r = Rng::derive(c.seed, 0x1A, k);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let Ok((p, s)) = x else {
        c.violation("wrap:connect", "no connection", J::s("jumps"));
        return;
    };
    let app = App::new(s);
    let mut pos: u64 = 0;
    let mut spos: u64 = 0;
    let mut idx = 0;
    let mut hist = vec![];
    for step in 0..14 {
        // jumps of less than half the number space
        let j = *r.pick(&[1u64, 2, 1000, 5_000_000, 8_000_000]);
        pos += j;
        p.with(|s| s.seq = s.seq.wrapping_add(j as u32) & M24);
        if r.chance(0.7) {
            let j = *r.pick(&[1u64, 3, 1000, 6_000_000, 8_000_000]);
            spos += j;
            p.with(|s| s.sidx = s.sidx.wrapping_add(j as u32) & M24);
        }
        for rel in [UNREL_SEQ, ORDERED, REL_SEQ, RELIABLE] {
            let m = Key::new(0, 0, rel, idx, 30 + step as usize).bytes();
            idx += 1;
            let f = p.frame(rel, &m);
            let old = if rel == UNREL_SEQ && step > 0 {
                // a sequenced message from before the jump, arriving late
                let mut o = f.clone();
                o.sidx = o.sidx.wrapping_sub(r.range(1, 1000) as u32) & M24;
                o.data = Key::new(0, 0, rel, idx, 40).bytes();
                idx += 1;
                Some(o)
            } else {
                None
            };
            hist.push(format!("{rel}:seq {} sidx {}", p.with(|s| s.seq), f.sidx));
            let okk = p.send_acked(&[f], 6.0).await;
            if !okk {
                c.violation("wrap:unacked", format!("after datagram numbers {pos} ahead of the first, a datagram was not acknowledged"), J::s(hist.join("; ")));
                return;
            }
            if !app.expect(&m, 5.0).await {
                c.violation(
                    format!("wrap:undelivered-{rel}"),
                    format!("a message of reliability {rel} was acknowledged but not delivered after jumps of {pos} datagrams and {spos} sequenced messages"),
                    J::s(hist.join("; ")),
                );
                return;
            }
            if let Some(o) = old {
                let m = o.data.clone();
                p.send_acked(&[o], 6.0).await;
                lsleep(0.03).await;
                if app.has(&m) {
                    c.violation("wrap:stale-sequenced", "a sequenced message older than one delivered before was delivered near the wrap", J::s(hist.join("; ")));
                    return;
                }
            }
        }
    }
    c.case(hist.join(";").as_bytes(), pos > M24 as u64);
    c.max("datagram_numbers_covered_by_jumps", pos as i64);
    let bad = p.with(|s| s.nacks.iter().filter(|n| n.1 > n.2 || n.2 > M24).cloned().collect::<Vec<_>>());
    if let Some(b) = bad.first() {
        c.violation("wrap:nack-range", format!("malformed NACK range {}..{}", b.1, b.2), J::s(hist.join("; ")));
    }
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// The library acknowledged by a raw peer in unusual ways while its numbers wrap.
async fn acks_at_wrap(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0xAE, k);
    let mut l = listener().await;
    let Ok((p, s)) = raw_client(&mut l, 10, 1400).await else {
        c.violation("wrap:connect", "no connection", J::s("acks_at_wrap"));
        return;
    };
    let app = App::new(s);
    p.with(|s| s.auto_ack = false);
    let n = r.range(20, 60) as u32;
    let (p2, seed) = (&p, c.seed);
    let acker = async {
        let mut r = Rng::derive(seed, 0xAF, k);
        let mut done: std::collections::HashSet<u32> = Default::default();
        loop {
            lsleep(0.04).await;
            let mut new: Vec<u32> = p2.with(|s| s.seqs.iter().filter(|q| !done.contains(q)).cloned().collect());
            new.retain(|_| r.chance(0.7));
            // ranges that never cross the wrap, in any order
            new.sort_unstable();
            let mut ranges: Vec<(u32, u32)> = vec![];
            for q in &new {
                match ranges.last_mut() {
                    Some(x) if x.1 + 1 == *q => x.1 = *q,
                    _ => ranges.push((*q, *q)),
                }
            }
            r.shuffle(&mut ranges);
            if !ranges.is_empty() {
                if r.chance(0.3) {
                    p2.raw(&enc_ack(NACK, &ranges)).await;
                } else {
                    p2.raw(&enc_ack(ACK, &ranges)).await;
                    done.extend(new);
                }
            }
        }
    };
    let work = async {
        let mut want = vec![];
        for i in 0..n {
            let rel = *r.pick(&[ORDERED, RELIABLE]);
            let key = Key::new(0, 1, rel, i, if rel == ORDERED && r.chance(0.2) { 3000 } else { 60 });
            if app.s.send(&key.bytes(), rel_of(rel)).await.is_ok() {
                want.push(key);
            }
            if r.chance(0.3) {
                lsleep(0.02).await;
            }
        }
        let f = within(60.0, app.s.flush()).await;
        (want, f)
    };
    let (want, f) = tokio::select! { x = work => x, _ = acker => unreachable!() };
    c.case(format!("acks_at_wrap {k} {:?}", start()).as_bytes(), true);
    let w = J::s(format!("first counters {:?}, {n} messages, acknowledgements in random ranges, some refused with NACK", start()));
    match f {
        Some(Ok(())) => {}
        x => c.violation("wrap:flush", format!("flush() gave {x:?} although every datagram is acknowledged in the end"), w.clone()),
    }
    let got: Vec<Vec<u8>> = p.user().into_iter().map(|x| x.1).collect();
    oracle_ordered(&c, &want, &got, true, vec![("scenario", w.clone())]);
    oracle_reliable(&c, &want, &got, vec![("scenario", w)]);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Frames sent across the wrap, of which only the first transmission is ever acknowledged.
async fn first_number(c: C, k: u64) {
    let mut l = listener().await;
    let Ok((p, s)) = raw_client(&mut l, 10, 1400).await else {
        c.violation("wrap:connect", "no connection", J::s("first_number"));
        return;
    };
    let app = App::new(s);
    let _ = within(10.0, app.s.flush()).await;
    let Some(last) = p.with(|s| s.frames.last().map(|f| f.1)) else { return };
    let togo = (M24 - last) & M24;
    if !(4..200).contains(&togo) {
        let _ = within(5.0, app.s.close()).await;
        let _ = within(15.0, l.close()).await;
        return;
    }
    // a lone frame, and behind it so many that their numbers pass the wrap
    p.with(|s| s.auto_ack = false);
    let base = p.with(|s| s.frames.len());
    let n = togo + 10;
    let _ = app.s.send(&Key::new(0, 1, RELIABLE, 0, 40).bytes(), Reliability::Reliable).await;
    for i in 1..=n {
        let _ = app.s.send(&Key::new(0, 1, RELIABLE, i, 40).bytes(), Reliability::Reliable).await;
    }
    let firsts = || {
        p.with(|s| {
            let mut v: Vec<(u32, u32)> = vec![];
            for f in s.frames.iter().skip(base).filter(|f| is_reliable(f.2.rel)) {
                if !v.iter().any(|x| x.0 == f.2.ridx) {
                    v.push((f.2.ridx, f.1));
                }
            }
            v
        })
    };
    let w = || J::s(format!("first counters {:?}, {n} frames from number {last}", start()));
    if !wait_until(3.0, || !firsts().is_empty()).await {
        return c.violation("wrap:stalled", "a message was not sent at the wrap", w());
    }
    let x = firsts()[0].1;
    p.raw(&enc_ack(ACK, &[(x, x)])).await;
    if !wait_until(6.0, || firsts().len() as u32 == n + 1).await {
        return c.violation("wrap:stalled", format!("{} of {} messages were sent at the wrap", firsts().len(), n + 1), w());
    }
    let mut q: Vec<u32> = firsts()[1..].iter().map(|x| x.1).collect();
    q.sort_unstable();
    let mut ranges: Vec<(u32, u32)> = vec![];
    for q in q {
        match ranges.last_mut() {
            Some(x) if x.1 + 1 == q => x.1 = q,
            _ => ranges.push((q, q)),
        }
    }
    if k % 2 == 0 {
        ranges.rotate_left(1);
    }
    for x in &ranges {
        p.raw(&enc_ack(ACK, &[*x])).await;
        p.raw(&enc_ack(ACK, &[*x])).await;
    }
    let w = || J::s(format!("first counters {:?}, {n} frames from number {last}, acknowledged {ranges:x?}", start()));
    match within(5.0, app.s.flush()).await {
        Some(Ok(())) => {}
        x => c.violation("wrap:ack-ignored", format!("flush() gave {x:?} although every frame's first number was acknowledged"), w()),
    }
    lsleep(0.3).await;
    let a = p.with(|s| s.frames.len());
    lsleep(1.2).await;
    let b = p.with(|s| s.frames.len());
    if a != b {
        c.violation("wrap:ack-ignored", format!("{} frames were sent again after they were acknowledged", b - a), w());
    }
    c.add("first_numbers_acknowledged_across_the_wrap", n as i64);
    c.case(format!("first_number {last} {ranges:?}").as_bytes(), ranges.len() > 1);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// The library really sends more than 2^24 datagrams.
async fn long_sender(c: C) {
    let mut l = listener().await;
    let Ok((p, s)) = raw_client(&mut l, 10, 1400).await else {
        c.violation("wrap:connect", "no connection", J::s("long_sender"));
        return;
    };
    let app = App::new(s);
    p.with(|s| s.sink = Some((0, s.frames.iter().map(|f| f.1).max().unwrap_or(0), 0)));
    let total = (1u64 << 24) + 5000;
    let m = Key::new(0, 1, UNREL_SEQ, 0, HDR).bytes();
    let mut sent = 0u64;
    while sent < total {
        let rel = if sent % 4096 == 0 { ORDERED } else { UNREL_SEQ };
        match within(30.0, app.s.send(&m, rel_of(rel))).await {
            Some(Ok(())) => sent += 1,
            x => {
                c.violation("wrap:send", format!("send() number {sent} gave {x:?}"), J::s("long_sender"));
                return;
            }
        }
        if sent % 512 == 0 {
            let _ = within(30.0, app.s.flush()).await;
        }
    }
    let f = within(30.0, app.s.flush()).await;
    let (n, last, back) = p.with(|s| s.sink.take()).unwrap();
    c.add("datagrams_really_sent_by_the_library", n as i64);
    c.case(format!("long_sender {n} {last}").as_bytes(), n > 1 << 23);
    if back > 64 || !matches!(f, Some(Ok(()))) {
        c.violation("wrap:long-run", format!("after {sent} messages: flush {f:?}, datagram numbers went backwards {back} times"), J::s("long_sender"));
    }
    // the connection still works
    p.with(|s| {
        let b = s.frames.len();
        s.frames.truncate(b);
    });
    for i in 0..50u32 {
        let k = Key::new(0, 1, RELIABLE, 100_000 + i, 100).bytes();
        let _ = app.s.send(&k, rel_of(RELIABLE)).await;
        if !wait_until(5.0, || p.user().iter().any(|m| m.1 == k)).await {
            c.violation("wrap:long-run-dead", "after 2^24 datagrams a reliable message no longer arrives", J::s("long_sender"));
            return;
        }
    }
    if !matches!(within(10.0, app.s.flush()).await, Some(Ok(()))) {
        c.violation("wrap:long-run-flush", "after 2^24 datagrams flush() no longer completes", J::s("long_sender"));
    }
}

/// The library really receives more than 2^24 frames of one reliability.
async fn long_receiver(c: C, rel: u8) {
    let mut l = listener().await;
    let Ok((p, s)) = raw_client(&mut l, 10, 1492).await else {
        c.violation("wrap:connect", "no connection", J::s("long_receiver"));
        return;
    };
    p.with(|s| s.keep_log = false);
    let app = App::new(s);
    let total = (1u64 << 24) + 3000;
    let mut sent = 0u64;
    let mut users = 0u32;
    let per = 1400 / (Frame::new(rel, &[3]).header() as u64 + 1);
    let mut batch = vec![];
    while sent < total {
        let mut fr = vec![];
        for _ in 0..per - 12 {
            fr.push(p.frame(rel, &[3]));
            sent += 1;
        }
        // a real message now and then, always close to the wrap
        if batch.len() % 8 == 0 && (sent > total - 20_000 || sent % 400_000 < per) {
            let k = Key::new(0, 0, rel, users, 60);
            users += 1;
            fr.push(p.frame(rel, &k.bytes()));
            sent += 1;
        }
        batch.push((p.next_seq(), fr));
        if batch.len() >= 16 || sent >= total {
            let mut ok = false;
            for _ in 0..20 {
                for (q, d) in &batch {
                    if !p.is_acked(*q) {
                        p.raw(&enc_frames(*q, d)).await;
                    }
                }
                ok = wait_until(1.0, || batch.iter().all(|b| p.is_acked(b.0))).await;
                if ok {
                    break;
                }
            }
            if !ok {
                c.violation("wrap:long-unacked", format!("after {sent} frames datagrams are no longer acknowledged"), J::I(rel as i64));
                return;
            }
            batch.clear();
            p.with(|s| {
                s.acked.clear();
                s.ack_events.clear();
            });
        }
    }
    for i in 0..20 {
        let k = Key::new(0, 0, rel, users + i, 60);
        let f = p.frame(rel, &k.bytes());
        p.send_acked(&[f], 5.0).await;
    }
    users += 20;
    wait_until(10.0, || app.count() >= users as usize).await;
    let mut have: Vec<u32> = app.got().iter().filter_map(|m| Key::parse(m)).map(|k| k.idx).collect();
    let mut want: Vec<u32> = (0..users).collect();
    match rel {
        // any order
        RELIABLE => have.sort_unstable(),
        // a repeated datagram may bring older messages, which are dropped; the last ones came one by one
        REL_SEQ => {
            if have.windows(2).all(|w| w[0] < w[1]) {
                have.retain(|i| *i + 20 >= users);
                want.retain(|i| *i + 20 >= users);
            }
        }
        _ => {}
    }
    c.add("frames_really_received_by_the_library", sent as i64);
    c.case(format!("long_receiver {rel} {sent}").as_bytes(), true);
    if have != want {
        c.violation(
            format!("wrap:long-receiver-{rel}"),
            format!("after {sent} frames {} of {users} messages were delivered, or not in order", have.len()),
            J::I(rel as i64),
        );
    }
}

pub async fn run(c: C) {
    c.rule("one case = one workload whose counters pass their wrap-around; distinct by observed datagram history, first counter values or scenario");
    set_chaos(0.005, 200);
    let raw_f = |c: &Ctx, o: &RawOut| {
        for rel in 0..5u8 {
            oracle_model(c, o, rel);
        }
        if !o.unacked.is_empty() {
            c.violation("wrap:raw-unacked", format!("datagrams {:?} were never acknowledged", o.unacked), J::o(w_raw(o)));
        }
    };
    for k in 0..c.q(5, 60) {
        let mut r = Rng::derive(c.seed, 0x21, k);
        let at = counters(&mut r, k);
        start_at(at);
        c.sample(J::o(vec![("first_counters", J::s(format!("{at:?}")))]));
        let cfgs = (0..14)
            .map(|i| {
                let mut x = pair_cfg(c.seed, 21_000 + k * 100 + i, &ALL);
                x.big = 12_000;
                x.msgs = x.msgs.max(35);
                x
            })
            .collect();
        let acks = async {
            let mut set = tokio::task::JoinSet::new();
            for i in 0..6 {
                set.spawn(acks_at_wrap(c.clone(), k * 10 + i));
                set.spawn(first_number(c.clone(), k * 10 + i));
            }
            while set.join_next().await.is_some() {}
        };
        // raw plans depend on k through the counters and on the batch number through their content
        let raw = async {
            let mut set = tokio::task::JoinSet::new();
            for i in 0..24u64 {
                let mut r = Rng::derive(c.seed, 0x2121 + k, i);
                set.spawn(run_raw(RawPlan { seed: r.next(), rels: ALL.to_vec(), msgs: 15 + r.below(40) as usize, client_side: i % 2 == 1, v6: false }));
            }
            while let Some(x) = set.join_next().await {
                match x {
                    Ok(Ok(o)) => {
                        c.case(&o.datagrams.concat(), o.datagrams.len() > 3);
                        raw_f(&c, &o);
                    }
                    Ok(Err(e)) => c.violation("raw:connect", e.clone(), J::s(format!("first counters {at:?}: {e}"))),
                    Err(e) => c.inconclusive(format!("raw task failed: {e}")),
                }
            }
        };
        tokio::join!(pairs_of(&c, cfgs, 14, pair_oracles), raw, acks);
        start_at([0; 5]);
        if c.failed() {
            return;
        }
    }
    let mut set = tokio::task::JoinSet::new();
    for k in 0..c.q(6, 40) {
        set.spawn(jumps(c.clone(), k % 2 == 1, k));
    }
    set_chaos(0.0, 0);
    set.spawn(compounds(c.clone(), false, 65536 + 1500));
    set.spawn(compounds(c.clone(), true, 65536 + 1500));
    set.spawn(lib_compounds(c.clone(), c.q(2000, 65536 + 1200) as u32));
    if c.thorough {
        set.spawn(long_sender(c.clone()));
        for rel in [RELIABLE, ORDERED, REL_SEQ] {
            set.spawn(long_receiver(c.clone(), rel));
        }
    }
    while set.join_next().await.is_some() {}
}
