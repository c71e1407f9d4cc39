//! C05 Datagrams fit the MTU; oversize sends are refused cleanly.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;

/// One connection with a raw peer that asks for `mtu`.
async fn with_mtu(c: C, asked: u16, client_side: bool, granted: Option<u16>) {
    // a server may grant less than it offered in its first reply
    let mtu = granted.unwrap_or(asked);
    let w = |extra: Vec<(&str, J)>| {
        let mut v = vec![("requested_mtu", J::I(asked as i64)), ("granted_mtu", J::I(mtu as i64)), ("library_is", J::s(if client_side { "client" } else { "server" }))];
        v.extend(extra);
        J::o(v)
    };
    let absurd = !(400..=1492).contains(&mtu);
    let mut l = listener().await;
    let r = if client_side { raw_server2(asked, mtu).await } else { raw_client(&mut l, 10, mtu).await };
    let (p, s) = match r {
        Ok(x) => x,
        Err(e) => {
            if client_side && absurd {
                // a client may refuse a server that offers an absurd MTU
                c.case(format!("refused {mtu}").as_bytes(), true);
            } else {
                c.violation("mtu:connect", format!("no connection with a requested MTU of {mtu}: {e}"), w(vec![]));
            }
            let _ = within(15.0, l.close()).await;
            return;
        }
    };
    // what the endpoint may use: a server states it in its reply, a client was told by ours
    let neg = if client_side { mtu } else { p.with(|s| s.reply2.last().map(|x| x.2)).unwrap_or(mtu) } as usize;
    if !client_side && !absurd && neg > mtu as usize {
        c.violation("mtu:raised", format!("asked for an MTU of {mtu}, granted {neg}"), w(vec![]));
    }
    let app = App::new(s);
    let limit = neg.saturating_sub(60);
    let mut sent: Vec<(u8, Vec<u8>)> = vec![];
    let mut idx = 0u32;
    let mut fail = None;
    let mut sizes: Vec<(u8, usize)> = vec![(ORDERED, 20), (RELIABLE, 15), (ORDERED, 3000), (ORDERED, 20_000)];
    if !absurd {
        for k in 1..=3 {
            for d in 0..5 {
                sizes.push((ORDERED, k * limit + d - 2));
            }
        }
        for rel in [UNRELIABLE, UNREL_SEQ, RELIABLE, REL_SEQ] {
            for n in [1, 2, limit - 2, limit - 1, limit, limit + 1, limit + 2, limit + 32, 2 * limit, 65_000] {
                sizes.push((rel, n));
            }
        }
    }
    for (rel, n) in sizes {
        idx += 1;
        let m = if n >= HDR { Key::new(1, 0, rel, idx, n).bytes() } else { vec![0xfe; n] };
        match within(20.0, app.s.send(&m, rel_of(rel))).await {
            Some(Ok(())) => {
                if rel != ORDERED && n > limit && !absurd {
                    fail = Some(("mtu:accepted-oversize", format!("send() of {n} bytes with reliability {rel} was accepted; the limit is {limit}")));
                }
                sent.push((rel, m));
            }
            Some(Err(rust_raknet::error::RaknetError::PacketSizeExceedMTU)) if rel != ORDERED && (n > limit || absurd) => {
                c.add("oversize_sends_refused", 1);
            }
            Some(Err(e)) => {
                fail = Some(("mtu:refused", format!("send() of {n} bytes with reliability {rel} failed with {e:?}; the limit is {limit}")));
            }
            None => fail = Some(("mtu:hang", format!("send() of {n} bytes with reliability {rel} did not return"))),
        }
        if let Some((s, m)) = &fail {
            c.violation(*s, m.clone(), w(vec![("length", J::I(n as i64))]));
            break;
        }
        if idx % 8 == 0 {
            let k = sent.len();
            wait_until(5.0, || p.user_count() >= k).await;
        }
    }
    // sequenced and unreliable messages are also due: nothing is lost here
    let total = sent.len();
    wait_until(15.0, || p.user_count() >= total).await;
    let mut have: Vec<Vec<u8>> = p.user().into_iter().map(|x| x.1).collect();
    let mut need: Vec<Vec<u8>> = sent.iter().map(|x| x.1.clone()).collect();
    have.sort();
    need.sort();
    if have != need && fail.is_none() {
        let missing = need.iter().filter(|m| !have.contains(m)).count();
        let extra: Vec<usize> = have.iter().filter(|m| !need.contains(m)).map(|m| m.len()).collect();
        c.violation("mtu:content", format!("{missing} accepted messages not delivered whole, unexpected ones of lengths {extra:?}"), w(vec![]));
    }
    let (log, ridx): (Vec<usize>, Vec<u32>) = p.with(|s| {
        let mut r: Vec<u32> = s.frames.iter().filter(|f| is_reliable(f.2.rel)).map(|f| f.2.ridx).collect();
        r.sort_unstable();
        r.dedup();
        (s.log.iter().filter(|x| x.bytes[0] != 5).map(|x| x.bytes.len()).collect(), r)
    });
    let biggest = log.iter().max().copied().unwrap_or(0);
    c.max("largest_datagram_seen", biggest as i64);
    c.add("datagrams_measured", log.len() as i64);
    let bound = if absurd { neg.max(400).min(65535) } else { neg };
    if biggest + 28 > bound {
        c.violation("mtu:datagram", format!("a datagram of {biggest} bytes was sent with an MTU of {bound}"), w(vec![]));
    }
    // a refused message leaves no trace: reliable indexes stay gap-free
    if ridx.iter().enumerate().any(|(i, x)| i as u32 != *x) && fail.is_none() {
        c.violation("mtu:trace-of-refused", format!("reliable indexes on the wire have gaps: {:?}", &ridx[..ridx.len().min(40)]), w(vec![]));
    }
    // the connection still works in the other direction
    let k = Key::new(9, 1, ORDERED, 0, 99).bytes();
    if fail.is_none() && (!p.msg(ORDERED, &k).await || !app.expect(&k, 5.0).await) {
        c.violation("mtu:broken", format!("the connection is broken after an MTU request of {mtu}"), w(vec![]));
    }
    c.case(format!("{mtu} {client_side} {neg} {biggest}").as_bytes(), true);
    c.sample(w(vec![("negotiated", J::I(neg as i64)), ("largest_datagram", J::I(biggest as i64)), ("messages", J::I(total as i64))]));
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Wide gaps in what arrives must not produce an oversize NACK or ACK.
async fn many_gaps(c: C, gaps: u32, mtu: u16, width: u32) {
    let mut l = listener().await;
    let Ok((p, s)) = raw_client(&mut l, 10, mtu).await else {
        c.violation("mtu:connect", "raw client could not connect", J::s("many_gaps"));
        return;
    };
    let app = App::new(s);
    let m = Key::new(0, 0, UNRELIABLE, 1, 20).bytes();
    for i in 0..gaps {
        let f = p.frame(UNRELIABLE, &m);
        for _ in 0..width {
            p.next_seq();
        }
        p.send(&[f]).await;
        if i % 40 == 39 {
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        }
    }
    lsleep(0.5).await;
    let big = p.with(|s| s.log.iter().map(|x| x.bytes.len()).max().unwrap_or(0));
    c.max("largest_ack_or_nack_datagram", big as i64);
    c.add("gaps_made", gaps as i64);
    if big + 28 > mtu as usize {
        c.violation(
            "mtu:datagram",
            format!("{gaps} gaps in the received numbers made it send a datagram of {big} bytes on a connection of MTU {mtu}"),
            J::o(vec![("gaps", J::I(gaps as i64)), ("numbers_in_a_gap", J::I(width as i64)), ("mtu", J::I(mtu as i64))]),
        );
    }
    c.case(format!("gaps {gaps} {width} {mtu} {big}").as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Refused sends on an idle connection: nothing is sent, and what is sent next carries the next numbers.
async fn refused(c: C, k: u64, client_side: bool) {
    let mut r = Rng::derive(c.seed, 0x5EF, k);
    let w = |x: String| J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("what", J::s(x))]);
    let mut bad = String::new();
    // a datagram lost on the loopback looks like a number left out: only what is seen again counts
    for attempt in 0..3 {
        let mut l = listener().await;
        let mtu = *r.pick(&[1400u16, 700, 1200]);
        let x = if client_side { raw_server(mtu).await } else { raw_client(&mut l, 10, mtu).await };
        let (p, s) = match x {
            Ok(x) => x,
            Err(e) => return c.violation("mtu:connect", e.clone(), w(e)),
        };
        bad.clear();
        for round in 0..4u32 {
            for rel in [RELIABLE, REL_SEQ, UNREL_SEQ, ORDERED] {
                let _ = s.send(&Key::new(0, 1, rel, round * 2, 30).bytes(), rel_of(rel)).await;
            }
            if within(5.0, s.flush()).await.map(|r| r.is_ok()) != Some(true) {
                return c.violation("mtu:broken", "flush() did not return Ok on an acknowledged connection", w(bad));
            }
            lsleep(0.1).await;
            let (n, last) = p.with(|s| (s.frames.len(), s.frames.last().map(|f| f.1).unwrap_or(0)));
            let top = |p: &Peer| {
                p.with(|s| {
                    let mut t = [0u32; 3];
                    for f in &s.frames {
                        if is_reliable(f.2.rel) {
                            t[0] = t[0].max(f.2.ridx + 1);
                        }
                        if f.2.rel == ORDERED {
                            t[1] = t[1].max(f.2.oidx + 1);
                        }
                        if matches!(f.2.rel, UNREL_SEQ | REL_SEQ) {
                            t[2] = t[2].max(f.2.sidx + 1);
                        }
                    }
                    t
                })
            };
            let t0 = top(&p);
            for _ in 0..1 + r.below(4) {
                let rel = *r.pick(&[UNRELIABLE, UNREL_SEQ, RELIABLE, REL_SEQ]);
                let len = mtu as usize - 60 + *r.pick(&[1usize, 2, 40, 5000]);
                let mut m = vec![0u8; len];
                m[0] = 0xfe;
                if within(5.0, s.send(&m, rel_of(rel))).await.map(|r| r.is_err()) != Some(true) {
                    c.violation("mtu:accepted-oversize", format!("send() of {len} bytes with reliability {rel} was accepted with an MTU of {mtu}"), w(bad));
                    return;
                }
                c.add("oversize_sends_refused", 1);
            }
            lsleep(0.15).await;
            if p.with(|s| s.frames.len()) != n {
                bad = "a refused send on an idle connection sent something".into();
                break;
            }
            let rel = [RELIABLE, ORDERED, REL_SEQ, UNREL_SEQ][round as usize];
            let _ = s.send(&Key::new(0, 1, rel, round * 2 + 1, 30).bytes(), rel_of(rel)).await;
            wait_until(3.0, || p.with(|s| s.frames.len()) > n).await;
            let t1 = top(&p);
            let want = match rel {
                RELIABLE => [t0[0] + 1, t0[1], t0[2]],
                ORDERED => [t0[0] + 1, t0[1] + 1, t0[2]],
                REL_SEQ => [t0[0] + 1, t0[1], t0[2] + 1],
                _ => [t0[0], t0[1], t0[2] + 1],
            };
            let seq = p.with(|s| s.frames.get(n).map(|f| f.1));
            if t1 != want || seq != Some(last + 1) {
                bad = format!("after refused sends a message of reliability {rel} went out as datagram {seq:?} with (reliable, ordered, sequenced) indexes up to {t1:?}; expected {} and {want:?}", last + 1);
                break;
            }
            c.add("numbers_checked_after_refused_sends", 1);
        }
        c.case(format!("refused {k} {client_side} {mtu} {attempt}").as_bytes(), true);
        let _ = within(5.0, s.close()).await;
        let _ = within(15.0, l.close()).await;
        if bad.is_empty() {
            return;
        }
    }
    c.violation("mtu:trace-of-refused", bad.clone(), w(bad));
}

pub async fn run(c: C) {
    c.rule("one case = one connection with its requested MTU and library role and the full size sweep; distinct by (MTU, role, granted MTU, largest datagram)");
    let mut list: Vec<u16> = vec![
        0, 1, 27, 28, 46, 59, 60, 61, 75, 88, 100, 399, 400, 401, 576, 1000, 1200, 1399, 1400, 1401, 1464, 1491, 1492, 1493, 1500, 2048,
        2108, 4096, 8191, 8192, 8251, 8252, 8253, 9000, 16384, 32768, 65534, 65535,
    ];
    let mut r = Rng::derive(c.seed, 5, 5);
    for _ in 0..c.q(20, 600) {
        list.push(r.range(400, 1492) as u16);
    }
    for _ in 0..c.q(5, 100) {
        list.push(r.next() as u16);
    }
    if c.thorough {
        list.extend((400..=1492).step_by(7));
    }
    let mut set = tokio::task::JoinSet::new();
    for g in [50, 330, 345, 600, 1500] {
        set.spawn(many_gaps(c.clone(), g, 1400, 1));
        set.spawn(many_gaps(c.clone(), g, 400, 2));
        set.spawn(many_gaps(c.clone(), g, 1400, 3));
    }
    for _ in 0..c.q(8, 60) {
        set.spawn(many_gaps(c.clone(), r.range(40, 900) as u32, r.range(400, 1492) as u16, r.range(1, 4) as u32));
    }
    for k in 0..c.q(6, 60) {
        set.spawn(refused(c.clone(), k, k % 2 == 1));
    }
    for _ in 0..c.q(6, 100) {
        let asked = r.range(401, 1492) as u16;
        let less = r.range(400, asked as u64 - 1) as u16;
        set.spawn(with_mtu(c.clone(), asked, true, Some(less)));
    }
    for m in list {
        for side in [false, true] {
            if side && m < 46 {
                continue;
            }
            if set.len() >= 16 {
                set.join_next().await;
            }
            set.spawn(with_mtu(c.clone(), m, side, None));
        }
    }
    while set.join_next().await.is_some() {}
    // every datagram of mixed lossy workloads
    pairs(&c, c.q(12, 200), 12, &[ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ], |c, o| {
        for conn in 0..o.dirs.len() {
            let (f, s) = crate::monitor::monitor(&o.trace, conn, &crate::monitor::Opts { mtu: 1400, settled: false });
            c.add("datagrams_measured", s.datagrams);
            for x in f.iter().filter(|x| x.class == "mtu") {
                c.violation(x.sig, x.what.clone(), J::o(w_cfg(o, conn, 0)));
            }
        }
    })
    .await;
}
