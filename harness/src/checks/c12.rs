//! C12 Malformed traffic in a session is contained.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::time::Duration;

fn sid(seq: u32) -> Vec<u8> {
    let mut v = vec![0x84];
    put24(&mut v, seq & 0xff_ffff);
    v
}

/// Families of malformed datagrams. `seq` gives fresh datagram numbers.
pub fn families(r: &mut Rng, thorough: bool) -> Vec<(String, Vec<Vec<u8>>)> {
    // The numbers used inside hostile frames are far from those of the later valid ones.
    let mut fams: Vec<(String, Vec<Vec<u8>>)> = vec![];
    let far = 0x40_0000u32;
    let mk = |rel: u8, i: u32, split: Option<(u32, u16, u32)>, data: &[u8]| {
        let mut f = Frame::new(rel, data);
        f.ridx = far + i;
        f.oidx = far + i;
        f.sidx = 0;
        f.split = split;
        f
    };
    let mut s = 1000u32;
    let mut next = || {
        s += 1;
        s
    };
    // every truncation of a datagram of each reliability, with and without fragment header
    for rel in [UNRELIABLE, UNREL_SEQ, RELIABLE, ORDERED, REL_SEQ] {
        for split in [None, Some((3u32, 700u16, 1u32))] {
            if split.is_some() && rel != ORDERED {
                continue;
            }
            let whole = enc_frames(next(), &[mk(rel, rel as u32 * 8, split, &[0xfe, 1, 2, 3, 4, 5]), mk(rel, rel as u32 * 8 + 1, None, &[0xfe, 9])]);
            // cutting inside the second frame leaves a valid first one: keep to cuts in the first
            let first = enc_frames(0, &[mk(rel, 0, split, &[0xfe, 1, 2, 3, 4, 5])]).len();
            fams.push((format!("cut frames of reliability {rel} {split:?}"), (1..first).map(|k| whole[..k].to_vec()).collect()));
        }
    }
    for rel in 5..8u8 {
        let v = (0..20u32)
            .map(|i| {
                let mut d = sid(next());
                d.push(rel << 5 | if i % 2 == 0 { 16 } else { 0 });
                d.extend_from_slice(&[0, 32]);
                d.extend((0..i).map(|x| x as u8));
                d
            })
            .collect();
        fams.push((format!("reliability {rel}"), v));
    }
    for (name, id) in [("ack", ACK), ("nack", NACK)] {
        let mut v: Vec<Vec<u8>> = vec![];
        let good = enc_ack(id, &[(0, 0), (2, 9), (12, 12)]);
        v.extend((1..good.len()).map(|k| good[..k].to_vec()));
        for n in [0u16, 1, 2, 255, 1000, 65535] {
            let mut d = vec![id];
            d.extend_from_slice(&n.to_be_bytes());
            v.push(d.clone());
            d.extend_from_slice(&[1, 5, 0, 0]);
            v.push(d.clone());
            d.extend_from_slice(&[0, 5, 0, 0, 6, 0]);
            v.push(d);
        }
        // inverted and giant ranges, ranges of numbers never sent
        for (a, b) in [(9u32, 2u32), (0xff_ffff, 0), (1, 0), (0x10_0000, 0xff_ffff), (0, 0xff_ffff), (500, 900), (0xff_ffff, 0xff_ffff)] {
            if id == ACK && a < 400 && b >= a {
                // acknowledging what was sent is a lie, not malformed
                continue;
            }
            let mut d = vec![id, 0, 1, 0];
            put24(&mut d, a);
            put24(&mut d, b);
            v.push(d);
        }
        let mut d = vec![id, 0, 200];
        for _ in 0..200 {
            d.push(0);
            put24(&mut d, 0x1000);
            put24(&mut d, 0xff_ffff);
        }
        for _ in 0..10 {
            v.push(d.clone());
        }
        for flag in 0..=255u8 {
            v.push(vec![id, 0, 1, flag, 0, 0xf0, 0]);
        }
        fams.push((name.into(), v));
    }
    // zero length and lengths beyond the datagram
    let mut v = vec![];
    for rel in [UNRELIABLE, RELIABLE] {
        for i in 0..20 {
            v.push(enc_frames(next(), &[mk(rel, 100 + i, None, &[])]));
        }
        for bits in [16u16, 24, 0xffff, 0x8000, 4000] {
            let mut d = sid(next());
            d.push(rel << 5);
            d.extend_from_slice(&bits.to_be_bytes());
            if rel == RELIABLE {
                put24(&mut d, far + 300 + bits as u32);
            }
            d.push(0xfe);
            v.push(d);
        }
    }
    fams.push(("empty frames and lengths beyond the datagram".into(), v));
    // fragments
    let mut v = vec![];
    for (n, id, i) in [
        (0u32, 900u16, 0u32), (0, 901, 5), (1, 902, 1), (1, 903, 0xffff_ffff), (2, 904, 2), (2, 904, 0), (0xffff_ffff, 905, 0), (0xffff_ffff, 905, 0xffff_fffe),
        (3, 906, 0), (4, 906, 1), (2, 906, 2), (3, 906, 3), (0x8000_0000, 907, 1), (0, 0xffff, 0), (0, 902, 0),
    ] {
        for rel in [ORDERED, RELIABLE, REL_SEQ, UNRELIABLE, UNREL_SEQ] {
            if rel != ORDERED && i < n && n < 100 {
                continue;
            }
            v.push(enc_frames(next(), &[mk(rel, 600 + v.len() as u32, Some((n, id, i)), &[0xfe, 7])]));
        }
    }
    fams.push(("impossible fragments".into(), v));
    // messages with nothing or nonsense in them
    let a: std::net::SocketAddr = "10.1.2.3:4".parse().unwrap();
    let mut v = vec![];
    for m in [enc_conn_request(5, 6), enc_accepted(a, 1, 2), enc_incoming(a, 1, 2), enc_conn_ping(4), { let mut p = enc_conn_ping(4); p[0] = 3; p.extend([0; 8]); p }] {
        for k in 1..m.len().min(60) {
            let i = v.len() as u32;
            v.push(enc_frames(next(), &[mk(if k % 2 == 0 { RELIABLE } else { UNRELIABLE }, 2000 + i, None, &m[..k])]));
        }
    }
    fams.push(("cut connected messages".into(), v));
    let mut v = vec![];
    for id in 0..=0xfdu8 {
        // 0x15 is a disconnect; a connection request is not malformed; user messages start at 0x80 in RakNet
        if id == 0x15 || id == 0x09 || id == 0x10 {
            continue;
        }
        let i = v.len() as u32;
        v.push(enc_frames(next(), &[mk(UNRELIABLE, 3000 + i, None, &[id])]));
    }
    fams.push(("message ids".into(), v));
    fams.push(("one byte".into(), (0..=255u8).filter(|b| *b != 0x15).map(|b| vec![b]).collect()));
    fams.push(("unconnected messages".into(), super::c11::unconnected(a).into_iter().filter(|x| x.0 != "disconnect" && x.0 != "ack" && x.0 != "nack" && x.0 != "frames").flat_map(|(_, m)| {
        (1..m.len().min(60)).map(|k| m[..k].to_vec()).collect::<Vec<_>>()
    }).collect()));
    fams.push(("empty datagrams".into(), vec![vec![]; 30]));
    // far datagram numbers, full size datagrams of tiny frames
    let mut v = vec![];
    for q in [0xff_ffffu32, 0x80_0000, 0x10_0000, 5000, 0xff_fff0] {
        v.push(enc_frames(q, &[mk(UNRELIABLE, 0, None, &[0xfd])]));
    }
    fams.push(("far datagram numbers".into(), v));
    let n = if thorough { 60 } else { 6 };
    for k in 0..n {
        let mut v = vec![];
        for _ in 0..150 {
            let mut d = sid(next());
            d.extend((0..r.below(60)).map(|_| r.next() as u8));
            v.push(d);
        }
        fams.push((format!("fuzz random frames {k}"), v));
        let mut v = vec![];
        for _ in 0..150 {
            let rel = *r.pick(&[UNRELIABLE, UNREL_SEQ, RELIABLE, ORDERED, REL_SEQ]);
            let split = r.chance(0.4).then(|| (r.below(4) as u32, r.below(4) as u16, r.below(4) as u32));
            let fr: Vec<Frame> = (0..r.range(1, 4)).map(|_| { let n = r.below(30) as usize; let d: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); mk(rel, 5000 + r.below(9) as u32, split, &d) }).collect();
            let mut d = enc_frames(next(), &fr);
            for _ in 0..r.below(4) {
                let i = 4 + r.below(d.len() as u64 - 4) as usize;
                if r.chance(0.3) {
                    d.truncate(i.max(5));
                } else {
                    d[i] = r.next() as u8;
                }
            }
            v.push(d);
        }
        fams.push((format!("fuzz mutated frames {k}"), v));
        let mut v = vec![];
        for _ in 0..100 {
            let mut d = vec![if r.chance(0.5) { ACK } else { NACK }];
            d.extend((0..r.below(40)).map(|_| r.next() as u8));
            v.push(d);
        }
        fams.push((format!("fuzz acks {k}"), v));
    }
    fams
}

fn cpu_s() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as f64 + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) as f64 / 1e6
    }
}

async fn family(c: C, name: String, list: Vec<Vec<u8>>, client_side: bool) {
    let fuzz = name.starts_with("fuzz");
    let mut l = listener().await;
    let w = |b: &[Vec<u8>]| {
        J::o(vec![
            ("family", J::s(name.clone())),
            ("library_is", J::s(if client_side { "client" } else { "server" })),
            ("batch", J::A(b.iter().map(|d| J::s(hex(d))).collect())),
        ])
    };
    let other = match lib_pair(None, &mut l).await {
        Ok((a, b)) => (App::new(a), App::new(b)),
        Err(e) => return c.violation("contained:setup", e, J::s(name)),
    };
    for (bi, b) in list.chunks(if fuzz { 50 } else { 25 }).enumerate() {
        if c.failed() {
            break;
        }
        let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
        let (p, s) = match r {
            Ok(x) => x,
            Err(e) => {
                c.violation("contained:connect", format!("no new connection after malformed traffic ({name}): {e}"), w(b));
                break;
            }
        };
        let app = App::new(s);
        p.with(|s| s.keep_log = false);
        for (k, d) in b.iter().enumerate() {
            p.raw(d).await;
            if k % 5 == 4 {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        c.add("malformed_datagrams_sent", b.len() as i64);
        c.case(format!("{name} {bi} {client_side}").as_bytes(), true);
        // the connection still works
        let mut broken = None;
        for i in 0..3u32 {
            let m = Key::new(3, 0, ORDERED, i, 40 + 1500 * i as usize).bytes();
            let ok = if i < 2 && m.len() < 1300 { p.msg(ORDERED, &m).await } else {
                let mut ok = true;
                for f in p.split(&m, 3) {
                    ok &= p.send_acked(&[f], 10.0).await;
                }
                ok
            };
            if !ok {
                broken = Some("valid datagrams are not acknowledged any more");
            } else if !app.expect(&m, 5.0).await {
                broken = Some("a valid message was not delivered");
            }
            if broken.is_some() {
                break;
            }
            let back = Key::new(3, 1, ORDERED, i, 50).bytes();
            let sent = within(5.0, app.s.send(&back, Reliability::ReliableOrdered)).await.map(|r| r.is_ok());
            if sent != Some(true) || !wait_until(8.0, || p.user().iter().any(|m| m.1 == back)).await {
                broken = Some("it cannot send to its peer any more");
                break;
            }
        }
        if lib_panics() > 0 {
            let q = &lib_panic_records()[0];
            c.violation("contained:panic", format!("{name}: a task of the library panicked at {}: {}", q.at, q.msg), w(b));
            break;
        }
        if let (Some(x), false) = (broken, fuzz) {
            c.violation("contained:broken", format!("after malformed datagrams ({name}) {x}"), w(b));
            break;
        }
        if !fuzz {
            // nothing malformed may reach the application as a message that was never sent
            let alien = app.got().into_iter().find(|m| m.first() == Some(&0xfe) && Key::parse(m).is_none() && !m.starts_with(&[0xfe, 7]));
            if let Some(m) = alien {
                c.violation("contained:alien", format!("{name}: the application received {}", hex(&m)), w(b));
                break;
            }
            c.add("connections_that_survived", 1);
        }
        // a bystander is unaffected
        let m = Key::new(4, 0, ORDERED, bi as u32, 60).bytes();
        let _ = within(5.0, other.0.s.send(&m, Reliability::ReliableOrdered)).await;
        if !other.1.expect(&m, 8.0).await {
            c.violation("contained:bystander", format!("another connection stopped working after malformed traffic ({name})"), w(b));
            break;
        }
        let _ = within(5.0, app.s.close()).await;
    }
    let _ = within(15.0, l.close()).await;
}

/// NACKs of everything while a lot is outstanding: handling them must not take the connection's time.
async fn wide_nacks(c: C, client_side: bool, frames: usize) {
    let w = J::o(vec![("library_is", J::s(if client_side { "client" } else { "server" })), ("outstanding_frames", J::I(frames as i64))]);
    let mut l = listener().await;
    let r = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match r {
        Ok(x) => x,
        Err(e) => return c.violation("contained:connect", e, w),
    };
    let app = App::new(s);
    lsleep(0.3).await;
    p.with(|s| {
        s.auto_ack = false;
        s.keep_log = false;
    });
    let mut big = vec![7u8; frames * 1340];
    big[0] = 0xfe;
    if within(30.0, app.s.send(&big, Reliability::ReliableOrdered)).await.map(|r| r.is_ok()) != Some(true) {
        return c.violation("contained:broken", "send() of a large message failed", w);
    }
    let t0 = now_ms();
    for _ in 0..20 {
        p.raw(&enc_ack(NACK, &[(0, 0xff_fffe)])).await;
    }
    let mut ok = false;
    for i in 0..12 {
        let f = p.frame(UNRELIABLE, &Key::new(0, 0, UNRELIABLE, i, 30).bytes());
        let seq = p.send(&[f]).await;
        if wait_until(0.5, || p.is_acked(seq)).await {
            ok = true;
            break;
        }
    }
    c.max("slowest_answer_after_wide_nacks_ms", (now_ms() - t0) as i64);
    c.case(format!("wide nacks {client_side} {frames}").as_bytes(), true);
    if !ok {
        c.violation("contained:spin", format!("20 NACK datagrams of one range kept a connection with {frames} outstanding frames busy for more than 6 s"), w);
    }
    drop(app);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one connection fed a batch of malformed datagrams and then valid ones; distinct by family, batch and side");
    let mut r = Rng::derive(c.seed, 12, 12);
    let fams = families(&mut r, c.thorough);
    let mut set = tokio::task::JoinSet::new();
    for (n, v) in fams {
        for side in [false, true] {
            if c.failed() {
                break;
            }
            if set.len() >= 12 {
                set.join_next().await;
            }
            set.spawn(family(c.clone(), n.clone(), v.clone(), side));
        }
    }
    while set.join_next().await.is_some() {}
    if c.failed() {
        return;
    }
    for side in [false, true] {
        wide_nacks(c.clone(), side, c.q(30_000, 60_000) as usize).await;
    }
    if c.failed() {
        return;
    }
    // nothing is left spinning
    let mut least = f64::MAX;
    for _ in 0..12 {
        let (t, u) = (std::time::Instant::now(), cpu_s());
        tokio::time::sleep(Duration::from_millis(400)).await;
        least = least.min((cpu_s() - u) / t.elapsed().as_secs_f64());
        if least < 0.4 {
            break;
        }
    }
    c.add("idle_cpu_percent_after_hostile_traffic", (least * 100.0) as i64);
    if least >= 0.4 {
        c.violation("contained:spin", format!("the library keeps using {:.0}% of a core after malformed traffic", least * 100.0), J::F(least));
    }
}
