//! C22 Wire compatibility.
use crate::monitor::*;
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::net::SocketAddr;

const ALL: [u8; 7] = [ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ, UNREL_SEQ, RELIABLE];

/// Everything the library sent to this peer decodes, inside and out.
fn no_bad(c: &Ctx, p: &Peer, what: &str) {
    let (bad, n) = p.with(|s| (s.bad.clone(), s.log.len()));
    c.add("datagrams_decoded", n as i64);
    for (e, b) in bad.into_iter().take(2) {
        c.violation("wire:undecodable", format!("{what}: the library sent something that is not valid RakNet: {e}"), J::o(vec![("bytes", J::s(b))]));
    }
}

/// A raw client checks every field of a library server's handshake.
async fn server_fields(c: C, v6: bool, mtu: u16, version: u8, k: u64) {
    let mut r = Rng::derive(c.seed, 0x22, k);
    let at = if v6 { "[::1]:0" } else { "127.0.0.1:0" };
    let mut l = listener_at(at).await;
    let la = l.local_addr().unwrap();
    let p = Peer::bind(at, Role::Client).await;
    let any = r.next();
    let guid = *r.pick(&[any, any, 0, 1, u64::MAX, 1 << 63]);
    let time = *r.pick(&[77, 0, -1, 1, i64::MAX, i64::MIN, any as i64]);
    p.with(|s| {
        s.guid = guid;
        s.time = time;
        s.addrs = *r.pick(&[10, 10, 20]);
        s.to = Some(la);
    });
    let w = J::o(vec![("listener", J::s(la.to_string())), ("client", J::s(p.addr.to_string())), ("mtu", J::I(mtu as i64)), ("version", J::I(version as i64))]);
    let fail = |sig: &str, what: String| c.violation(format!("handshake:{sig}"), what, w.clone());
    // unconnected ping of both kinds
    for id in [1u8, 2] {
        let t = r.next() as i64;
        p.raw(&enc_ping(id, t, guid)).await;
        if !wait_until(4.0, || p.with(|s| s.pongs.iter().any(|x| x.1 == t))).await {
            return fail("pong", format!("no pong for a ping with id {id}"));
        }
    }
    // a refusal
    p.raw(&enc_req1(200, 1400)).await;
    if !wait_until(4.0, || p.with(|s| s.incompatible > 0)).await {
        return fail("incompatible", "no IncompatibleProtocolVersion for version 200".into());
    }
    p.with(|s| {
        s.role = Role::Client;
        s.mtu = mtu;
        s.incompatible = 0;
    });
    let (a, s) = tokio::join!(
        async {
            p.open(la, version, mtu).await?;
            p.login().await
        },
        within(20.0, l.accept())
    );
    let s = match (a, s) {
        (Ok(()), Some(Ok(s))) => s,
        (a, s) => return fail("refused", format!("no connection: {a:?}, accept {:?}", s.map(|x| x.is_ok()))),
    };
    let (r1, r2, pongs, log) = p.with(|s| (s.reply1.clone(), s.reply2.clone(), s.pongs.clone(), s.log.clone()));
    let sg = pongs[0].2;
    let mut guids: Vec<u64> = pongs.iter().map(|x| x.2).collect();
    guids.extend(r1.iter().map(|x| x.0));
    guids.extend(r2.iter().map(|x| x.0));
    for x in &log {
        match decode(&x.bytes) {
            Ok(Dg::Incompatible { guid, version }) => {
                guids.push(guid);
                if ![10, 11].contains(&version) {
                    fail("incompatible", format!("IncompatibleProtocolVersion names version {version}"));
                }
            }
            Ok(Dg::Reply1 { security, mtu: m, .. }) => {
                if security != 0 {
                    fail("security", format!("OpenConnectionReply1 security byte {security}"));
                }
                if !(400..=1492).contains(&m) {
                    fail("mtu", format!("OpenConnectionReply1 MTU {m}"));
                }
            }
            Ok(Dg::Reply2 { addr, mtu: m, encryption, .. }) => {
                if addr != p.addr {
                    fail("address", format!("OpenConnectionReply2 names the client {addr}, it is {}", p.addr));
                }
                if m != mtu {
                    fail("mtu", format!("OpenConnectionReply2 MTU {m}, {mtu} was asked for"));
                }
                if encryption != 0 {
                    fail("security", format!("OpenConnectionReply2 encryption byte {encryption}"));
                }
            }
            _ => {}
        }
    }
    if guids.iter().any(|g| *g != sg) {
        fail("guid", format!("the server's guid differs between its messages: {guids:x?}"));
    }
    let acc: Vec<Inner> = p.with(|s| s.model.out.iter().filter_map(|m| decode_inner(&m.1).ok()).filter(|m| matches!(m, Inner::Accepted { .. })).collect());
    match acc.first() {
        Some(Inner::Accepted { addr, request }) => {
            if *addr != p.addr || *request != time {
                fail("accepted", format!("ConnectionRequestAccepted names {addr} and echoes {request}; expected {} and {time}", p.addr));
            }
        }
        _ => fail("accepted", "no ConnectionRequestAccepted".into()),
    }
    if s.peer_addr().unwrap() != p.addr {
        fail("peer", format!("the accepted connection's peer_addr() is {:?}", s.peer_addr()));
    }
    // connected ping, alone and packed with a message
    let app = App::new(s);
    for (i, rel) in [UNRELIABLE, RELIABLE, ORDERED].into_iter().enumerate() {
        let t = *r.pick(&[1000, 0, -1, i64::MAX, i64::MIN]) ^ ((i as i64 + 1) << 20);
        let m = Key::new(0, 0, ORDERED, i as u32, 50).bytes();
        let fr = vec![p.frame(rel, &enc_conn_ping(t)), p.frame(ORDERED, &m)];
        p.send_acked(&fr, 5.0).await;
        if !wait_until(5.0, || p.with(|s| s.conn_pongs.contains(&t))).await {
            fail("connected-pong", format!("no ConnectedPong echoing {t} for a ping with reliability {rel}"));
        }
        if !app.expect(&m, 5.0).await {
            fail("packed", "a message packed with a ConnectedPing was not delivered".into());
        }
    }
    // the other direction, all reliabilities, decoded by the independent codec
    let mut want = vec![];
    for i in 0..25u32 {
        let rel = *r.pick(&ALL);
        let n = if rel == ORDERED && r.chance(0.3) { r.range(mtu as u64 - 62, 6000) } else { r.range(HDR as u64, 300) } as usize;
        let m = Key::new(0, 1, rel, i, n).bytes();
        if app.s.send(&m, rel_of(rel)).await.is_ok() {
            want.push((rel, m));
        }
    }
    let n = want.len();
    wait_until(10.0, || p.user_count() >= n).await;
    let (mut have, mut want2) = (p.user(), want.clone());
    have.sort();
    want2.sort();
    if have != want2 {
        fail("content", format!("the independent receiver has {} of {n} messages", have.len()));
    }
    for f in p.with(|s| s.frames.clone()) {
        if f.2.chan != 0 && f.2.rel == ORDERED {
            fail("channel", format!("order channel {}", f.2.chan));
        }
    }
    no_bad(&c, &p, "server");
    c.case(format!("server {v6} {mtu} {version} {k}").as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// A raw server checks every field of a library client's handshake.
async fn client_fields(c: C, v6: bool, mtu: u16, version: u8, k: u64) {
    let mut r = Rng::derive(c.seed, 0x23, k);
    let p = Peer::bind(if v6 { "[::1]:0" } else { "127.0.0.1:0" }, Role::Server).await;
    let any = r.next();
    p.with(|s| {
        s.mtu = mtu;
        s.guid = *r.pick(&[any, 0, u64::MAX, 1 << 63]);
        s.addrs = *r.pick(&[10, 10, 20, 0, 9]);
    });
    let w = J::o(vec![("server", J::s(p.addr.to_string())), ("mtu", J::I(mtu as i64)), ("version", J::I(version as i64))]);
    let fail = |sig: &str, what: String| c.violation(format!("handshake:{sig}"), what, w.clone());
    let s = match within(20.0, RaknetSocket::connect_with_version(&p.addr, version)).await {
        Some(Ok(s)) => s,
        x => return fail("client-refused", format!("connect() to a raw server: {:?}", x.map(|r| r.err()))),
    };
    wait_until(4.0, || p.with(|s| s.incoming > 0)).await;
    let from = p.with(|s| s.to).unwrap();
    let mut guids = vec![];
    let mut seen = [0; 3];
    for x in p.with(|s| s.log.clone()) {
        match decode(&x.bytes) {
            Ok(Dg::Req1 { version: v, len }) => {
                seen[0] += 1;
                if v != version {
                    fail("version", format!("OpenConnectionRequest1 carries version {v}, asked for {version}"));
                }
                if !(400..=1492).contains(&(len + 28)) {
                    fail("request1-size", format!("OpenConnectionRequest1 of {len} bytes"));
                }
                if x.bytes[18..].iter().any(|b| *b != 0) {
                    fail("padding", "OpenConnectionRequest1 padding is not zero".into());
                }
            }
            Ok(Dg::Req2 { addr, mtu: m, guid }) => {
                seen[1] += 1;
                guids.push(guid);
                if addr != p.addr {
                    fail("address", format!("OpenConnectionRequest2 names the server {addr}"));
                }
                if m > mtu {
                    fail("mtu", format!("OpenConnectionRequest2 asks for {m}, {mtu} was offered"));
                }
            }
            _ => {}
        }
    }
    for m in p.with(|s| s.model.out.clone()) {
        match decode_inner(&m.1) {
            Ok(Inner::Request { guid, security, .. }) => {
                seen[2] += 1;
                guids.push(guid);
                if security != 0 {
                    fail("security", "ConnectionRequest asks for security".into());
                }
            }
            Ok(Inner::Incoming { addr }) => {
                if addr != p.addr {
                    fail("incoming", format!("NewIncomingConnection names the server {addr}, it is {}", p.addr));
                }
            }
            _ => {}
        }
    }
    if seen.iter().any(|x| *x == 0) || guids.iter().any(|g| *g != guids[0]) {
        fail("guid", format!("handshake messages seen {seen:?}, guids {guids:x?}"));
    }
    if s.peer_addr().unwrap() != p.addr || s.local_addr().unwrap().port() != from.port() || s.raknet_version().unwrap() != version {
        fail("accessors", format!("peer {:?} local {:?} version {:?}", s.peer_addr(), s.local_addr(), s.raknet_version()));
    }
    let app = App::new(s);
    for i in 0..20u32 {
        let rel = *r.pick(&ALL);
        let n = if rel == ORDERED && r.chance(0.3) { r.range(mtu as u64 - 62, 6000) } else { r.range(HDR as u64, 300) } as usize;
        let m = Key::new(0, 0, rel, i, n).bytes();
        let _ = app.s.send(&m, rel_of(rel)).await;
        if !wait_until(8.0, || p.user().iter().any(|x| x.0 == rel && x.1 == m)).await {
            fail("content", format!("message {i} of reliability {rel} and {n} bytes did not reach the independent receiver"));
            break;
        }
    }
    let m = Key::new(0, 1, ORDERED, 0, 5000).bytes();
    for f in p.split(&m, 6) {
        p.send_acked(&[f], 5.0).await;
    }
    if !app.expect(&m, 5.0).await {
        fail("split", "a split message from a raw server was not delivered".into());
    }
    no_bad(&c, &p, "client");
    c.case(format!("client {v6} {mtu} {version} {k}").as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
}

/// Splits of every reliable kind, every frame set id, mixed in one datagram with other messages.
async fn packings(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x24, k);
    let v6 = k % 3 == 2;
    let client_side = k % 2 == 1 && !v6;
    let mut l = listener_at(if v6 { "[::1]:0" } else { "127.0.0.1:0" }).await;
    // what the library agreed to is what it must take
    let mtu: u16 = if client_side { 1400 } else { *r.pick(&[1400u16, 1400, 1492, 1464, 576]) };
    let full = mtu as i64 - 28;
    let cid_step = *r.pick(&[1u16, 1, 256, 257, 1024]);
    let cid0 = r.next() as u16;
    let x = if client_side { raw_server(mtu).await } else { raw_client(&mut l, 10, mtu).await };
    let Ok((p, s)) = x else {
        c.violation("wire:connect", format!("no connection: {:?}", x.err()), J::s(format!("packings {k}")));
        return;
    };
    let app = App::new(s);
    // split by hand: any reliable kind may be split
    let mut frames: Vec<Frame> = vec![];
    let mut want: Vec<(u8, Vec<u8>)> = vec![];
    for i in 0..24u32 {
        let rel = *r.pick(&[RELIABLE, ORDERED, REL_SEQ, RELIABLE, UNRELIABLE]);
        let m = Key::new(0, 0, rel, i, r.range(30, if mtu < 800 { 400 } else { 700 }) as usize).bytes();
        let n = if rel != UNRELIABLE && r.chance(0.6) { r.range(1, 7) as usize } else { 0 };
        if n == 0 {
            frames.push(p.frame(rel, &m));
        } else {
            let f0 = p.frame(rel, &[]);
            let cid = p.with(|s| {
                s.cid += 1;
                cid0.wrapping_add((s.cid - 1).wrapping_mul(cid_step))
            });
            let chunks: Vec<&[u8]> = m.chunks(m.len().div_ceil(n)).collect();
            for (j, ch) in chunks.iter().enumerate() {
                let mut f = f0.clone();
                if j > 0 {
                    f.ridx = p.with(|s| {
                        s.ridx += 1;
                        s.ridx - 1
                    });
                }
                f.data = ch.to_vec();
                f.split = Some((chunks.len() as u32, cid, j as u32));
                frames.push(f);
            }
        }
        want.push((rel, m));
    }
    // fragments of different messages may interleave; sequenced order is kept
    if r.chance(0.6) {
        let mut i = 0;
        while i + 1 < frames.len() {
            if frames[i].rel != REL_SEQ && frames[i + 1].rel != REL_SEQ && r.chance(0.5) {
                frames.swap(i, i + 1);
            }
            i += 1;
        }
    }
    let mut dgs: Vec<Vec<u8>> = vec![];
    let mut cur: Vec<Frame> = vec![];
    let mut room = full - 4;
    let flush = |cur: &mut Vec<Frame>, r: &mut Rng, dgs: &mut Vec<Vec<u8>>| {
        if !cur.is_empty() {
            let mut b = enc_frames(p.next_seq(), cur);
            // every identifier of a datagram with frames
            b[0] = if r.chance(0.5) { *r.pick(&[0x80u8, 0x84, 0x88, 0x8c]) } else { 0x80 + r.below(14) as u8 };
            dgs.push(b);
            cur.clear();
        }
    };
    for f in frames {
        let n = (f.header() + f.data.len()) as i64;
        if n > room || r.chance(0.15) {
            flush(&mut cur, &mut r, &mut dgs);
            room = full - 4;
        }
        room -= n;
        cur.push(f);
    }
    flush(&mut cur, &mut r, &mut dgs);
    // datagrams of exactly the agreed size
    for (i, rel) in [UNRELIABLE, RELIABLE, ORDERED].into_iter().enumerate() {
        let mut f = p.frame(rel, &[]);
        let m = Key::new(0, 0, rel, 100 + i as u32, full as usize - 4 - f.header()).bytes();
        f.data = m.clone();
        dgs.push(enc_frames(p.next_seq(), &[f]));
        assert_eq!(dgs.last().unwrap().len() as i64, full);
        want.push((rel, m));
    }
    for b in &dgs {
        let q = b[1] as u32 | (b[2] as u32) << 8 | (b[3] as u32) << 16;
        for _ in 0..10 {
            p.raw(b).await;
            if wait_until(0.6, || p.is_acked(q)).await {
                break;
            }
        }
        if !p.is_acked(q) {
            c.violation("wire:unacked", "a valid datagram was not acknowledged", J::o(vec![("datagram", J::s(hex(b)))]));
        }
    }
    let n = want.len();
    wait_until(6.0, || app.count() >= n).await;
    let got = app.got();
    c.case(&dgs.concat(), true);
    c.add("messages_from_unusual_packings", n as i64);
    for (rel, m) in &want {
        let x = got.iter().filter(|g| *g == m).count();
        if x != 1 {
            c.violation(
                format!("wire:packing-{rel}"),
                format!("a valid message of reliability {rel} ({:?}) was delivered {x} times", Key::parse(m)),
                J::o(vec![("datagrams", J::A(dgs.iter().take(30).map(|d| J::s(hex(d))).collect())), ("client_side", J::B(client_side)), ("ipv6", J::B(v6))]),
            );
            break;
        }
    }
    for rel in [ORDERED, REL_SEQ] {
        let a: Vec<&Vec<u8>> = want.iter().filter(|m| m.0 == rel).map(|m| &m.1).collect();
        let b: Vec<&Vec<u8>> = got.iter().filter(|g| g[3] == rel).collect();
        if a != b && !c.failed() {
            c.violation(format!("wire:packing-order-{rel}"), "valid messages were delivered out of order", J::A(dgs.iter().take(30).map(|d| J::s(hex(d))).collect()));
        }
    }
    no_bad(&c, &p, "packings");
    let _ = within(5.0, app.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

/// Library to library over IPv6, and an IPv4 client of a dual-stack listener.
async fn v6_pair(c: C, bind: &'static str, reach: &'static str) {
    let mut l = listener_at(bind).await;
    let port = l.local_addr().unwrap().port();
    let to: SocketAddr = format!("{reach}:{port}").parse().unwrap();
    let w = J::s(format!("listener {bind}, connect {to}"));
    let (a, b) = tokio::join!(within(20.0, RaknetSocket::connect(&to)), within(20.0, l.accept()));
    let (Some(Ok(a)), Some(Ok(b))) = (a, b) else {
        c.violation("ipv6:connect", format!("no connection from the library to {to}"), w);
        return;
    };
    if a.peer_addr().unwrap() != to || b.peer_addr().unwrap().port() != a.local_addr().unwrap().port() {
        c.violation("ipv6:address", format!("addresses: client peer {:?}, server peer {:?}, client local {:?}", a.peer_addr(), b.peer_addr(), a.local_addr()), w.clone());
    }
    let (x, y) = (App::new(a), App::new(b));
    for i in 0..20u32 {
        for (d, f, t) in [(0, &x, &y), (1, &y, &x)] {
            let m = Key::new(0, d, ORDERED, i, 20 + 200 * i as usize).bytes();
            if f.s.send(&m, Reliability::ReliableOrdered).await.is_err() || !t.expect(&m, 8.0).await {
                c.violation("ipv6:data", format!("message {i} was not delivered to {to}"), w.clone());
                return;
            }
        }
    }
    match within(12.0, RaknetSocket::ping(&to)).await {
        Some(Ok(_)) => {}
        e => c.violation("ipv6:ping", format!("ping() to {to}: {e:?}"), w),
    }
    c.case(format!("v6 {bind} {reach}").as_bytes(), true);
    let _ = within(5.0, x.s.close()).await;
    let _ = within(15.0, l.close()).await;
}

async fn chatters(c: C) {
    let mut set = tokio::task::JoinSet::new();
    for k in 0..6 {
        for side in [false, true] {
            set.spawn(crate::long::chatter(c.clone(), k, c.q(1500, 20_000) as u32, side));
        }
    }
    while set.join_next().await.is_some() {}
}

pub async fn run(c: C) {
    c.rule("one case = one workload, handshake or packing; distinct by the observed datagram history or by its parameters");
    set_chaos(0.005, 200);
    let mut set = tokio::task::JoinSet::new();
    set.spawn(v6_pair(c.clone(), "[::1]:0", "[::1]"));
    set.spawn(v6_pair(c.clone(), "[::]:0", "[::1]"));
    set.spawn(v6_pair(c.clone(), "0.0.0.0:0", "127.0.0.1"));
    set.spawn(v6_pair(c.clone(), "[::]:0", "127.0.0.1"));
    let mut r = Rng::derive(c.seed, 0x25, 0);
    for k in 0..c.q(16, 200) {
        let mtu = *r.pick(&[400u16, 576, 1000, 1200, 1399, 1400, 1464, 1492]);
        let v = *r.pick(&[10u8, 11]);
        let v6 = k % 2 == 1;
        while set.len() >= 16 {
            set.join_next().await;
        }
        set.spawn(server_fields(c.clone(), v6, mtu, v, k));
        set.spawn(client_fields(c.clone(), v6, mtu, v, k));
    }
    for k in 0..c.q(60, 2000) {
        while set.len() >= 16 {
            set.join_next().await;
        }
        set.spawn(packings(c.clone(), k));
    }
    while set.join_next().await.is_some() {}
    let v6raw = async {
        let mut set = tokio::task::JoinSet::new();
        for i in 0..c.q(16, 300) {
            let mut r = Rng::derive(c.seed, 0x26, i);
            while set.len() >= 8 {
                set.join_next().await;
            }
            let c = c.clone();
            set.spawn(async move {
                match run_raw(RawPlan { seed: r.next(), rels: ALL.to_vec(), msgs: 30, client_side: false, v6: true }).await {
                    Ok(o) => {
                        c.case(&o.datagrams.concat(), true);
                        for rel in 0..5 {
                            oracle_model(&c, &o, rel);
                        }
                    }
                    Err(e) => c.violation("ipv6:raw", e.clone(), J::s(e)),
                }
            });
        }
        while set.join_next().await.is_some() {}
    };
    let f = |c: &Ctx, o: &PairOut| {
        for conn in 0..o.dirs.len() {
            let (f, st) = monitor(&o.trace, conn, &Opts { mtu: 1400, settled: true });
            c.add("datagrams_decoded", st.datagrams);
            c.add("frames_checked", st.frames);
            c.add("fragments_checked", st.splits);
            for x in f.iter().filter(|x| x.class == "wire" || x.sig == "resend:changed") {
                c.violation(x.sig, x.what.clone(), J::o(w_cfg(o, conn, 0)));
            }
        }
    };
    tokio::join!(pairs(&c, c.q(30, 600), 16, &ALL, f), v6raw, chatters(c.clone()));
}
