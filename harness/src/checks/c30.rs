//! C30 Only RakNet offline messages are answered: nothing is sent to, and no connection made for, an
//! address whose datagrams are not well formed ones, and each which is gets the one answer it asks for.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ping,
    Req1,
    Req2,
}
/// Length of the fields of a message, and where its magic begins.
fn shape(k: Kind, b: &[u8]) -> (usize, usize) {
    match k {
        Kind::Ping => (33, 9),
        Kind::Req1 => (18, 1),
        Kind::Req2 => (1 + 16 + if b.get(17) == Some(&6) { 29 } else { 7 } + 2 + 8, 1),
    }
}

#[derive(Clone, Debug)]
struct Item {
    bytes: Vec<u8>,
    what: String,
    /// the answer it must get, if any
    want: Option<Want>,
    /// an answer it may get
    may: Option<Want>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Want {
    Pong(i64),
    Reply1,
    Incompatible,
    Reply2,
}

fn valid(r: &mut Rng, k: Kind, la: SocketAddr, time: i64) -> (Vec<u8>, Want) {
    match k {
        Kind::Ping => (enc_ping(1 + r.below(2) as u8, time, r.next()), Want::Pong(time)),
        Kind::Req1 => {
            let v = if r.chance(0.6) { 10 + r.below(2) as u8 } else { r.below(256) as u8 };
            (enc_req1(v, r.range(46, 1464) as usize), if v == 10 || v == 11 { Want::Reply1 } else { Want::Incompatible })
        }
        Kind::Req2 => {
            let to: SocketAddr = if r.chance(0.3) { "[2001:db8::1]:19132".parse().unwrap() } else { la };
            (enc_req2(to, r.range(0, 3000) as u16, r.next()), Want::Reply2)
        }
    }
}

/// A datagram which is no offline message, made out of one.
fn spoil(r: &mut Rng, k: Kind, la: SocketAddr, time: i64) -> Item {
    let (mut b, _) = valid(r, k, la, time);
    let (need, at) = shape(k, &b);
    let what;
    match r.below(10) {
        0 | 1 => {
            let bit = r.below(128) as usize;
            b[at + bit / 8] ^= 1 << (bit % 8);
            what = format!("{k:?} with bit {bit} of the magic flipped");
        }
        2 => {
            let n = r.range(1, 16) as usize;
            b[at + 16 - n..at + 16].fill(0);
            what = format!("{k:?} with the last {n} bytes of the magic zero");
        }
        3 => {
            b[at..at + 16].fill(*r.pick(&[0, 0xff, 0xfe]));
            what = format!("{k:?} with one byte for the whole magic");
        }
        4 => {
            b[at..at + 16].reverse();
            what = format!("{k:?} with the magic backwards");
        }
        5 => {
            // one byte missing or one too many ahead of the magic
            if r.chance(0.5) {
                b.remove(at - 1 + r.below(2) as usize);
            } else {
                b.insert(at, r.below(255) as u8 + 1);
            }
            if b.len() >= at + 16 && b[at..at + 16] == MAGIC[..] {
                b[at] ^= 1;
            }
            what = format!("{k:?} with its magic one byte off");
        }
        6 => {
            for x in &mut b[at..at + 16] {
                *x = r.below(256) as u8;
            }
            b[at + 3] ^= 0xff & if b[at..at + 16] == MAGIC[..] { 1 } else { 0 };
            what = format!("{k:?} with a random magic");
        }
        7 | 8 => {
            // a ping without its guid is not judged
            let top = if k == Kind::Ping { 24 } else { need - 1 };
            let n = if r.chance(0.2) { top } else { r.below(top as u64 + 1) as usize };
            b.truncate(n);
            what = format!("{k:?} cut to {n} of {need} bytes");
        }
        _ => {
            // the same fields under an id no server has to answer
            b[0] = *r.pick(&[0, 3, 4, 6, 8, 9, 0x10, 0x12, 0x13, 0x15, 0x19, 0x1b, 0x1c, 0x1d, 0x7f, 0x80, 0x84, 0x8d, 0xa0, 0xc0, 0xfe, 0xff]);
            what = format!("{k:?} under id {:#x}", b[0]);
        }
    }
    Item { bytes: b, what, want: None, may: None }
}

/// A message whose free fields hold anything is still one, and so, perhaps, is one with something behind it.
fn odd(r: &mut Rng, k: Kind, la: SocketAddr, time: i64) -> Item {
    let (mut b, mut w) = valid(r, k, la, time);
    match k {
        Kind::Ping => {
            let t = r.next() as i64;
            b[1..9].copy_from_slice(&t.to_be_bytes());
            w = Want::Pong(t);
        }
        Kind::Req1 => {
            for x in &mut b[18..] {
                *x = r.below(256) as u8;
            }
        }
        Kind::Req2 => {
            let n = b.len();
            for x in &mut b[n - 10..] {
                *x = r.below(256) as u8;
            }
        }
    }
    if k != Kind::Req1 && r.chance(0.4) {
        let n = r.range(1, 200) as usize;
        b.extend((0..n).map(|_| r.below(256) as u8));
        return Item { bytes: b, what: format!("{k:?} with {n} bytes behind it"), want: None, may: Some(w) };
    }
    Item { bytes: b, what: format!("odd {k:?}"), want: Some(w), may: None }
}

struct Srv {
    la: SocketAddr,
    guid: u64,
    motd: Vec<u8>,
    accepted: Arc<Mutex<HashMap<SocketAddr, u32>>>,
}

/// One address: what it sends, and everything it gets.
async fn stranger(c: C, srv: Arc<Srv>, at: &str, seed: u64, connects: bool) -> Peer {
    let mut r = Rng::new(seed);
    let p = Peer::bind(at, Role::Mute).await;
    p.with(|s| s.to = Some(srv.la));
    let mut items: Vec<Item> = vec![];
    let mut tm = 0i64;
    let mut time = || {
        tm += 1;
        ((seed & 0xffff_ffff) << 20) as i64 + tm
    };
    let n = r.range(1, 30);
    let clean = r.chance(0.4);
    for _ in 0..n {
        let k = *r.pick(&[Kind::Ping, Kind::Req1, Kind::Req2]);
        let bad = clean || k == Kind::Req2 || r.chance(0.6);
        items.push(if bad { spoil(&mut r, k, srv.la, time()) } else { odd(&mut r, k, srv.la, time()) });
    }
    let mut req2_sent = false;
    if connects {
        // a Disconnect would end the session that follows
        items.retain(|i| i.bytes.first() != Some(&0x15));
        let at = r.below(items.len() as u64 + 1) as usize;
        let (b, _) = (enc_req1(10 + r.below(2) as u8, 1400), ());
        items.insert(at, Item { bytes: b, what: "Req1".into(), want: Some(Want::Reply1), may: None });
        let at = r.range(at as u64 + 1, items.len() as u64) as usize;
        let x = odd(&mut r, Kind::Req2, srv.la, 0);
        req2_sent = x.want.is_some();
        items.insert(at, x);
    }
    let mut want: HashMap<Want, u32> = HashMap::new();
    let mut may: HashMap<Want, u32> = HashMap::new();
    let mut lost = 0u64;
    let drops = kernel_drops(srv.la.port()).unwrap_or(0);
    for b in items.chunks(8) {
        for it in b {
            p.raw(&it.bytes).await;
            c.case(&it.bytes, true);
            if let Some(w) = it.want {
                *want.entry(w).or_default() += 1;
            }
            if let Some(w) = it.want.or(it.may) {
                *may.entry(w).or_default() += 1;
            }
            c.add(if it.want.is_some() { "messages" } else if it.may.is_some() { "messages_with_more_behind" } else { "spoiled" }, 1);
        }
        // nothing is said for a while: a first answer without a question would be seen
        if !clean || r.chance(0.5) {
            let t = time();
            *want.entry(Want::Pong(t)).or_default() += 1;
            *may.entry(Want::Pong(t)).or_default() += 1;
            p.raw(&enc_ping(1, t, 1)).await;
            if !wait_until(4.0, || p.with(|s| s.pongs.iter().any(|x| x.1 == t))).await {
                lost += 1;
            }
        }
    }
    tokio::time::sleep(Duration::from_millis(60)).await;
    // a little more time for what was asked and is still due
    wait_until(3.0, || p.with(|s| want.get(&Want::Reply1).is_none_or(|n| s.reply1.len() as u32 >= *n) && want.get(&Want::Incompatible).is_none_or(|n| s.incompatible >= *n) && want.get(&Want::Reply2).is_none_or(|n| s.reply2.len() as u32 >= *n))).await;
    let dropped = kernel_drops(srv.la.port()).unwrap_or(0) > drops;
    let list = J::A(items.iter().map(|i| J::s(format!("{} {}", i.what, hex(&i.bytes[..i.bytes.len().min(64)])))).collect());
    let w = J::o(vec![("seed", J::I(seed as i64)), ("sent", list)]);
    let (log, bad) = p.with(|s| (s.log.clone(), s.bad.clone()));
    let mut got: HashMap<Want, u32> = HashMap::new();
    for x in &log {
        let (k, guid) = match decode(&x.bytes) {
            Ok(Dg::Pong { time, guid, motd }) => {
                if motd != srv.motd {
                    c.violation("offline:motd", format!("a pong says {:?}", String::from_utf8_lossy(&motd)), w.clone());
                }
                (Want::Pong(time), Some(guid))
            }
            Ok(Dg::Reply1 { guid, .. }) => (Want::Reply1, Some(guid)),
            Ok(Dg::Reply2 { guid, addr, .. }) => {
                if addr != p.addr {
                    c.violation("offline:address", format!("OpenConnectionReply2 to {} says {addr}", p.addr), w.clone());
                }
                (Want::Reply2, Some(guid))
            }
            Ok(Dg::Incompatible { guid, .. }) => (Want::Incompatible, Some(guid)),
            // what follows in a session the address asked for
            Ok(_) if may.contains_key(&Want::Reply2) => continue,
            Ok(d) => {
                c.violation("offline:other", format!("{d:?} was sent to an address which has no session"), w.clone());
                continue;
            }
            Err(_) => continue,
        };
        if guid.is_some_and(|g| g != srv.guid) {
            c.violation("offline:guid", format!("an answer names the server {:x}, another {:x}", guid.unwrap(), srv.guid), w.clone());
        }
        *got.entry(k).or_default() += 1;
    }
    for (e, d) in bad {
        c.violation("offline:malformed", format!("the server sent {d}: {e}"), w.clone());
    }
    for (k, n) in &got {
        let m = may.get(k).copied().unwrap_or(0);
        if *n > m {
            c.violation("offline:answered", format!("{n} answers {k:?} to {m} messages which ask for one; {} other datagrams were sent", items.len()), w.clone());
        }
    }
    for (k, n) in &want {
        let m = got.get(k).copied().unwrap_or(0);
        if m < *n && !dropped && lost < 2 {
            c.violation("offline:unanswered", format!("{m} answers {k:?} to {n} messages"), w.clone());
        }
    }
    let n = srv.accepted.lock().unwrap().get(&p.addr).copied().unwrap_or(0);
    if n > may.get(&Want::Reply2).copied().unwrap_or(0) {
        c.violation("offline:accepted", format!("accept() gave {n} connections of an address which sent {} OpenConnectionRequest2", may.get(&Want::Reply2).copied().unwrap_or(0)), w.clone());
    }
    if req2_sent && n == 0 && !dropped && !wait_until(5.0, || srv.accepted.lock().unwrap().contains_key(&p.addr)).await {
        c.violation("offline:unaccepted", "accept() did not give the connection of an address which sent OpenConnectionRequest2", w);
    }
    c.add("answers", got.values().sum::<u32>() as i64);
    c.add("addresses", 1);
    p
}

async fn server(c: C, at: &str, seed: u64, n: u64) {
    let mut l = listener_at(at).await;
    let la = l.local_addr().unwrap();
    l.set_motd("C30 \u{e9}", 77, "11", "1.2.3", "Survival", la.port()).await;
    let motd = l.get_motd().await.into_bytes();
    let p = Peer::bind(&format!("{}:0", if la.is_ipv4() { "127.0.0.1" } else { "[::1]" }), Role::Mute).await;
    p.with(|s| s.to = Some(la));
    p.raw(&enc_ping(1, 5, 5)).await;
    if !wait_until(5.0, || p.with(|s| !s.pongs.is_empty())).await {
        return c.violation("offline:unanswered", "a ping to a new listener is not answered", J::B(true));
    }
    let guid = p.with(|s| s.pongs[0].2);
    let accepted: Arc<Mutex<HashMap<SocketAddr, u32>>> = Default::default();
    let (lib, srv_end) = match lib_pair(None, &mut l).await {
        Ok(x) => x,
        Err(e) => return c.violation("offline:connect", e, J::B(true)),
    };
    let (lib, srv_end) = (App::new(lib), App::new(srv_end));
    let a2 = accepted.clone();
    let keep: Arc<Mutex<Vec<RaknetSocket>>> = Default::default();
    let k2 = keep.clone();
    let acceptor = spawn(async move {
        while let Ok(s) = l.accept().await {
            let a = s.peer_addr().unwrap();
            k2.lock().unwrap().push(s);
            *a2.lock().unwrap().entry(a).or_default() += 1;
        }
    });
    let srv = Arc::new(Srv { la, guid, motd, accepted: accepted.clone() });
    let mut r = Rng::derive(seed, 0x3001, 0);
    let mut set = tokio::task::JoinSet::new();
    // no address is used twice
    let mut used = vec![];
    for i in 0..n {
        while set.len() >= 12 {
            used.push(set.join_next().await);
        }
        if c.failed() {
            break;
        }
        let (c2, srv, s, con) = (c.clone(), srv.clone(), r.next(), r.chance(0.35));
        let at = if la.is_ipv4() { format!("127.0.0.{}:0", 1 + i % 3) } else { "[::1]:0".into() };
        set.spawn(async move { stranger(c2, srv, &at, s, con).await });
        if i % 40 == 39 {
            // an established connection is not disturbed
            let m = Key::new(0, 0, ORDERED, i as u32, 300).bytes();
            let _ = within(5.0, lib.s.send(&m, Reliability::ReliableOrdered)).await;
            let m2 = Key::new(0, 1, ORDERED, i as u32, 300).bytes();
            let _ = within(5.0, srv_end.s.send(&m2, Reliability::ReliableOrdered)).await;
            if !srv_end.expect(&m, 10.0).await || !lib.expect(&m2, 10.0).await {
                c.violation("offline:established", "an established connection no longer carries messages", J::I(seed as i64));
            }
        }
    }
    while let Some(x) = set.join_next().await {
        used.push(Some(x));
    }
    drop(acceptor);
}

/// A server which answers with what is no answer, then, if `mend`, with a right one.
async fn client(c: C, stage: u8, seed: u64) {
    let mut r = Rng::new(seed);
    let sock = Arc::new(tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap());
    let la = sock.local_addr().unwrap();
    let seen: Arc<Mutex<[u32; 4]>> = Default::default();
    let s2 = seen.clone();
    let how = r.below(4);
    let mut r2 = Rng::new(seed ^ 1);
    let mut spoil = move |mut b: Vec<u8>, at: usize| {
        match how {
            0 => {
                let bit = r2.below(128) as usize;
                b[at + bit / 8] ^= 1 << (bit % 8);
            }
            1 => b[at..at + 16].fill(r2.below(256) as u8),
            2 => b.truncate(r2.range(1, at as u64 + 15) as usize),
            _ => b[at..at + 16].reverse(),
        }
        b
    };
    let task = spawn(async move {
        let mut buf = vec![0; 4096];
        loop {
            let Ok((n, from)) = sock.recv_from(&mut buf).await else { continue };
            let mut out = vec![];
            match decode(&buf[..n]) {
                Ok(Dg::Req1 { .. }) => {
                    s2.lock().unwrap()[0] += 1;
                    let b = enc_reply1(9, 1400);
                    out.push(if stage == 1 { spoil(b, 1) } else { b });
                }
                Ok(Dg::Req2 { .. }) => {
                    s2.lock().unwrap()[1] += 1;
                    let b = enc_reply2(9, from, 1400);
                    out.push(if stage == 2 { spoil(b, 1) } else { b });
                }
                Ok(Dg::Ping { time }) => {
                    let n = {
                        let mut s = s2.lock().unwrap();
                        s[2] += 1;
                        s[2]
                    };
                    let bad = spoil(enc_pong(time, 9, b"MCPE;spoiled"), 17);
                    out.push(if n < 2 { bad } else { enc_pong(time, 9, b"MCPE;right") });
                }
                Ok(Dg::Frames { .. }) => s2.lock().unwrap()[3] += 1,
                _ => {}
            }
            for d in out {
                let _ = sock.send_to(&d, from).await;
            }
        }
    });
    let w = J::o(vec![("stage", J::I(stage as i64)), ("spoiled", J::I(how as i64)), ("seed", J::I(seed as i64))]);
    c.case(format!("client {stage} {seed}").as_bytes(), true);
    c.add("clients", 1);
    if stage == 3 {
        match within(20.0, RaknetSocket::ping(&la)).await {
            Some(Ok((_, m))) if m == "MCPE;right" => {}
            // a malformed pong may be taken for a failure
            Some(Err(_)) => {}
            x => c.violation("offline:ping", format!("ping() gave {x:?} of a server whose first pong is malformed"), w),
        }
        return;
    }
    let x = within(5.0, RaknetSocket::connect(&la)).await;
    if let Some(Ok(_)) = x {
        c.violation("offline:client", format!("connect() gave a connection to a server whose OpenConnectionReply{stage} is malformed"), w.clone());
    }
    lsleep(0.2).await;
    let s = *seen.lock().unwrap();
    if (stage == 1 && s[1] > 0) || s[3] > 0 {
        c.violation("offline:client", format!("the client went on after a malformed OpenConnectionReply{stage}: {} OpenConnectionRequest2, {} frame datagrams", s[1], s[3]), w);
    }
    drop(task);
}

pub async fn run(c: C) {
    c.rule("one case = one datagram of a stranger (distinct by its bytes) or one server with malformed answers; answers are counted for each address, kind and echoed time");
    server(c.clone(), "127.0.0.1:0", c.seed, c.q(400, 6000)).await;
    server(c.clone(), "[::1]:0", c.seed + 1, c.q(100, 1500)).await;
    let mut set = tokio::task::JoinSet::new();
    for k in 0..c.q(48, 600) {
        while set.len() >= 24 {
            set.join_next().await;
        }
        set.spawn(client(c.clone(), 1 + (k % 3) as u8, c.seed * 999 + k));
    }
    while set.join_next().await.is_some() {}
    set_chaos(0.05, 1000);
    server(c.clone(), "127.0.0.1:0", c.seed + 2, c.q(400, 6000)).await;
}
