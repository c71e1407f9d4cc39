//! C11 No datagram from a stranger can stop the server.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Well-formed examples of everything a RakNet server may receive outside a session.
pub fn unconnected(to: SocketAddr) -> Vec<(&'static str, Vec<u8>)> {
    let mut f = Frame::new(ORDERED, &enc_conn_request(7, 8));
    f.ridx = 0;
    let six: SocketAddr = "[2001:db8::1]:19132".parse().unwrap();
    vec![
        ("ping", enc_ping(1, 1234, 99)),
        ("ping open", enc_ping(2, 1234, 99)),
        ("request1", enc_req1(10, 1372)),
        ("request1 short", enc_req1(10, 46)),
        ("request1 bad version", enc_req1(200, 600)),
        ("request2", enc_req2(to, 1400, 5)),
        ("request2 v6", enc_req2(six, 1400, 5)),
        ("reply1", enc_reply1(3, 1400)),
        ("reply2", enc_reply2(3, to, 1400)),
        ("reply2 v6", enc_reply2(3, six, 1400)),
        ("already", enc_already(0x12, 3)),
        ("incompatible", enc_incompatible(10, 3)),
        ("pong", enc_pong(5, 3, b"MCPE;x;y")),
        ("disconnect", vec![0x15]),
        ("ack", enc_ack(ACK, &[(0, 0), (2, 9)])),
        ("nack", enc_ack(NACK, &[(0, 0), (2, 9)])),
        ("frames", enc_frames(0, &[f])),
        ("connection request unframed", enc_conn_request(7, 8)),
        ("accepted unframed", enc_accepted(to, 1, 2)),
        ("incoming unframed", enc_incoming(to, 1, 2)),
        ("connected ping unframed", enc_conn_ping(4)),
    ]
}

struct World {
    l_addr: SocketAddr,
    accepted: Arc<Mutex<Vec<RaknetSocket>>>,
    _acceptor: Task,
    client: App,
    server: App,
    raw: Peer,
    raw_server: App,
    n: u32,
}

async fn world() -> Result<World, String> {
    let mut l = listener().await;
    let l_addr = l.local_addr().unwrap();
    let (c, s) = lib_pair(None, &mut l).await?;
    let (raw, rs) = raw_client(&mut l, 10, 1400).await?;
    let accepted = Arc::new(Mutex::new(vec![]));
    let a2 = accepted.clone();
    let acceptor = spawn(async move {
        while let Ok(s) = l.accept().await {
            a2.lock().unwrap().push(s);
        }
    });
    Ok(World { l_addr, accepted, _acceptor: acceptor, client: App::new(c), server: App::new(s), raw, raw_server: App::new(rs), n: 0 })
}

impl World {
    /// Everything a bystander should see; returns what is broken.
    async fn probe(&mut self, connect: bool) -> Option<(&'static str, String)> {
        self.n += 1;
        if lib_panics() > 0 {
            let p = &lib_panic_records()[0];
            return Some(("hostile:panic", format!("a task of the library panicked at {}: {}", p.at, p.msg)));
        }
        let q = Peer::new(Role::Mute).await;
        q.with(|s| s.to = Some(self.l_addr));
        let mut ok = false;
        for _ in 0..6 {
            q.raw(&enc_ping(1, self.n as i64, 1)).await;
            if wait_until(0.7, || q.with(|s| !s.pongs.is_empty())).await {
                ok = true;
                break;
            }
        }
        if !ok {
            return Some(("hostile:ping", "the server no longer answers pings".into()));
        }
        let m = Key::new(1, 0, ORDERED, self.n, 60).bytes();
        let _ = within(5.0, self.client.s.send(&m, Reliability::ReliableOrdered)).await;
        if !self.server.expect(&m, 8.0).await {
            return Some(("hostile:existing", "an established connection no longer carries messages to the server".into()));
        }
        let m = Key::new(1, 1, ORDERED, self.n, 60).bytes();
        let _ = within(5.0, self.server.s.send(&m, Reliability::ReliableOrdered)).await;
        if !self.client.expect(&m, 8.0).await {
            return Some(("hostile:existing", "an established connection no longer carries messages to its client".into()));
        }
        let m = Key::new(2, 0, ORDERED, self.n, 60).bytes();
        if !self.raw.msg(ORDERED, &m).await || !self.raw_server.expect(&m, 5.0).await {
            return Some(("hostile:own", "the connection of the address that sent unconnected messages no longer works".into()));
        }
        if connect {
            match within(25.0, RaknetSocket::connect(&self.l_addr)).await {
                Some(Ok(s)) => {
                    let la = s.local_addr().unwrap();
                    let acc = self.accepted.clone();
                    if !wait_until(5.0, || acc.lock().unwrap().iter().any(|x| x.peer_addr().unwrap().port() == la.port())).await {
                        return Some(("hostile:accept", "a new connection is not accepted any more".into()));
                    }
                    let _ = s.close().await;
                }
                x => return Some(("hostile:connect", format!("new connections are not possible any more: {:?}", x.map(|r| r.err())))),
            }
            self.accepted.lock().unwrap().clear();
        }
        if lib_panics() > 0 {
            let p = &lib_panic_records()[0];
            return Some(("hostile:panic", format!("a task of the library panicked at {}: {}", p.at, p.msg)));
        }
        None
    }
}

/// Sends a family of datagrams in small batches with probes between them.
async fn family(c: C, name: String, list: Vec<Vec<u8>>, from_established: bool) {
    let mut w = match world().await {
        Ok(w) => w,
        Err(e) => {
            c.violation("hostile:setup", format!("cannot set up before {name}: {e}"), J::s(name));
            return;
        }
    };
    let mut stranger = Peer::new(Role::Mute).await;
    let batches: Vec<&[Vec<u8>]> = list.chunks(40).collect();
    let last = batches.len().saturating_sub(1);
    for (i, b) in batches.iter().enumerate() {
        if c.failed() {
            return;
        }
        for (k, d) in b.iter().enumerate() {
            if from_established {
                w.raw.raw(d).await;
            } else {
                let _ = stranger.sock.send_to(d, w.l_addr).await;
            }
            if k % 8 == 7 {
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
        }
        c.add("hostile_datagrams_sent", b.len() as i64);
        c.case(format!("{name} {i} {from_established}").as_bytes(), true);
        if let Some((sig, what)) = w.probe(i % 4 == 3 || i == last).await {
            c.violation(
                sig,
                format!("{what} (after datagrams of family {name}, from {})", if from_established { "an established peer's address" } else { "a stranger" }),
                J::o(vec![("family", J::s(name)), ("last_batch", J::A(b.iter().map(|d| J::s(hex(d))).collect()))]),
            );
            return;
        }
        if i % 4 == 3 {
            stranger = Peer::new(Role::Mute).await;
        }
        c.add("probes_passed", 1);
    }
}

pub async fn run(c: C) {
    c.rule("one case = a batch of up to 40 hostile datagrams followed by probes (ping, two live connections both ways, new connection); distinct by family, batch and sender");
    let to: SocketAddr = "127.0.0.1:19132".parse().unwrap();
    let mut r = Rng::derive(c.seed, 11, 11);
    let mut fams: Vec<(String, Vec<Vec<u8>>)> = vec![];
    // every truncation of every message, after its full version (what is left in a reused buffer)
    for (n, m) in unconnected(to) {
        let mut v = vec![];
        for k in 0..m.len().min(90) {
            if n != "disconnect" && r.chance(0.3) {
                v.push(m.clone());
            }
            v.push(m[..k].to_vec());
        }
        fams.push((format!("truncations of {n}"), v));
    }
    fams.push(("one byte".into(), (0..=255u8).map(|b| vec![b]).collect()));
    fams.push(("empty".into(), {
        let mut v = vec![];
        for (_, m) in unconnected(to) {
            v.push(m);
            v.push(vec![]);
            v.push(vec![]);
        }
        v
    }));
    for len in [2usize, 3, 4, 16, 17, 18, 24, 25, 34, 2047, 2048, 2049, 9000] {
        let mut v: Vec<Vec<u8>> = vec![];
        for b in 0..=255u8 {
            if len > 1000 && b % 5 != 0 && b > 0x20 {
                continue;
            }
            let mut d: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
            d[0] = b;
            if r.chance(0.5) && len >= 25 {
                d[1..17].copy_from_slice(&MAGIC);
            }
            v.push(d);
        }
        fams.push((format!("every first byte, length {len}"), v));
    }
    // address forms inside request2 and replies
    let mut v = vec![];
    for ver in 0..=255u8 {
        let mut d = vec![0x07];
        d.extend_from_slice(&MAGIC);
        d.push(ver);
        let n = r.below(40) as usize;
        d.extend((0..n).map(|_| r.next() as u8));
        v.push(d);
    }
    for mtu in [0u16, 1, 27, 28, 59, 60, 61, 399, 1493, 8252, 65535] {
        v.push(enc_req2(to, mtu, r.next()));
    }
    fams.push(("request2 with odd addresses and MTUs".into(), v));
    for f in 0..c.q(6, 120) {
        let mut v = vec![];
        let base = unconnected(to);
        for _ in 0..c.q(240, 600) {
            let mut d = r.pick(&base).1.clone();
            for _ in 0..r.range(1, 6) {
                let i = r.below(d.len() as u64) as usize;
                match r.below(4) {
                    0 => d[i] = r.next() as u8,
                    1 => d[i] ^= 1 << r.below(8),
                    2 => d.truncate(i.max(1)),
                    _ => d.insert(i, r.next() as u8),
                }
            }
            v.push(d);
        }
        fams.push((format!("mutations {f}"), v));
    }
    for f in 0..c.q(3, 60) {
        let v = (0..200).map(|_| { let n = r.below(200) as usize; (0..n).map(|_| r.next() as u8).collect() }).collect();
        fams.push((format!("random bytes {f}"), v));
    }
    let sessionless = |d: &Vec<u8>| -> bool {
        // from an established address only unconnected and handshake messages count here
        matches!(d.first(), None | Some(0x01 | 0x02 | 0x05 | 0x06 | 0x07 | 0x08 | 0x12 | 0x19 | 0x1c))
    };
    let mut set = tokio::task::JoinSet::new();
    for (n, v) in fams {
        for est in [false, true] {
            let list: Vec<Vec<u8>> = if est { v.iter().filter(|d| sessionless(d)).cloned().collect() } else { v.clone() };
            if list.is_empty() || c.failed() {
                continue;
            }
            if set.len() >= 10 {
                set.join_next().await;
            }
            set.spawn(family(c.clone(), n.clone(), list, est));
        }
    }
    while set.join_next().await.is_some() {}
}
