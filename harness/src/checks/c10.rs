//! C10 Protocol version negotiation.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::HashMap;
use std::sync::Arc;

fn supported(v: u8) -> bool {
    v == 10 || v == 11
}

/// Library client of every version against one listener, all at once.
async fn all_versions(c: C, via_proxy: bool, seed: u64) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let net = if via_proxy { NetCfg { drop: 0.05, dup: 0.3, delay: 0.3, max_delay_ms: 60, ..Default::default() } } else { NetCfg::clean() };
    let px = Proxy::new(la, net, seed).await;
    let to = px.addr;
    let mut r = Rng::new(seed);
    let mut vs: Vec<u8> = (0..=255).collect();
    for _ in 0..30 {
        vs.push(10);
        vs.push(11);
    }
    r.shuffle(&mut vs);
    let total = vs.iter().filter(|v| supported(**v)).count();
    let mut set = tokio::task::JoinSet::new();
    for v in vs.clone() {
        set.spawn(async move { (v, within(60.0, RaknetSocket::connect_with_version(&to, v)).await) });
    }
    let mut servers = HashMap::new();
    let mut clients = vec![];
    let mut twice = false;
    loop {
        tokio::select! {
            r = set.join_next() => match r {
                Some(Ok((v, r))) => clients.push((v, r)),
                Some(Err(_)) => {}
                None => break,
            },
            a = l.accept() => if let Ok(s) = a {
                twice |= servers.insert(s.peer_addr().unwrap(), s).is_some();
            },
        }
    }
    while let Some(Ok(s)) = within(0.5, l.accept()).await {
        twice |= servers.insert(s.peer_addr().unwrap(), s).is_some();
    }
    let map: HashMap<u16, std::net::SocketAddr> = {
        let s = px.st.lock().unwrap();
        s.clients.iter().zip(&s.ups).map(|(a, b)| (a.port(), *b)).collect()
    };
    for (v, r) in &clients {
        let w = J::o(vec![("version", J::I(*v as i64)), ("lossy", J::B(via_proxy))]);
        c.case(format!("{v} {via_proxy}").as_bytes(), true);
        match r {
            Some(Ok(s)) if supported(*v) => {
                let have = s.raknet_version().unwrap();
                if have != *v {
                    c.violation("version:client", format!("connect_with_version({v}) gives a connection of version {have}"), w.clone());
                }
                let Some(up) = map.get(&s.local_addr().unwrap().port()) else { continue };
                match servers.get(up) {
                    None => c.violation("version:unaccepted", format!("the connection of version {v} was never accepted"), w.clone()),
                    Some(x) => {
                        let have = x.raknet_version().unwrap();
                        if have != *v {
                            c.violation("version:server", format!("the server's connection to a version {v} client says version {have}"), w.clone());
                        }
                        let have = l.get_peer_raknet_version(up).await.unwrap();
                        if have != *v {
                            c.violation("version:listener", format!("get_peer_raknet_version() says {have} for a version {v} client"), w.clone());
                        }
                    }
                }
            }
            Some(Err(error::RaknetError::NotSupportVersion)) if !supported(*v) => {
                c.add("versions_refused", 1);
            }
            None => c.violation("version:hang", format!("connect_with_version({v}) did not return"), w),
            Some(x) => c.violation("version:result", format!("connect_with_version({v}) returned {:?}", x.as_ref().map(|_| "a connection")), w),
        }
    }
    if servers.len() > total || twice {
        c.violation("version:accepted", format!("{} connections accepted for {total} clients of supported versions", servers.len()), J::B(via_proxy));
    }
    c.add("connections_with_checked_version", servers.len() as i64);
    drop(clients);
    drop(servers);
    let _ = within(15.0, l.close()).await;
}

/// Datagram level: what the listener answers to each version, and changes of mind from one address.
async fn raw_versions(c: C) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    for v in 0..=255u8 {
        let p = Peer::new(Role::Mute).await;
        p.with(|s| s.to = Some(la));
        p.raw(&enc_req1(v, 1372)).await;
        let ok = wait_until(3.0, || p.with(|s| s.reply1.len() + s.incompatible as usize > 0)).await;
        let (a, b) = p.with(|s| (s.reply1.len(), s.incompatible));
        c.case(format!("raw {v}").as_bytes(), true);
        if !ok || supported(v) != (a > 0) || (a > 0 && b > 0) {
            c.violation("version:answer", format!("OpenConnectionRequest1 of version {v} got {a} OpenConnectionReply1 and {b} IncompatibleProtocolVersion"), J::I(v as i64));
        }
        for x in p.with(|s| s.log.clone()) {
            if let Ok(Dg::Incompatible { version, .. }) = decode(&x.bytes) {
                if !supported(version) {
                    c.violation("version:answer", format!("the refusal of version {v} names version {version}, which the server does not support"), J::I(v as i64));
                }
            }
        }
    }
    if within(0.3, l.accept()).await.is_some() {
        c.violation("version:accepted", "accept() returned although nobody got past OpenConnectionRequest1", J::s("raw"));
    }
    // one address: unsupported first, then supported, then again with the other version
    let p = Peer::new(Role::Client).await;
    p.with(|s| s.to = Some(la));
    p.raw(&enc_req1(9, 1372)).await;
    wait_until(3.0, || p.with(|s| s.incompatible > 0)).await;
    for v in [11u8, 10, 11, 10] {
        p.reset();
        p.with(|s| s.incompatible = 0);
        let (a, s) = tokio::join!(p.connect(la, v, 1400), within(20.0, l.accept()));
        let w = J::o(vec![("version", J::I(v as i64)), ("history", J::s("same address, after 9 refused and earlier connections closed"))]);
        match (a, s) {
            (Ok(()), Some(Ok(s))) => {
                let (x, y) = (s.raknet_version().unwrap(), l.get_peer_raknet_version(&p.addr).await.unwrap());
                if x != v || y != v {
                    c.violation("version:again", format!("version {v} requested, connection says {x}, listener says {y}"), w);
                }
                c.case(format!("again {v}").as_bytes(), true);
                p.raw(&[0x15]).await;
                let s = Arc::new(s);
                let _ = within(10.0, s.recv()).await;
                drop(s);
                lsleep(1.0).await;
            }
            (a, s) => {
                c.violation("version:reconnect", format!("connecting with version {v} again: {a:?}, accept {:?}", s.map(|x| x.is_ok())), w);
                break;
            }
        }
    }
    // an address changes its mind between its first and its last OpenConnectionRequest1
    for (k, asked) in [[10u8, 11], [11, 10]].iter().enumerate() {
        let p = Peer::new(Role::Client).await;
        p.with(|s| s.to = Some(la));
        p.raw(&enc_req1(asked[0], 1372)).await;
        wait_until(3.0, || p.with(|s| !s.reply1.is_empty())).await;
        let (a, s) = tokio::join!(p.connect(la, asked[1], 1400), within(20.0, l.accept()));
        let (Ok(()), Some(Ok(s))) = (a, s) else {
            c.violation("version:reconnect", "an address which asked for two versions in turn cannot connect", J::s(format!("{asked:?}")));
            continue;
        };
        let (x, y) = (s.raknet_version().unwrap(), l.get_peer_raknet_version(&p.addr).await.unwrap());
        c.case(format!("mind {k}").as_bytes(), true);
        if (x, y) != (asked[1], asked[1]) {
            c.violation("version:again", format!("versions {asked:?} requested in turn, connection says {x}, listener says {y}"), J::s(format!("{asked:?}")));
        }
    }
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one version requested by one client (library or raw); distinct by version, kind of client and network");
    all_versions(c.clone(), false, c.seed).await;
    raw_versions(c.clone()).await;
    set_chaos(0.02, 1000);
    for k in 0..c.q(2, 20) {
        all_versions(c.clone(), true, c.seed ^ (k + 5)).await;
    }
}
