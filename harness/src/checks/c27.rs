//! C27 Failing network calls are survived: a datagram that could not be sent is a lost one, and
//! nobody goes deaf.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::time::Duration;

const SEND_ERRORS: [i32; 9] = [libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ENETDOWN, libc::ENOBUFS, libc::EPERM, libc::ENOMEM, libc::ECONNREFUSED, libc::EMSGSIZE, libc::EADDRNOTAVAIL];
const RECV_ERRORS: [i32; 6] = [libc::ENOMEM, libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::ENOBUFS, libc::ECONNRESET];

/// Messages both ways while `f` breaks things; everything reliable arrives, once, in order.
struct Traffic {
    a: App,
    b: App,
    sent: [Vec<(u8, Vec<u8>)>; 2],
    next: u32,
}
impl Traffic {
    fn new(a: RaknetSocket, b: RaknetSocket) -> Traffic {
        Traffic { a: App::new(a), b: App::new(b), sent: Default::default(), next: 0 }
    }
    async fn some(&mut self, n: u32, r: &mut Rng, c: &C, w: &J) -> bool {
        for _ in 0..n {
            for d in 0..2u8 {
                let rel = *r.pick(&[ORDERED, ORDERED, RELIABLE]);
                let len = if rel == ORDERED && r.chance(0.2) { r.range(1341, 9000) } else { r.range(30, 1300) };
                let m = Key::new(0, d, rel, self.next, len as usize).bytes();
                let s = if d == 0 { &self.a.s } else { &self.b.s };
                match within(8.0, s.send(&m, rel_of(rel))).await {
                    Some(Ok(())) => {}
                    x => {
                        c.violation("fault:send", format!("send() gave {x:?} while calls of the network failed"), w.clone());
                        return false;
                    }
                }
                self.sent[d as usize].push((rel, m));
            }
            self.next += 1;
            if r.chance(0.4) {
                tokio::time::sleep(Duration::from_millis(r.below(30))).await;
            }
        }
        true
    }
    async fn judge(&self, c: &C, w: &J) {
        wait_until(60.0, || self.b.count() >= self.sent[0].len() && self.a.count() >= self.sent[1].len() || self.a.ended().is_some() || self.b.ended().is_some()).await;
        lsleep(0.2).await;
        for (d, app) in [(0usize, &self.b), (1, &self.a)] {
            if let Some((_, e)) = app.ended() {
                return c.violation("fault:closed", format!("a connection ended ({e}) because calls of the network failed for a while"), w.clone());
            }
            let want_o: Vec<Vec<u8>> = self.sent[d].iter().filter(|x| x.0 == ORDERED).map(|x| x.1.clone()).collect();
            let mut gs = app.got();
            let got_o: Vec<Vec<u8>> = gs.iter().filter(|m| want_o.contains(m)).cloned().collect();
            let mut all: Vec<Vec<u8>> = self.sent[d].iter().map(|x| x.1.clone()).collect();
            all.sort();
            gs.sort();
            if all != gs || want_o != got_o {
                return c.violation("fault:unrecovered", format!("{} reliable messages were sent, {} received; in order: {}", all.len(), gs.len(), want_o == got_o), w.clone());
            }
            c.add("messages_recovered", gs.len() as i64);
        }
    }
    async fn close(self, r: &mut Rng, c: &C, w: &J) {
        let (x, y) = if r.chance(0.5) { (&self.a, &self.b) } else { (&self.b, &self.a) };
        match within(8.0, x.s.close()).await {
            Some(Ok(())) => {}
            z => return c.violation("fault:close", format!("close() gave {z:?}"), w.clone()),
        }
        if !wait_until(15.0, || y.ended().is_some() && x.ended().is_some()).await {
            c.violation("fault:close-unnoticed", "the close of the connection is not noticed", w.clone());
        }
    }
}

fn errs(e: &[i32], r: &mut Rng) -> i32 {
    *r.pick(e)
}

/// A share of the sends fails, or all of them for some seconds.
async fn sends(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x2701, k);
    let outage = k % 2 == 0;
    let side = r.below(3);
    let errno = errs(&SEND_ERRORS, &mut r);
    let p = if outage { 1.0 } else { r.range(10, 50) as f64 / 100.0 };
    let w = J::o(vec![("sends_fail_at", J::s(["client", "server", "both"][side as usize])), ("errno", J::I(errno as i64)), ("share", J::F(p)), ("workload", J::I(k as i64))]);
    let mut l = listener().await;
    let Ok((a, b)) = lib_pair(None, &mut l).await else { return c.violation("fault:connect", "no connection", w) };
    let ports = [a.local_addr().unwrap().port(), l.local_addr().unwrap().port()];
    let mut t = Traffic::new(a, b);
    if !t.some(5, &mut r, &c, &w).await {
        return;
    }
    let fs: Vec<Faulty> = (0..2).filter(|i| side == 2 || side == *i).map(|i| Faulty::new(Fault { call: Call::Send, port: ports[i as usize], to: 0, p, errno })).collect();
    if !t.some(r.range(10, 30) as u32, &mut r, &c, &w).await {
        return;
    }
    let s = t.a.s.clone();
    let fl = tokio::spawn(async move { within(60.0, s.flush()).await });
    lsleep(if outage { r.range(5, 40) as f64 / 10.0 } else { 0.5 }).await;
    drop(fs);
    if !t.some(5, &mut r, &c, &w).await {
        return;
    }
    t.judge(&c, &w).await;
    match fl.await {
        Ok(Some(Ok(()))) => {}
        x => c.violation("fault:flush", format!("flush() across a failure of sends gave {x:?}"), w.clone()),
    }
    c.case(format!("sends {k} {side} {errno}").as_bytes(), true);
    // the end of a connection is told ten times, some of these sends may fail
    let f = Faulty::new(Fault { call: Call::Send, port: ports[0], to: 0, p: 0.3, errno });
    let f2 = Faulty::new(Fault { call: Call::Send, port: ports[1], to: 0, p: 0.3, errno });
    t.close(&mut r, &c, &w).await;
    drop((f, f2));
    if within(15.0, l.close()).await.is_none() {
        c.violation("fault:listener-close", "RaknetListener::close() hangs after sends had failed", w);
    }
}

/// connect() and ping() whose sends, or whose server's sends, fail at first.
async fn connecting(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x2702, k);
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let at_server = r.chance(0.5);
    let errno = errs(&SEND_ERRORS, &mut r);
    let secs = r.range(1, 35) as f64 / 10.0;
    let p = if r.chance(0.5) { 1.0 } else { 0.5 };
    let w = J::o(vec![("sends_fail_at", J::s(if at_server { "server" } else { "client" })), ("errno", J::I(errno as i64)), ("share", J::F(p)), ("seconds", J::F(secs))]);
    let f = Faulty::new(Fault { call: Call::Send, port: if at_server { la.port() } else { 0 }, to: if at_server { 0 } else { la.port() }, p, errno });
    let conn = tokio::spawn(async move { within(40.0, RaknetSocket::connect(&la)).await });
    let ping = tokio::spawn(async move { within(40.0, RaknetSocket::ping(&la)).await });
    lsleep(secs).await;
    drop(f);
    match conn.await {
        Ok(Some(Ok(a))) => match within(20.0, l.accept()).await {
            Some(Ok(b)) => {
                let mut t = Traffic::new(a, b);
                if t.some(4, &mut r, &c, &w).await {
                    t.judge(&c, &w).await;
                    t.close(&mut r, &c, &w).await;
                }
            }
            x => c.violation("fault:accept", format!("accept() gave {:?}", x.map(|x| x.is_ok())), w.clone()),
        },
        x => c.violation("fault:connect", format!("connect() gave {:?} though sends work again", x.map(|x| x.map(|x| x.map(|_| ())))), w.clone()),
    }
    match ping.await {
        Ok(Some(Ok((_, m)))) if m == l.get_motd().await => {}
        Ok(Some(Err(error::RaknetError::SocketError))) => {}
        x => c.violation("fault:ping", format!("ping() gave {x:?}"), w.clone()),
    }
    c.case(format!("connecting {k}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

async fn serves(c: &C, l: &mut RaknetListener, w: &J, when: &str) {
    let la = l.local_addr().unwrap();
    match within(20.0, RaknetSocket::ping(&la)).await {
        Some(Ok((_, m))) if m == l.get_motd().await => {}
        x => return c.violation("fault:deaf-ping", format!("{when} ping() gives {x:?}"), w.clone()),
    }
    match lib_pair(None, l).await {
        Ok((a, b)) => {
            let m = Key::new(3, 0, ORDERED, 0, 500).bytes();
            let b = App::new(b);
            let _ = a.send(&m, Reliability::ReliableOrdered).await;
            if !b.expect(&m, 20.0).await {
                c.violation("fault:deaf", format!("{when} a new connection carries nothing"), w.clone());
            }
            let _ = within(5.0, a.close()).await;
        }
        Err(e) => c.violation("fault:deaf-connect", format!("{when} nobody can connect: {e}"), w.clone()),
    }
}

/// Receiving fails at the listener's socket for a moment.
async fn listener_recv(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x2703, k);
    let errno = errs(&RECV_ERRORS, &mut r);
    let p = *r.pick(&[1.0, 0.5, 0.1]);
    let secs = r.range(1, 15) as f64 / 10.0;
    let w = J::o(vec![("receiving_fails_at", J::s("listener")), ("errno", J::I(errno as i64)), ("share", J::F(p)), ("seconds", J::F(secs))]);
    let mut l = listener().await;
    let Ok((a, b)) = lib_pair(None, &mut l).await else { return c.violation("fault:connect", "no connection", w) };
    let port = l.local_addr().unwrap().port();
    let mut t = Traffic::new(a, b);
    let f = Faulty::new(Fault { call: Call::Recv, port, to: 0, p, errno });
    if !t.some(r.range(5, 20) as u32, &mut r, &c, &w).await {
        return;
    }
    lsleep(secs).await;
    if k % 4 == 3 {
        // closing goes on while receiving fails
        if within(20.0, l.close()).await.is_none() {
            c.violation("fault:listener-close", "RaknetListener::close() hangs while receiving fails", w);
        }
        c.case(format!("listener_recv {k}").as_bytes(), true);
        return;
    }
    drop(f);
    serves(&c, &mut l, &w, "after receiving had failed for a moment").await;
    t.judge(&c, &w).await;
    t.close(&mut r, &c, &w).await;
    c.case(format!("listener_recv {k}").as_bytes(), true);
    let la = l.local_addr().unwrap();
    if within(20.0, l.close()).await.is_none() {
        c.violation("fault:listener-close", "RaknetListener::close() hangs after receiving had failed", w);
    } else if std::net::UdpSocket::bind(la).is_err() {
        c.violation("fault:port", "the port is not free after close(), receiving had failed", w);
    }
}

/// The kernel itself reports that a client is gone: the socket was made with IP_RECVERR.
async fn recverr(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x2704, k);
    let w = J::o(vec![("listener", J::s("from_std with IP_RECVERR")), ("workload", J::I(k as i64))]);
    let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let on: libc::c_int = 1;
    use std::os::fd::AsRawFd;
    if unsafe { libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_IP, libc::IP_RECVERR, &on as *const _ as *const libc::c_void, 4) } != 0 {
        return c.add("recverr_unavailable", 1);
    }
    let Ok(mut l) = RaknetListener::from_std(s).await else { return c.violation("fault:bind", "from_std() failed", w) };
    l.listen().await;
    let Ok((a, b)) = lib_pair(None, &mut l).await else { return c.violation("fault:connect", "no connection", w) };
    let mut t = Traffic::new(a, b);
    for _ in 0..3 {
        // a client that vanishes; what the server sends to it comes back as an error
        let Ok((p, s)) = raw_client(&mut l, 10, 1400).await else { return c.violation("fault:deaf-connect", "nobody can connect after a client had vanished", w) };
        drop(p);
        for i in 0..5 {
            let _ = within(5.0, s.send(&Key::new(1, 1, ORDERED, i, 300).bytes(), Reliability::ReliableOrdered)).await;
            lsleep(0.05).await;
        }
        if !t.some(3, &mut r, &c, &w).await {
            return;
        }
        serves(&c, &mut l, &w, "after a client had vanished").await;
        if c.failed() {
            return;
        }
        drop(s);
    }
    t.judge(&c, &w).await;
    c.add("errors_reported_by_the_kernel", 1);
    c.case(format!("recverr {k}").as_bytes(), true);
    t.close(&mut r, &c, &w).await;
    let _ = within(15.0, l.close()).await;
}

/// Receiving fails at a client: its connection goes on, or ends at both sides.
async fn client_recv(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x2705, k);
    let errno = errs(&RECV_ERRORS, &mut r);
    let w = J::o(vec![("receiving_fails_at", J::s("client")), ("errno", J::I(errno as i64)), ("workload", J::I(k as i64))]);
    let mut l = listener().await;
    let Ok((a, b)) = lib_pair(None, &mut l).await else { return c.violation("fault:connect", "no connection", w) };
    let port = a.local_addr().unwrap().port();
    let (a, b) = (App::new(a), App::new(b));
    let f = Faulty::new(Fault { call: Call::Recv, port, to: 0, p: *r.pick(&[1.0, 0.3]), errno });
    for i in 0..4 {
        let _ = within(5.0, b.s.send(&Key::new(0, 1, ORDERED, i, 300).bytes(), Reliability::ReliableOrdered)).await;
        lsleep(0.05).await;
    }
    drop(f);
    let m = Key::new(0, 1, ORDERED, 9, 300).bytes();
    let _ = within(5.0, b.s.send(&m, Reliability::ReliableOrdered)).await;
    if !wait_until(15.0, || a.has(&m) || a.ended().is_some() && b.ended().is_some()).await {
        c.violation("fault:client-deaf", "15 s after receiving had failed at the client it neither receives nor has the connection ended at both sides", w.clone());
    }
    if a.ended().is_some() {
        c.add("client_connections_ended", 1);
        match within(8.0, a.s.send(&m, Reliability::Reliable)).await {
            Some(Err(error::RaknetError::ConnectionClosed)) => {}
            x => c.violation("fault:client-ended", format!("recv() has failed but send() gives {x:?}"), w),
        }
    }
    c.case(format!("client_recv {k} {errno}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// Receiving fails while a client waits for the replies of the server: no flood, and it connects.
async fn connecting_recv(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x2706, k);
    let errno = errs(&RECV_ERRORS, &mut r);
    let second = k % 2 == 1;
    let w = J::o(vec![("receiving_fails_at", J::s("client in connect()")), ("errno", J::I(errno as i64)), ("waiting_for", J::s(if second { "reply 2" } else { "reply 1" }))]);
    let p = Peer::new(Role::Server).await;
    p.with(|s| s.auto_handshake = false);
    let to = p.addr;
    let conn = tokio::spawn(async move { within(40.0, RaknetSocket::connect(&to)).await });
    let mut seen = 0;
    let mut fault: Option<(u64, Faulty)> = None;
    let mut counted = 0;
    let end = ticks() + 1500;
    let mut healed = false;
    while !conn.is_finished() && ticks() < end && !healed {
        tokio::time::sleep(Duration::from_millis(3)).await;
        let fresh: Vec<Rx> = p.with(|s| {
            let v = s.log[seen..].to_vec();
            seen = s.log.len();
            v
        });
        for rx in fresh {
            let hit = match decode(&rx.bytes) {
                Ok(Dg::Req1 { .. }) if second => {
                    let _ = p.sock.send_to(&enc_reply1(5, 1400), rx.from).await;
                    false
                }
                Ok(Dg::Req1 { .. }) => true,
                Ok(Dg::Req2 { .. }) => second,
                _ => false,
            };
            if hit {
                counted += fault.is_some() as u64;
                if fault.is_none() {
                    fault = Some((ticks(), Faulty::new(Fault { call: Call::Recv, port: rx.from.port(), to: 0, p: 1.0, errno })));
                    // something to receive
                    let _ = p.sock.send_to(&[0xee], rx.from).await;
                }
            }
        }
        if let Some((t, _)) = &fault {
            if ticks() > t + 100 {
                fault = None;
                healed = true;
                p.with(|s| s.auto_handshake = true);
            }
        }
    }
    c.max("requests_while_receiving_failed", counted as i64);
    if counted > 100 {
        c.violation("fault:flood", format!("connect() sent {counted} requests within one second while receiving failed"), w.clone());
    }
    match conn.await {
        Ok(Some(Ok(s))) => {
            let m = Key::new(0, 1, ORDERED, 0, 100).bytes();
            if !p.msg(ORDERED, &m).await || within(10.0, s.recv()).await.and_then(|x| x.ok()) != Some(m) {
                c.violation("fault:connected", "the connection carries nothing", w);
            }
        }
        Ok(Some(Err(_))) => c.add("connect_errors", 1),
        x => c.violation("fault:connect-hang", format!("connect() gave {:?} in 40 s though receiving works again", x.map(|x| x.map(|x| x.is_ok()))), w),
    }
    c.case(format!("connecting_recv {k} {errno}").as_bytes(), true);
}

/// No socket can be made.
async fn no_sockets(c: C) {
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    for errno in [libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::EACCES] {
        let w = J::o(vec![("socket_fails_with", J::I(errno as i64))]);
        let f = Faulty::new(Fault { call: Call::Socket, port: 0, to: 0, p: 1.0, errno });
        let x = within(8.0, RaknetSocket::connect(&la)).await;
        let y = within(8.0, RaknetSocket::ping(&la)).await;
        let z = within(8.0, RaknetListener::bind(&"127.0.0.1:0".parse().unwrap())).await;
        drop(f);
        if !matches!(x, Some(Err(_))) || !matches!(y, Some(Err(_))) || !matches!(z, Some(Err(_))) {
            c.violation("fault:socket", format!("without sockets connect() gave {:?}, ping() {y:?}, bind() {:?}", x.map(|x| x.is_ok()), z.map(|x| x.is_ok())), w.clone());
        }
        serves(&c, &mut l, &w, "after no socket could be made for a moment").await;
        c.case(format!("no_sockets {errno}").as_bytes(), true);
    }
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one connection, listener or connect() with the calls that were made to fail");
    no_sockets(c.clone()).await;
    let mut set = tokio::task::JoinSet::new();
    for k in 0..c.q(12, 160) {
        while set.len() >= 24 {
            set.join_next().await;
        }
        set.spawn(sends(c.clone(), k));
        set.spawn(connecting(c.clone(), k));
        set.spawn(listener_recv(c.clone(), k));
        set.spawn(client_recv(c.clone(), k));
        if k % 3 == 0 {
            set.spawn(connecting_recv(c.clone(), k / 3));
            set.spawn(recverr(c.clone(), k));
        }
    }
    while set.join_next().await.is_some() {}
    for (i, n) in ["sends_failed", "receives_failed", "sockets_failed"].iter().enumerate() {
        c.add(n, FAULTS_HIT[i].load(std::sync::atomic::Ordering::Relaxed) as i64);
    }
    c.take_panics("fault");
}
