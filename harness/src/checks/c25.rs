//! C25 Steps of the wall clock do not disturb connections.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Arc;
use std::time::Duration;

const S: i64 = 1000;
const H: i64 = 3600 * S;
const D: i64 = 24 * H;

/// Moves the clock by `ms`, within a range every clock can show.
fn step(ms: i64) {
    set_clock_offset((clock_offset() + ms).clamp(-20_000 * D, 20_000 * D));
}

fn side_name(client_side: bool) -> J {
    J::s(if client_side { "client" } else { "server" })
}

/// The clock is stepped while a frame is unacknowledged: it goes on being sent, at the usual pace,
/// the connection lives, and what is sent later arrives.
async fn pending(c: C, client_side: bool, by: i64, l: &mut RaknetListener) {
    let w = J::o(vec![("library_is", side_name(client_side)), ("clock_step_ms", J::I(by))]);
    let x = if client_side { raw_server(1400).await } else { raw_client(l, 10, 1400).await };
    let (p, s) = match x {
        Ok(x) => x,
        Err(e) => return c.violation("clock:connect", format!("no connection: {e}"), w),
    };
    let app = App::new(s);
    let _ = within(10.0, app.s.flush()).await;
    let times = |p: &Peer, m: &[u8]| p.with(|s| s.frames.iter().filter(|f| f.2.data == *m).map(|f| (f.0, f.1)).collect::<Vec<_>>());
    for round in 0..2u32 {
        p.with(|s| s.auto_ack = false);
        let m = Key::new(0, 1, RELIABLE, round, 60).bytes();
        if within(5.0, app.s.send(&m, Reliability::Reliable)).await.map(|r| r.is_ok()) != Some(true) {
            return c.violation("clock:send", "send() fails after a step of the clock", w);
        }
        wait_until(5.0, || !times(&p, &m).is_empty()).await;
        if round == 0 {
            step(by);
        }
        // 50 ms at first, then half as much again each time
        let ok = wait_until(4.0, || times(&p, &m).len() >= 4).await;
        let v = times(&p, &m);
        c.add("transmissions_across_a_step", v.len() as i64);
        if !ok {
            return c.violation(
                "clock:resend",
                format!("an unacknowledged frame was sent {} times in 4 s, round {round} after a step of the clock; at least 4 were due in half a second", v.len()),
                w,
            );
        }
        if v.len() > 40 {
            return c.violation("clock:flood", format!("an unacknowledged frame was sent {} times in 4 s after a step of the clock", v.len()), w);
        }
        p.with(|s| s.auto_ack = true);
        for x in times(&p, &m) {
            p.raw(&enc_ack(ACK, &[(x.1, x.1)])).await;
        }
        if within(5.0, app.s.flush()).await.map(|r| r.is_ok()) != Some(true) {
            return c.violation("clock:flush", "flush() does not return after a step of the clock", w);
        }
        // the round trip that spans the step must not count
        let u = Key::new(0, 0, ORDERED, round, 60).bytes();
        if !p.msg(ORDERED, &u).await || !app.expect(&u, 5.0).await || app.ended().is_some() {
            return c.violation("clock:lost", format!("a message does not arrive after a step of the clock, connection ended: {:?}", app.ended()), w);
        }
    }
    c.case(format!("pending {client_side} {by}").as_bytes(), true);
    let _ = within(5.0, app.s.close()).await;
}

/// The clock is stepped while ping() waits: the latency is the real one.
async fn ping(c: C, by: i64, delay: u64) {
    let w = J::o(vec![("clock_step_ms", J::I(by)), ("pong_after_ms", J::I(delay as i64))]);
    let p = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let to = p.local_addr().unwrap();
    let h = tokio::spawn(async move {
        let mut buf = [0u8; 2048];
        loop {
            let Ok((n, from)) = p.recv_from(&mut buf).await else { return };
            if n < 9 || buf[0] != 1 {
                continue;
            }
            tokio::time::sleep(Duration::from_millis(delay / 2)).await;
            step(by);
            tokio::time::sleep(Duration::from_millis(delay - delay / 2)).await;
            let mut v = vec![0x1c];
            v.extend_from_slice(&buf[1..9]);
            v.extend_from_slice(&7u64.to_be_bytes());
            v.extend_from_slice(&MAGIC);
            v.extend_from_slice(&[0, 2, b'h', b'i']);
            let _ = p.send_to(&v, from).await;
        }
    });
    let t0 = std::time::Instant::now();
    let x = within(20.0, RaknetSocket::ping(&to)).await;
    let took = t0.elapsed().as_millis() as i64;
    h.abort();
    match x {
        Some(Ok((lat, m))) => {
            if m != "hi" || lat < delay as i64 - 3 || lat > took + 3 {
                c.violation("clock:latency", format!("ping() returned {lat} ms and {m:?}; the pong came after {delay} ms and the call took {took} ms"), w);
            }
        }
        x => c.violation("clock:ping", format!("ping() across a step of the clock: {x:?}"), w),
    }
    c.add("pings_across_a_step", 1);
    c.case(format!("ping {by} {delay}").as_bytes(), true);
}

/// The peer falls silent: noticed after the usual time, whatever the clock does meanwhile.
async fn dead(c: C, client_side: bool) {
    let w = J::o(vec![("library_is", side_name(client_side))]);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match x {
        Ok(x) => x,
        Err(e) => return c.violation("clock:connect", format!("no connection: {e}"), w),
    };
    let app = App::new(s);
    lsleep(0.5).await;
    p.with(|s| s.auto_ack = false);
    let m = Key::new(0, 0, ORDERED, 0, 40).bytes();
    p.msg(ORDERED, &m).await;
    let t0 = now_ms();
    wait_until(76.0, || app.ended().is_some()).await;
    match app.ended() {
        None => c.violation("clock:never", format!("a peer silent for {:.0} s was not noticed", (now_ms() - t0) / 1000.0), w),
        Some((at, e)) => {
            let secs = (at - t0) / 1000.0;
            c.max("latest_timeout_ms", (secs * 1000.0) as i64);
            c.max("earliest_timeout_ms_negated", -(secs * 1000.0) as i64);
            if secs < 57.0 {
                c.violation("clock:early", format!("the connection was closed {secs:.1} s after the peer's last datagram ({e})"), w);
            }
        }
    }
    c.case(format!("dead {client_side}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// Idle but for the pings of its peer.
async fn idle(c: C, client_side: bool, stop: Arc<AtomicBool>) {
    let w = J::o(vec![("library_is", side_name(client_side))]);
    let mut l = listener().await;
    let x = if client_side { raw_server(1400).await } else { raw_client(&mut l, 10, 1400).await };
    let (p, s) = match x {
        Ok(x) => x,
        Err(e) => return c.violation("clock:connect", format!("no connection: {e}"), w),
    };
    let app = App::new(s);
    let mut i = 0;
    while !stop.load(Relaxed) {
        let f = p.frame(UNRELIABLE, &enc_conn_ping(i));
        p.send(&[f]).await;
        i += 1;
        lsleep(2.0).await;
        if let Some((at, e)) = app.ended() {
            return c.violation("clock:closed", format!("a connection whose peer sends every 2 s was closed at {at:.0} ms ({e}); the clock was {} ms off", clock_offset()), w);
        }
    }
    let m = Key::new(0, 0, ORDERED, 0, 40).bytes();
    if !p.msg(ORDERED, &m).await || !app.expect(&m, 5.0).await {
        c.violation("clock:lost", "a message does not arrive after many steps of the clock", w);
    }
    c.add("pings_of_idle_peers", i);
    c.case(format!("idle {client_side}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one clock step with frames or a ping in flight, one silent or idle peer under steps, or one workload under steps (distinct by the observed datagram history)");
    let stop = Arc::new(AtomicBool::new(false));
    let mut bg = tokio::task::JoinSet::new();
    for side in [false, true] {
        bg.spawn(dead(c.clone(), side));
        bg.spawn(idle(c.clone(), side, stop.clone()));
    }
    // one step at a time
    let steps = [59 * S, 61 * S, -61 * S, 2 * S, -2 * S, 200, -200, -H, H, D, -D, 365 * D, -365 * D, -5 * S, 13 * S, 30 * D];
    {
        // connections that are older than every step
        let mut l = listener().await;
        let Ok((a, b)) = lib_pair(None, &mut l).await else {
            return c.violation("clock:connect", "no connection", J::s("step"));
        };
        let (a, b) = (App::new(a), App::new(b));
        for (i, by) in steps.iter().enumerate() {
            let mut lx = listener().await;
            pending(c.clone(), i % 2 == 0, *by, &mut lx).await;
            pending(c.clone(), i % 2 == 1, -*by, &mut lx).await;
            ping(c.clone(), *by, [40, 300][i % 2]).await;
            let _ = within(15.0, lx.close()).await;
            for (x, y, d) in [(&a, &b, 0), (&b, &a, 1)] {
                let m = Key::new(0, d, ORDERED, i as u32, 3000).bytes();
                let r = within(5.0, x.s.send(&m, Reliability::ReliableOrdered)).await.map(|r| r.is_ok());
                if r != Some(true) || !y.expect(&m, 6.0).await {
                    return c.violation(
                        "clock:lost",
                        format!("send() {r:?}; a message between two libraries does not arrive after steps of the clock; ended {:?} {:?}", a.ended(), b.ended()),
                        J::o(vec![("clock_step_ms", J::I(*by))]),
                    );
                }
            }
            if c.failed() {
                break;
            }
        }
        let _ = within(15.0, l.close()).await;
    }
    // steps at random while messages flow through a faulty network and connections come and go
    let go = stop.clone();
    let c2 = c.clone();
    let stepper = tokio::spawn(async move {
        let mut r = Rng::derive(c2.seed, 0x25c1, 0);
        while !go.load(Relaxed) {
            let n = r.range(20, 700);
            tokio::time::sleep(Duration::from_millis(n)).await;
            let by = *r.pick(&[100, S, 3 * S, 61 * S, 70 * S, H, D, 400 * D]);
            let by = by + r.below(by as u64 / 2) as i64;
            step(if clock_offset() > 1000 * D || r.chance(0.5) && clock_offset() > -1000 * D { -by } else { by });
            c2.add("clock_steps", 1);
        }
    });
    if !c.failed() {
        set_chaos(0.01, 300);
        let all = [ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ, UNREL_SEQ];
        let f = |c: &Ctx, o: &PairOut| {
            for (i, d) in o.dirs.iter().enumerate() {
                for j in 0..2 {
                    oracle_ordered(c, &d[j].sent, &d[j].got, o.complete, w_cfg(o, i, j));
                }
            }
        };
        tokio::join!(pairs(&c, c.q(40, 600), 20, &all, f), pairs_of(&c, hard_cfgs(&c, &all), 20, f));
        set_chaos(0.0, 0);
    }
    // the silent peers take longest
    while bg.len() > 2 {
        bg.join_next().await;
    }
    stop.store(true, Relaxed);
    while bg.join_next().await.is_some() {}
    let _ = stepper.await;
    set_clock_offset(0);
    c.add("wall_clock_reads_in_the_process", clock_reads() as i64);
}
