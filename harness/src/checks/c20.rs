//! C20 Concurrent use of one connection is safe.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
struct Plan {
    seed: u64,
    senders: usize,
    receivers: usize,
    flushers: usize,
    msgs: u32,
    cancel: bool,
    /// some send() calls are given up
    abandon: bool,
    close_race: bool,
    net: NetCfg,
}

type Log = Arc<Mutex<Vec<Vec<Vec<u8>>>>>;

struct End {
    s: Arc<RaknetSocket>,
    log: Log,
    ends: Arc<AtomicUsize>,
    n: Arc<AtomicUsize>,
    tasks: Vec<Task>,
}
fn end(s: RaknetSocket, p: &Plan) -> End {
    let s = Arc::new(s);
    let log: Log = Arc::new(Mutex::new(vec![vec![]; p.receivers]));
    let (ends, n) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let mut tasks = vec![];
    for k in 0..p.receivers {
        let (s, log, ends, n, cancel) = (s.clone(), log.clone(), ends.clone(), n.clone(), p.cancel);
        let mut r = Rng::derive(p.seed, 31, k as u64);
        tasks.push(spawn(async move {
            loop {
                let x = if cancel {
                    // gives up waiting again and again, as select! does
                    let us = Duration::from_micros(r.below(3000));
                    match tokio::time::timeout(us, s.recv()).await {
                        Ok(x) => x,
                        Err(_) => continue,
                    }
                } else {
                    s.recv().await
                };
                match x {
                    Ok(m) => {
                        log.lock().unwrap()[k].push(m);
                        n.fetch_add(1, SeqCst);
                    }
                    Err(_) => break,
                }
            }
            ends.fetch_add(1, SeqCst);
        }));
    }
    End { s, log, ends, n, tasks }
}

fn judge(c: &C, p: &Plan, dir: u8, sent: &[Vec<Key>], maybe: &[Key], log: &[Vec<Vec<u8>>], all: bool) {
    let w = |x: Vec<(&str, J)>| {
        let mut v = vec![("plan", J::s(format!("{p:?}"))), ("direction", J::I(dir as i64))];
        v.extend(x);
        J::o(v)
    };
    let mut count: HashMap<Key, u32> = HashMap::new();
    for l in log {
        let mut last: HashMap<u8, i64> = HashMap::new();
        for m in l {
            let Some(k) = Key::parse(m) else {
                return c.violation("concurrent:altered", format!("received bytes nobody sent: {}", hex(m)), w(vec![]));
            };
            *count.entry(k).or_insert(0) += 1;
            if k.rel == ORDERED {
                let e = last.entry(k.task).or_insert(-1);
                if k.idx as i64 <= *e {
                    return c.violation("concurrent:order", format!("a receiving task got ordered message {} of sending task {} after {e}", k.idx, k.task), w(vec![]));
                }
                *e = k.idx as i64;
            }
        }
    }
    // of a send() that was given up all or nothing arrives
    for k in maybe {
        let n = count.remove(k).unwrap_or(0);
        if n > 1 && is_reliable(k.rel) {
            return c.violation("concurrent:twice", format!("{k:?}, whose send() was given up, was received {n} times"), w(vec![]));
        }
        c.add("abandoned_sends_received", n as i64);
    }
    let mut missing = vec![];
    for k in sent.iter().flatten() {
        let n = count.remove(k).unwrap_or(0);
        let rel = is_reliable(k.rel);
        if n > 1 && rel {
            return c.violation("concurrent:twice", format!("{k:?} was received {n} times"), w(vec![]));
        }
        if n == 0 && matches!(k.rel, RELIABLE | ORDERED) && all {
            missing.push(*k);
        }
    }
    if let Some(k) = missing.first() {
        c.violation("concurrent:lost", format!("{} messages never received, first {k:?}", missing.len()), w(vec![("missing", J::A(missing.iter().take(10).map(|k| k.j()).collect()))]));
    }
    if all {
        if let Some(k) = count.keys().find(|k| is_reliable(k.rel)) {
            c.violation("concurrent:alien", format!("received {k:?}, whose send() had not succeeded"), w(vec![]));
        }
    }
}

async fn one(c: C, p: Plan) {
    let w = || J::s(format!("{p:?}"));
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), p.seed).await;
    let (a, b) = match lib_pair(Some(&px), &mut l).await {
        Ok(x) => x,
        Err(e) => return c.violation("concurrent:connect", e, w()),
    };
    px.set(p.net.clone());
    let ends = [end(a, &p), end(b, &p)];
    let sending = Arc::new(AtomicBool::new(true));
    let mut jobs = vec![];
    for dir in [C2S, S2C] {
        for t in 0..p.senders {
            let s = ends[dir as usize].s.clone();
            let mut r = Rng::derive(p.seed, dir as u64 + 1, t as u64);
            let p = p.clone();
            jobs.push((dir, tokio::spawn(async move {
                let mut sent = vec![];
                let mut maybe = vec![];
                let mut next = [0u32; 5];
                for _ in 0..p.msgs {
                    let rel = *r.pick(&[ORDERED, ORDERED, ORDERED, RELIABLE, RELIABLE, UNRELIABLE, REL_SEQ]);
                    let len = if rel == ORDERED && r.chance(0.15) { r.range(1300, 6000) } else { r.range(HDR as u64, 400) };
                    let mut k = Key::new(0, dir, rel, next[rel as usize], len as usize);
                    k.task = t as u8;
                    next[rel as usize] += 1;
                    let m = k.bytes();
                    if p.abandon && r.chance(0.25) {
                        match brief(s.send(&m, rel_of(rel)), r.below(6)).await {
                            Some(Ok(())) => sent.push(k),
                            Some(Err(e)) => return Err(format!("send() failed with {e:?}")),
                            None => maybe.push(k),
                        }
                        continue;
                    }
                    match within(60.0, s.send(&m, rel_of(rel))).await {
                        Some(Ok(())) => sent.push(k),
                        Some(Err(e)) => return Err(format!("send() failed with {e:?}")),
                        None => return Err("send() hangs".into()),
                    }
                    if r.chance(0.1) {
                        tokio::time::sleep(Duration::from_micros(r.below(4000))).await;
                    }
                }
                Ok((sent, maybe))
            })));
        }
    }
    let mut aux = vec![];
    for (i, e) in ends.iter().enumerate() {
        for f in 0..p.flushers {
            let (s, go) = (e.s.clone(), sending.clone());
            let mut r = Rng::derive(p.seed, 77 + i as u64, f as u64);
            aux.push(tokio::spawn(async move {
                while go.load(SeqCst) {
                    if r.chance(0.3) {
                        let _ = tokio::time::timeout(Duration::from_micros(r.below(20000)), s.flush()).await;
                    } else {
                        match within(90.0, s.flush()).await {
                            Some(Ok(())) => {}
                            Some(Err(e)) => return Err(format!("flush() failed with {e:?}")),
                            None => return Err("flush() hangs".into()),
                        }
                    }
                    let _ = (s.peer_addr(), s.local_addr(), s.raknet_version());
                    tokio::time::sleep(Duration::from_micros(r.below(5000))).await;
                }
                Ok(())
            }));
        }
    }
    let mut sent: [Vec<Vec<Key>>; 2] = Default::default();
    let mut maybe: [Vec<Key>; 2] = Default::default();
    for (dir, j) in jobs {
        match j.await {
            Ok(Ok((s, m))) => {
                c.add("abandoned_sends", m.len() as i64);
                sent[dir as usize].push(s);
                maybe[dir as usize].extend(m);
            }
            Ok(Err(e)) => return c.violation("concurrent:send", e, w()),
            Err(_) => return c.violation("concurrent:panic", "a task calling send() panicked", w()),
        }
    }
    px.clean();
    for dir in 0..2 {
        let want = sent[dir].iter().flatten().filter(|k| matches!(k.rel, RELIABLE | ORDERED)).count();
        let log = &ends[1 - dir].log;
        let skip: std::collections::HashSet<Key> = maybe[dir].iter().copied().collect();
        let got = || log.lock().unwrap().iter().flatten().filter(|m| matches!(m[3], RELIABLE | ORDERED) && Key::parse(m).map_or(true, |k| !skip.contains(&k))).count();
        wait_until(60.0, || got() >= want).await;
    }
    lsleep(0.15).await;
    for dir in 0..2 {
        judge(&c, &p, dir as u8, &sent[dir], &maybe[dir], &ends[1 - dir].log.lock().unwrap(), true);
        c.add("messages_sent", sent[dir].iter().map(|x| x.len()).sum::<usize>() as i64);
        c.add("messages_received", ends[1 - dir].n.load(SeqCst) as i64);
    }
    sending.store(false, SeqCst);
    for j in aux {
        match j.await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return c.violation("concurrent:flush", e, w()),
            Err(_) => return c.violation("concurrent:panic", "a task calling flush() panicked", w()),
        }
    }
    // everything at once: send, flush, close from many tasks at both ends
    let mut jobs = vec![];
    let mut r = Rng::derive(p.seed, 9, 9);
    for (i, e) in ends.iter().enumerate() {
        for t in 0..p.senders + 2 {
            let s = e.s.clone();
            let kind = if p.close_race { r.below(4) } else { 3 };
            let us = r.below(4000);
            jobs.push(tokio::spawn(async move {
                tokio::time::sleep(Duration::from_micros(us)).await;
                for n in 0..20u32 {
                    let hung = match kind {
                        0 => {
                            let mut k = Key::new(9, i as u8, ORDERED, n, 3000);
                            k.task = t as u8;
                            let r = within(20.0, s.send(&k.bytes(), Reliability::ReliableOrdered)).await;
                            if let Some(Err(e)) = &r {
                                if !matches!(e, error::RaknetError::ConnectionClosed) {
                                    return Some(format!("send() racing with close() failed with {e:?}"));
                                }
                            }
                            r.is_none().then_some("send")
                        }
                        1 => {
                            let r = within(40.0, s.flush()).await;
                            if let Some(Err(e)) = &r {
                                if !matches!(e, error::RaknetError::ConnectionClosed) {
                                    return Some(format!("flush() racing with close() failed with {e:?}"));
                                }
                            }
                            r.is_none().then_some("flush")
                        }
                        _ => {
                            if n > 2 {
                                return None;
                            }
                            if us % 3 == 0 {
                                let _ = brief(s.close(), us % 4).await;
                            }
                            match within(20.0, s.close()).await {
                                Some(Ok(())) => None,
                                Some(Err(e)) => return Some(format!("close() failed with {e:?}")),
                                None => Some("close"),
                            }
                        }
                    };
                    if let Some(h) = hung {
                        return Some(format!("{h}() hangs when many tasks send, flush and close"));
                    }
                }
                None
            }));
        }
    }
    // one close is certain
    let s = ends[0].s.clone();
    jobs.push(tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(3)).await;
        within(20.0, s.close()).await.is_none().then(|| "close() hangs".to_string())
    }));
    for j in jobs {
        match j.await {
            Ok(None) => {}
            Ok(Some(e)) => c.violation("concurrent:close-race", e, w()),
            Err(_) => c.violation("concurrent:panic", "a task panicked in send(), flush() or close() of one connection", w()),
        }
    }
    for e in &ends {
        if !wait_until(15.0, || e.ends.load(SeqCst) == p.receivers).await {
            c.violation("concurrent:recv-hang", format!("only {} of {} concurrent recv() calls ended after the connection was closed", e.ends.load(SeqCst), p.receivers), w());
        }
    }
    let polls: usize = ends.iter().map(|e| e.tasks.len()).sum();
    c.add("receiving_tasks", polls as i64);
    c.case(format!("{p:?} {:?}", px.stats()).as_bytes(), true);
    if within(15.0, l.close()).await.is_none() {
        c.violation("concurrent:listener-close", "RaknetListener::close() hangs after concurrent use", w());
    }
}

/// Many listeners and connections set up and torn down at the same time.
async fn churn(c: C, seed: u64, rounds: u64) {
    let mut r = Rng::new(seed);
    for i in 0..rounds {
        let Some(x) = within(20.0, RaknetListener::bind(&"127.0.0.1:0".parse().unwrap())).await else {
            return c.violation("concurrent:bind-hang", "RaknetListener::bind() hangs", J::I(seed as i64));
        };
        let Ok(mut l) = x else { return c.violation("concurrent:bind", "RaknetListener::bind() failed", J::I(seed as i64)) };
        if within(20.0, l.listen()).await.is_none() {
            return c.violation("concurrent:listen-hang", "listen() hangs", J::I(seed as i64));
        }
        let to = l.local_addr().unwrap();
        let n = r.range(1, 4);
        let mut cs = vec![];
        for _ in 0..n {
            cs.push(tokio::spawn(async move { within(30.0, RaknetSocket::connect(&to)).await }));
        }
        let mut acc = vec![];
        while (acc.len() as u64) < n {
            if r.chance(0.5) {
                // accept() given up at some moment takes no connection along
                if let Some(Ok(s)) = brief(l.accept(), r.below(8)).await {
                    acc.push(s);
                }
                c.add("abandoned_accepts", 1);
                continue;
            }
            match within(30.0, l.accept()).await {
                Some(Ok(s)) => acc.push(s),
                x => return c.violation("concurrent:accept", format!("accept() during churn: {:?}", x.map(|x| x.is_ok())), J::I(seed as i64)),
            }
        }
        let mut cl = vec![];
        for h in cs {
            match h.await {
                Ok(Some(Ok(s))) => cl.push(s),
                Ok(x) => return c.violation("concurrent:connect-hang", format!("connect() during churn: {:?}", x.map(|x| x.err())), J::I(seed as i64)),
                Err(_) => return c.violation("concurrent:panic", "connect() panicked", J::I(seed as i64)),
            }
        }
        c.add("churned_connections", n as i64);
        c.case(format!("churn {seed} {i}").as_bytes(), true);
        match r.below(3) {
            0 => drop(acc),
            1 => drop(cl),
            _ => {
                for s in &cl {
                    let _ = within(5.0, s.close()).await;
                }
            }
        }
        if r.chance(0.7) && within(20.0, l.close()).await.is_none() {
            return c.violation("concurrent:listener-close", "RaknetListener::close() hangs during churn", J::I(seed as i64));
        }
    }
}

/// A connection closes, from either end or by itself, while messages of many frames are being sent.
async fn sending_close(c: C, k: u64) {
    let mut r = Rng::derive(c.seed, 0x205e, k);
    let mut l = listener().await;
    for round in 0..6u32 {
        let Ok((a, b)) = lib_pair(None, &mut l).await else {
            return c.violation("concurrent:connect", "no connection", J::I(k as i64));
        };
        let (a, b) = (App::new(a), App::new(b));
        let mut set = tokio::task::JoinSet::new();
        for (i, s) in [&a.s, &b.s, &a.s].into_iter().enumerate() {
            let (s, n) = (s.clone(), r.range(20_000, 300_000) as usize);
            set.spawn(async move {
                for j in 0..20 {
                    match s.send(&Key::new(0, i as u8, ORDERED, j, n).bytes(), Reliability::ReliableOrdered).await {
                        Ok(()) => {}
                        Err(e) => return Some(e),
                    }
                    tokio::task::yield_now().await;
                }
                None
            });
        }
        tokio::time::sleep(std::time::Duration::from_micros(r.below(6000))).await;
        let how = r.below(3);
        let w = J::o(vec![("round", J::I(round as i64)), ("workload", J::I(k as i64)), ("closed", J::s(["at the client", "at the server", "at both"][how as usize]))]);
        for s in [(&a.s, how != 1), (&b.s, how != 0)].into_iter().filter(|x| x.1).map(|x| x.0) {
            if !matches!(within(10.0, s.close()).await, Some(Ok(()))) {
                return c.violation("concurrent:close", "close() during sends does not return Ok", w);
            }
        }
        let all = within(20.0, async {
            let mut v = vec![];
            while let Some(x) = set.join_next().await {
                v.push(x);
            }
            v
        })
        .await;
        match all {
            None => return c.violation("concurrent:hang", "send() still waits 20 s after the connection closed", w),
            Some(v) => {
                for x in v {
                    match x {
                        Ok(None) | Ok(Some(error::RaknetError::ConnectionClosed)) => {}
                        x => return c.violation("concurrent:send-error", format!("send() on a connection that closes: {x:?}"), w),
                    }
                }
            }
        }
        c.add("closes_amid_sends", 1);
    }
    c.case(format!("sending_close {k}").as_bytes(), true);
    let _ = within(15.0, l.close()).await;
}

/// Listeners made and dropped one after the other, by several tasks at once.
async fn bind_storm(c: C, n: u64) {
    for i in 0..n {
        match within(20.0, RaknetListener::bind(&"127.0.0.1:0".parse().unwrap())).await {
            Some(Ok(l)) => drop(l),
            Some(Err(e)) => return c.violation("concurrent:bind", format!("RaknetListener::bind() failed: {e:?}"), J::I(i as i64)),
            None => return c.violation("concurrent:bind-hang", "RaknetListener::bind() hangs", J::I(i as i64)),
        }
    }
    c.add("listeners_bound", n as i64);
}

pub async fn run(c: C) {
    c.rule("one case = one concurrent workload on one connection with its network log, or one bind/connect/accept/close round");
    let mut burn = None;
    let mut set: tokio::task::JoinSet<()> = tokio::task::JoinSet::new();
    for (round, (p, us)) in [(0.0, 0), (0.05, 600), (0.01, 5000), (0.0, 0)].into_iter().enumerate() {
        set_chaos(p, us);
        if round == 3 {
            // threads of others take the processors away at any instruction
            burn = Some(Preempt::new(24, c.seed));
        }
        let mut set = tokio::task::JoinSet::new();
        for k in 0..c.q(14, 180) {
            let mut r = Rng::derive(c.seed, 0x2020 + round as u64, k);
            while set.len() >= 6 {
                set.join_next().await;
            }
            if c.failed() {
                break;
            }
            let plan = Plan {
                seed: r.next(),
                senders: r.range(2, 7) as usize,
                receivers: r.range(1, 4) as usize,
                flushers: r.below(3) as usize,
                msgs: r.range(10, 50) as u32,
                cancel: r.chance(0.5),
                abandon: r.chance(0.4),
                close_race: r.chance(0.7),
                net: if r.chance(0.4) { NetCfg { drop: 0.05, dup: 0.05, delay: 0.2, max_delay_ms: 20, ..NetCfg::clean() } } else { NetCfg::clean() },
            };
            set.spawn(one(c.clone(), plan));
            set.spawn(sending_close(c.clone(), k + 1000 * round as u64));
            set.spawn(churn(c.clone(), r.next(), 6));
        }
        while set.join_next().await.is_some() {}
    }
    set_chaos(0.0, 0);
    for _ in 0..6 {
        set.spawn(bind_storm(c.clone(), c.q(30_000, 300_000)));
    }
    while set.join_next().await.is_some() {}
    drop(burn);
    c.take_panics("concurrent");
    c.add("task_polls", POLLS.load(Relaxed) as i64);
    c.add("injected_pauses", CHAOS_HITS.load(Relaxed) as i64);
}
