//! C31 A guest of any Tokio runtime: single-threaded ones, other runtimes' handles, no occupied
//! threads, and runtimes which are shut down under their connections.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::future::Future;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

const ALL: [u8; 6] = [ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ, UNREL_SEQ];

/// Nanoseconds this thread waited for a processor, so far.
fn queued_ns() -> u64 {
    let t = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    t.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// A runtime on a thread of its own. Its longest stall is the longest time a task that wants to run
/// every other millisecond had to wait, less what the thread itself waited for a processor.
struct Guest {
    h: tokio::runtime::Handle,
    stop: Arc<tokio::sync::Notify>,
    stall_us: Arc<AtomicU64>,
    done: Arc<AtomicBool>,
    threads: usize,
}
/// How a runtime ends.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Drop,
    Background,
    Timeout,
}
impl Guest {
    fn new(threads: usize, end: End) -> Guest {
        let rt = match threads {
            0 => tokio::runtime::Builder::new_current_thread().enable_all().build(),
            n => tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build(),
        }
        .expect("runtime");
        let h = rt.handle().clone();
        let stop = Arc::new(tokio::sync::Notify::new());
        let stall_us = Arc::new(AtomicU64::new(0));
        let done = Arc::new(AtomicBool::new(false));
        let (s2, st2, d2) = (stop.clone(), stall_us.clone(), done.clone());
        std::thread::Builder::new()
            .name("guest".into())
            .spawn(move || {
                rt.block_on(async move {
                    if threads > 0 {
                        return s2.notified().await;
                    }
                    let watch = async {
                        let (mut t0, mut q0) = (Instant::now(), queued_ns());
                        loop {
                            tokio::time::sleep(Duration::from_millis(2)).await;
                            let (t, q) = (Instant::now(), queued_ns());
                            let gap = (t - t0).as_micros() as u64;
                            st2.fetch_max(gap.saturating_sub((q - q0) / 1000), SeqCst);
                            (t0, q0) = (t, q);
                        }
                    };
                    tokio::select! {
                        _ = s2.notified() => {}
                        _ = watch => {}
                    }
                });
                match end {
                    End::Drop => drop(rt),
                    End::Background => rt.shutdown_background(),
                    End::Timeout => rt.shutdown_timeout(Duration::from_secs(30)),
                }
                d2.store(true, SeqCst);
            })
            .expect("thread");
        Guest { h, stop, stall_us, done, threads }
    }
    /// Runs `f` on this runtime; None when it was shut down, or after much too long.
    async fn run<T: Send + 'static>(&self, f: impl Future<Output = T> + Send + 'static) -> Option<T> {
        within(300.0, self.h.spawn(f)).await.and_then(|r| r.ok())
    }
    fn stall_ms(&self) -> u64 {
        self.stall_us.swap(0, SeqCst) / 1000
    }
    fn kill(&self) {
        self.stop.notify_one();
    }
    async fn ended(&self) -> bool {
        wait_until(15.0, || self.done.load(SeqCst)).await
    }
}
impl Drop for Guest {
    fn drop(&mut self) {
        self.kill();
    }
}

const STALL_MS: u64 = 300;
fn judge_stall(c: &C, g: &Guest, what: &str) {
    let ms = g.stall_ms();
    c.max("longest_stall_of_a_single_thread_ms", ms as i64);
    if ms > STALL_MS {
        c.violation("runtime:stall", format!("other tasks of a single-threaded runtime did not run for {ms} ms during {what}"), J::s(what));
    }
}

fn lib_panicked(c: &C, what: &str) {
    if let Some(p) = lib_panic_records().first() {
        c.violation("runtime:panic", format!("a panic at {} ({}), {what}", p.at, p.msg), J::s(what));
    }
}

/// The usual histories with everything on one runtime.
async fn histories(c: C, threads: usize, n: u64, seed: u64) {
    let g = Guest::new(threads, End::Drop);
    let c2 = c.clone();
    let f = move |c: &Ctx, o: &PairOut| {
        for (i, d) in o.dirs.iter().enumerate() {
            for j in 0..2 {
                let w = || w_cfg(o, i, j);
                oracle_ordered(c, &d[j].sent, &d[j].got, o.complete, w());
            }
        }
    };
    let x = g
        .run(async move {
            let cfgs = (0..n)
                .map(|k| {
                    let mut x = pair_cfg(seed, 700 + k, &ALL);
                    x.msgs = x.msgs.min(60);
                    x
                })
                .collect();
            pairs_of(&c2, cfgs, 4, f).await
        })
        .await;
    if x.is_none() && !c.failed() {
        c.violation("runtime:hang", format!("histories did not finish on a runtime of {threads} workers"), J::I(threads as i64));
    }
    c.add("histories_on_other_runtimes", n as i64);
    lib_panicked(&c, "on a runtime of its own");
    g.kill();
    if !g.ended().await {
        c.violation("runtime:shutdown", "a runtime could not be shut down after its connections had ended", J::I(threads as i64));
    }
}

/// Hostile datagrams and much data for a library that has only one thread.
async fn stalls(c: C, client_side: bool, from: usize, step: usize) {
    let mut r = Rng::derive(c.seed, 0x3101, client_side as u64);
    let fams = super::c12::families(&mut r, false);
    let g = Guest::new(0, End::Drop);
    let Some(mut l) = g.run(listener()).await else { return c.inconclusive("no listener") };
    for (name, list) in fams.into_iter().skip(from).step_by(step) {
        if c.failed() {
            return;
        }
        for b in list.chunks(400) {
            let made = if client_side {
                let p = Peer::new(Role::Server).await;
                let a = p.addr;
                match g.run(async move { within(20.0, RaknetSocket::connect(&a)).await }).await {
                    Some(Some(Ok(s))) => Ok((p, s)),
                    _ => Err("connect() failed".into()),
                }
            } else {
                raw_client(&mut l, 10, 1400).await
            };
            let (p, s) = match made {
                Ok(x) => x,
                Err(e) => return c.violation("runtime:connect", e, J::s(name)),
            };
            // something to acknowledge and to repeat
            let s = Arc::new(s);
            p.with(|s| {
                s.auto_ack = false;
                s.keep_log = false;
            });
            let mut big = vec![7u8; 300 * 1340];
            big[0] = 0xfe;
            let _ = within(20.0, s.send(&big, Reliability::ReliableOrdered)).await;
            for (k, d) in b.iter().enumerate() {
                p.raw(d).await;
                if k % 20 == 19 {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
            lsleep(0.1).await;
            c.case(format!("stall {name} {client_side}").as_bytes(), true);
            c.add("hostile_datagrams_at_a_single_thread", b.len() as i64);
            judge_stall(&c, &g, &format!("hostile datagrams: {name}"));
            let _ = within(3.0, s.close()).await;
        }
    }
    lib_panicked(&c, "after hostile datagrams");
}

/// Much data, many connections and strangers for a library that has only one thread.
async fn load(c: C, seed: u64) {
    let g = Guest::new(0, End::Drop);
    let Some(mut l) = g.run(listener()).await else { return c.inconclusive("no listener") };
    let la = l.local_addr().unwrap();
    let mut r = Rng::new(seed);
    let mut ends = vec![];
    for _ in 0..6 {
        let (a, b) = tokio::join!(within(20.0, RaknetSocket::connect(&la)), within(20.0, l.accept()));
        let (Some(Ok(a)), Some(Ok(b))) = (a, b) else {
            return c.violation("runtime:connect", "no connection to a listener on a single-threaded runtime", J::I(seed as i64));
        };
        ends.push((App::new(a), App::new(b)));
    }
    let mut sent = vec![];
    for i in 0..60u32 {
        let k = r.below(ends.len() as u64) as usize;
        let to_guest = r.chance(0.5);
        let n = if r.chance(0.2) { r.range(50_000, 600_000) } else { r.range(30, 2000) } as usize;
        let m = Key::new(k, to_guest as u8, ORDERED, i, n).bytes();
        let (x, y) = &ends[k];
        let (x, _) = if to_guest { (x, y) } else { (y, x) };
        if !matches!(within(20.0, x.s.send(&m, Reliability::ReliableOrdered)).await, Some(Ok(()))) {
            c.violation("runtime:send", "send() failed", J::I(seed as i64));
        }
        sent.push((k, to_guest, m));
    }
    let q = Peer::new(Role::Mute).await;
    q.with(|s| {
        s.to = Some(la);
        s.keep_log = false;
    });
    for i in 0..3000 {
        q.raw(&if i % 2 == 0 { enc_ping(1, i, 1) } else { enc_req1(10, 1400) }).await;
        if i % 50 == 0 {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    let all = |d: bool, k: usize| {
        let s = if d { &ends[k].1 } else { &ends[k].0 };
        let want = sent.iter().filter(|x| x.0 == k && x.1 == d).map(|x| &x.2);
        s.got().iter().eq(want)
    };
    if !wait_until(90.0, || (0..6).all(|k| all(false, k) && all(true, k))).await {
        c.violation("runtime:history", "ordered messages between two runtimes are missing or out of order", J::I(seed as i64));
    }
    c.case(format!("load {seed}").as_bytes(), true);
    c.add("messages_between_runtimes", 60);
    judge_stall(&c, &g, "much data on six connections and strangers at the listener");
    for (a, _) in &ends {
        let _ = within(8.0, a.s.close()).await;
    }
    if !wait_until(15.0, || ends.iter().all(|x| x.1.ended().is_some())).await {
        c.violation("runtime:close", "close() is not noticed on a single-threaded runtime", J::I(seed as i64));
    }
    drop(ends);
    // on its own runtime or another one
    let x = if seed % 2 == 0 { g.run(async move { within(15.0, l.close()).await }).await.flatten() } else { within(15.0, l.close()).await };
    if !matches!(x, Some(Ok(()))) {
        c.violation("runtime:listener-close", "RaknetListener::close() of a listener on a single-threaded runtime did not return", J::I(seed as i64));
    }
    judge_stall(&c, &g, "closing six connections and their listener");
    lib_panicked(&c, "under load on one thread");
}

/// A runtime that is shut down under its connections, with handles that outlive it.
async fn shutdown(c: C, seed: u64) {
    let mut r = Rng::new(seed);
    let threads = *r.pick(&[0, 0, 1, 3]);
    let end = *r.pick(&[End::Drop, End::Background, End::Timeout]);
    let leftover = r.chance(0.7);
    let what = format!("runtime of {threads} workers ended by {end:?}, handles {}", if leftover { "outlive it" } else { "dropped before" });
    let w = J::o(vec![("seed", J::I(seed as i64)), ("what", J::s(what.clone()))]);
    let g = Guest::new(threads, end);
    let at = own_addr();
    let Some(mut l) = g.run(listener_at_owned(at)).await else { return c.inconclusive("no listener") };
    let la = l.local_addr().unwrap();
    let mut outer: Vec<Arc<RaknetSocket>> = vec![];
    let mut inner: Vec<Arc<RaknetSocket>> = vec![];
    for _ in 0..r.range(1, 4) {
        let here = r.chance(0.5);
        let con = async {
            if here {
                within(20.0, RaknetSocket::connect(&la)).await
            } else {
                g.run(async move { within(20.0, RaknetSocket::connect(&la)).await }).await.flatten()
            }
        };
        let (a, b) = tokio::join!(con, within(20.0, l.accept()));
        let (Some(Ok(a)), Some(Ok(b))) = (a, b) else {
            return c.violation("runtime:connect", format!("no connection, {what}"), w);
        };
        if here { &mut outer } else { &mut inner }.push(Arc::new(a));
        inner.push(Arc::new(b));
    }
    // traffic from both runtimes, reads pending on both
    let mut tasks = vec![];
    for (i, s) in outer.iter().chain(&inner).cloned().enumerate() {
        let s2 = s.clone();
        let send = async move {
            for k in 0..10_000u32 {
                let n = if k % 7 == 0 { 5000 } else { 60 };
                if s.send(&Key::new(i, 0, ORDERED, k, n).bytes(), Reliability::ReliableOrdered).await.is_err() {
                    break;
                }
                if k % 5 == 4 {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
                if k % 40 == 39 {
                    let _ = s.flush().await;
                }
            }
        };
        let recv = async move { while s2.recv().await.is_ok() {} };
        if i % 2 == 0 {
            tasks.push(tokio::spawn(send));
            tasks.push(g.h.spawn(recv));
        } else {
            tasks.push(g.h.spawn(send));
            tasks.push(tokio::spawn(recv));
        }
    }
    let connecting = g.h.spawn(async move {
        let _ = RaknetSocket::connect(&"127.0.0.1:9".parse().unwrap()).await;
    });
    let pinging = g.h.spawn(async move {
        let _ = RaknetSocket::ping(&"127.0.0.1:9".parse().unwrap()).await;
    });
    tokio::time::sleep(Duration::from_millis(r.range(1, 250))).await;
    let mut l = Some(l);
    if !leftover {
        inner.clear();
        tasks.iter().for_each(|t| t.abort());
        l = None;
        tokio::time::sleep(Duration::from_millis(r.below(30))).await;
    }
    g.kill();
    c.case(what.as_bytes(), true);
    c.add("runtimes_shut_down", 1);
    if !g.ended().await {
        c.violation("runtime:shutdown", format!("the runtime could not be shut down: {what}"), w.clone());
    }
    lib_panicked(&c, &what);
    drop((connecting, pinging));
    if leftover {
        // the handles are of no more use, but harmless
        for s in &inner {
            let x = within(5.0, async { while s.recv().await.is_ok() {} }).await.is_some();
            c.add(if x { "calls_on_dead_runtimes_returned" } else { "calls_on_dead_runtimes_pending" }, 1);
            let m = Key::new(0, 0, ORDERED, 0, 3000).bytes();
            for x in [within(3.0, s.send(&m, Reliability::ReliableOrdered)).await.is_some(), within(3.0, s.flush()).await.is_some(), within(3.0, s.close()).await.is_some()] {
                c.add(if x { "calls_on_dead_runtimes_returned" } else { "calls_on_dead_runtimes_pending" }, 1);
            }
            let _ = (s.local_addr(), s.peer_addr(), s.raknet_version());
        }
        let lm = l.as_mut().unwrap();
        let _ = within(0.3, async { while lm.accept().await.is_ok() {} }).await;
        let _ = (lm.get_motd().await, lm.local_addr());
        if r.chance(0.5) {
            let x = within(3.0, lm.close()).await.is_some();
            c.add(if x { "calls_on_dead_runtimes_returned" } else { "calls_on_dead_runtimes_pending" }, 1);
        }
    }
    lib_panicked(&c, &what);
    tasks.iter().for_each(|t| t.abort());
    for t in tasks {
        let _ = within(10.0, t).await;
    }
    // dropped where there is no runtime at all
    let _ = std::thread::spawn(move || drop((inner, l))).join();
    lib_panicked(&c, &what);
    if !wait_until(8.0, || std::net::UdpSocket::bind(la).is_ok()).await {
        c.violation("runtime:port", format!("the port of a listener is taken although its runtime is gone: {what}"), w.clone());
        return;
    }
    // the same address serves again, on another runtime
    let mut l2 = listener_at(&la.to_string()).await;
    match lib_pair(None, &mut l2).await {
        Ok((a, b)) => {
            let (a, b) = (App::new(a), App::new(b));
            let m = Key::new(9, 0, ORDERED, 0, 100).bytes();
            let _ = within(5.0, a.s.send(&m, Reliability::ReliableOrdered)).await;
            if !b.expect(&m, 10.0).await {
                c.violation("runtime:again", format!("a new listener at the address does not work: {what}"), w.clone());
            }
        }
        Err(e) => c.violation("runtime:again", format!("a new listener at the address does not work ({e}): {what}"), w.clone()),
    }
    for s in outer {
        if within(10.0, s.close()).await.is_none() {
            c.violation("runtime:peer-close", format!("close() hangs when the peer's runtime is gone: {what}"), w.clone());
        }
    }
}

async fn listener_at_owned(a: SocketAddr) -> RaknetListener {
    listener_at(&a.to_string()).await
}

pub async fn run(c: C) {
    c.rule("one case = one family of datagrams or load at a single-threaded runtime, one history on another runtime, or one way of shutting a runtime down");
    let mut set = tokio::task::JoinSet::new();
    set.spawn(histories(c.clone(), 0, c.q(8, 80), c.seed));
    set.spawn(histories(c.clone(), 0, c.q(8, 80), c.seed + 1000));
    set.spawn(histories(c.clone(), 1, c.q(8, 80), c.seed + 2000));
    set.spawn(load(c.clone(), c.seed));
    while set.join_next().await.is_some() {}
    for k in 0..c.q(2, 20) {
        set.spawn(load(c.clone(), c.seed + 77 * (k + 1)));
    }
    for side in [false, true] {
        for k in 0..2 {
            set.spawn(stalls(c.clone(), side, k, 2));
        }
    }
    while set.join_next().await.is_some() {}
    if c.failed() {
        return;
    }
    for k in 0..c.q(40, 600) {
        while set.len() >= 10 {
            set.join_next().await;
        }
        if c.failed() {
            break;
        }
        set.spawn(shutdown(c.clone(), c.seed * 10_000 + k));
    }
    while set.join_next().await.is_some() {}
}
