//! C29 Logging is opt-in and harmless: what a process prints, level by level, and what becomes of
//! its connections when the output cannot be written. Each case is a process of its own.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use rust_raknet::*;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::process::{Command, Stdio};
use std::time::Duration;

const LEVELS: [(&str, u8); 3] = [("debug - ", 1), ("error - ", 2), ("info - ", 4)];

/// Everything the library has something to say about, with histories.
async fn phase(c: C, seed: u64) {
    let mut r = Rng::new(seed);
    let w = J::I(seed as i64);
    let mut l = listener().await;
    let la = l.local_addr().unwrap();
    let px = Proxy::new(la, NetCfg { drop: 0.15, dup: 0.1, delay: 0.2, max_delay_ms: 30, ..NetCfg::clean() }, seed).await;
    let (a, b) = match lib_pair(Some(&px), &mut l).await {
        Ok(x) => x,
        Err(e) => return c.violation("log:connect", e, w),
    };
    let (a, b) = (App::new(a), App::new(b));
    let mut sent: [Vec<Vec<u8>>; 2] = Default::default();
    // sends that fail, for the errors
    let f = Faulty::new(Fault { call: Call::Send, port: a.s.local_addr().unwrap().port(), to: 0, p: 1.0, errno: libc::ENETUNREACH });
    for i in 0..25u32 {
        for d in 0..2u8 {
            let rel = *r.pick(&[ORDERED, ORDERED, RELIABLE, REL_SEQ, UNRELIABLE]);
            let len = if rel == ORDERED && r.chance(0.2) { 5000 } else { r.range(30, 1000) as usize };
            let m = Key::new(0, d, rel, i, len).bytes();
            let s = if d == 0 { &a.s } else { &b.s };
            match within(20.0, s.send(&m, rel_of(rel))).await {
                Some(Ok(())) => {}
                x => return c.violation("log:send", format!("send() gave {x:?}"), w),
            }
            if rel == ORDERED {
                sent[d as usize].push(m);
            }
        }
    }
    lsleep(0.25).await;
    drop(f);
    // hostile and odd datagrams
    let odd = Peer::new(Role::Mute).await;
    odd.with(|s| s.to = Some(la));
    for _ in 0..60 {
        let n = r.below(60) as usize;
        let mut d: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
        if let Some(x) = d.first_mut() {
            *x = *r.pick(&[1, 2, 5, 7, 8, 0x84, 0xc0, 0xa0, 0x15, 0x1c, 0xff]);
        }
        odd.raw(&d).await;
    }
    match raw_client(&mut l, 11, 1400).await {
        Ok((p, s)) => {
            for d in [&[0x84u8, 0, 0][..], &[0x84, 9, 0, 0, 0xff, 0, 8, 1], &[0xc0, 0, 9, 0], &[0xa0, 0, 1], &[0x33, 1, 2], &[]] {
                p.raw(d).await;
            }
            let m = Key::new(0, 2, RELIABLE, 0, 40).bytes();
            let acked = p.msg(RELIABLE, &m).await;
            let x = within(5.0, s.recv()).await;
            if !matches!(&x, Some(Ok(x)) if *x == m) {
                c.violation("log:message", format!("a message did not arrive, acknowledged {acked}, recv() gave {x:?}"), w.clone());
            }
            // a Disconnect as a message
            p.msg(RELIABLE, &[0x15]).await;
            if !matches!(within(8.0, s.recv()).await, Some(Err(_))) {
                c.violation("log:end", "the end of a connection was not noticed", w.clone());
            }
        }
        Err(e) => return c.violation("log:connect", e, w),
    }
    match within(20.0, RaknetSocket::ping(&la)).await {
        Some(Ok((_, m))) if m == l.get_motd().await => {}
        x => c.violation("log:ping", format!("ping() gave {x:?}"), w.clone()),
    }
    if !matches!(within(15.0, RaknetSocket::connect_with_version(&la, 7)).await, Some(Err(_))) {
        c.violation("log:version", "connect_with_version(7) did not fail", w.clone());
    }
    px.clean();
    let all = |s: &App, d: usize| {
        let got: Vec<Vec<u8>> = s.got().into_iter().filter(|m| m.len() > 3 && m[3] == ORDERED).collect();
        got == sent[d]
    };
    if !wait_until(40.0, || all(&b, 0) && all(&a, 1)).await {
        c.violation("log:history", format!("{} and {} ordered messages were sent, {} and {} received messages do not match", sent[0].len(), sent[1].len(), b.count(), a.count()), w.clone());
    }
    if !matches!(within(8.0, a.s.close()).await, Some(Ok(()))) || !wait_until(15.0, || b.ended().is_some()).await {
        c.violation("log:close", "close() was not noticed by the other end", w.clone());
    }
    drop((a, b));
    if !matches!(within(15.0, l.close()).await, Some(Ok(()))) {
        c.violation("log:listener-close", "RaknetListener::close() did not return", w);
    }
}

/// `rkv logchild FLAGS` : one phase for each flag, `-` leaves the level as it is.
pub async fn child(c: C) {
    let flags = std::env::args().nth(2).unwrap_or_default();
    for (i, f) in flags.split(',').enumerate() {
        if let Ok(f) = f.parse::<u8>() {
            enable_raknet_log(f);
            tokio::time::sleep(Duration::from_millis(80)).await;
        }
        let m = format!("MARK {i}\n");
        unsafe { libc::write(1, m.as_ptr() as *const _, m.len()) };
        let _ = tokio::spawn(phase(c.clone(), c.seed + i as u64)).await;
    }
    lsleep(0.3).await;
    eprintln!("CHILD-DONE");
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Pipe,
    /// every write fails with ENOSPC
    Full,
    /// every write fails with EPIPE
    Broken,
    /// there is no such descriptor
    Closed,
}

fn spawn_child(flags: &str, out: Out, seed: u64) -> std::io::Result<(std::process::Child, Option<std::thread::JoinHandle<Vec<u8>>>, std::thread::JoinHandle<Vec<u8>>)> {
    let mut cmd = Command::new(std::env::current_exe()?);
    cmd.args(["logchild", flags]).env("VERIF_SEED", seed.to_string()).stdin(Stdio::null()).stderr(Stdio::piped());
    match out {
        Out::Pipe => {
            cmd.stdout(Stdio::piped());
        }
        Out::Full => {
            cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full")?);
        }
        Out::Broken => {
            let mut fds = [0i32; 2];
            unsafe {
                libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC);
                libc::close(fds[0]);
                cmd.stdout(Stdio::from_raw_fd(fds[1]));
            }
        }
        Out::Closed => {
            use std::os::unix::process::CommandExt;
            cmd.stdout(Stdio::null());
            unsafe {
                cmd.pre_exec(|| {
                    // a descriptor nothing can be written to
                    let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
                    libc::dup2(n, 1);
                    libc::close(n);
                    Ok(())
                })
            };
        }
    }
    let mut ch = cmd.spawn()?;
    let rd = |mut x: Box<dyn Read + Send>| {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = x.read_to_end(&mut v);
            v
        })
    };
    let o = ch.stdout.take().map(|x| rd(Box::new(x)));
    let e = rd(Box::new(ch.stderr.take().unwrap()));
    Ok((ch, o, e))
}

async fn case(c: C, flags: String, out: Out, seed: u64) {
    let w = J::o(vec![("flags", J::s(flags.clone())), ("stdout", J::s(format!("{out:?}"))), ("seed", J::I(seed as i64))]);
    let (mut ch, o, e) = match spawn_child(&flags, out, seed) {
        Ok(x) => x,
        Err(e) => return c.inconclusive(format!("no child process: {e}")),
    };
    let limit = 60.0 + 30.0 * flags.split(',').count() as f64;
    let ended = wait_until(limit, || matches!(ch.try_wait(), Ok(Some(_)))).await;
    if !ended {
        let _ = ch.kill();
    }
    let _ = ch.wait();
    let (so, se) = tokio::task::spawn_blocking(move || (o.map(|o| o.join().unwrap_or_default()).unwrap_or_default(), e.join().unwrap_or_default())).await.unwrap_or_default();
    let (so, se) = (String::from_utf8_lossy(&so).into_owned(), String::from_utf8_lossy(&se).into_owned());
    c.add("processes", 1);
    c.case(format!("{flags} {out:?} {seed}").as_bytes(), true);
    let where_ = format!("levels {flags}, output {out:?}");
    for l in se.lines() {
        if let Some(x) = l.strip_prefix("[violation] ") {
            let (sig, what) = x.split_once("sig=").and_then(|x| x.1.split_once(' ')).unwrap_or(("log:child", x));
            c.violation(sig, format!("{what} ({where_})"), w.clone());
        } else if l.starts_with("[panic] library=true") {
            c.violation("log:panic", format!("{l} ({where_})"), w.clone());
        } else if l.starts_with("[panic]") {
            c.inconclusive(format!("harness: {l}"));
        } else if l != "CHILD-DONE" {
            c.violation("log:stderr", format!("{l:?} was written to standard error ({where_})"), w.clone());
        }
    }
    if !se.lines().any(|l| l == "CHILD-DONE") && !c.failed() {
        return c.inconclusive(format!("the process did not finish ({where_}): {}", se.lines().last().unwrap_or("")));
    }
    if out != Out::Pipe {
        return;
    }
    let flags: Vec<u8> = flags.split(',').scan(0u8, |cur, f| {
        *cur = f.parse().unwrap_or(*cur);
        Some(*cur)
    }).collect();
    let mut cur: Option<usize> = None;
    let mut seen = vec![[0u64; 3]; flags.len()];
    for l in so.lines() {
        if let Some(i) = l.strip_prefix("MARK ").and_then(|i| i.parse::<usize>().ok()) {
            cur = Some(i);
            continue;
        }
        let Some(k) = LEVELS.iter().position(|x| l.starts_with(x.0)) else {
            c.violation("log:line", format!("{:?} was printed, which is no line of a level ({where_})", l.chars().take(200).collect::<String>()), w.clone());
            continue;
        };
        match cur {
            // the level is changed a moment before the mark
            None if flags[0] == 0 => c.violation("log:default", format!("{l:?} was printed though logging was not enabled"), w.clone()),
            None => {}
            Some(i) if i < flags.len() => {
                seen[i][k] += 1;
                let next = flags.get(i + 1).copied().unwrap_or(0);
                if (flags[i] | next) & LEVELS[k].1 == 0 {
                    c.violation("log:level", format!("{l:?} was printed with level {} ({where_})", flags[i]), w.clone());
                }
            }
            _ => {}
        }
        c.add("log_lines", 1);
    }
    for (i, f) in flags.iter().enumerate() {
        for (k, x) in LEVELS.iter().enumerate() {
            if f & x.1 != 0 && seen[i][k] == 0 {
                c.violation("log:missing", format!("nothing of level {:?} was printed in a phase with level {f} ({where_})", x.0), w.clone());
            }
        }
    }
    for k in 0..3 {
        c.add(["debug_lines", "error_lines", "info_lines"][k], seen.iter().map(|s| s[k] as i64).sum());
    }
}

pub async fn run(c: C) {
    c.rule("one case = one process with its sequence of log levels and its kind of standard output; every line it prints is judged");
    let mut cases: Vec<(String, Out)> = vec![
        ("-,-".into(), Out::Pipe),
        ("-,0".into(), Out::Pipe),
        ("-".into(), Out::Full),
        ("7,7".into(), Out::Full),
        ("7,7".into(), Out::Broken),
        ("7".into(), Out::Closed),
        ("2".into(), Out::Full),
        ("2".into(), Out::Broken),
        ("1".into(), Out::Full),
        ("4".into(), Out::Broken),
        ("1,2,4,0".into(), Out::Pipe),
        ("7,0,3,5".into(), Out::Pipe),
        ("6,1,255,8".into(), Out::Pipe),
    ];
    let mut r = Rng::derive(c.seed, 0x2901, 0);
    for _ in 0..c.q(4, 60) {
        let n = r.range(2, c.q(4, 9));
        let f: Vec<String> = (0..n).map(|_| if r.chance(0.3) { r.below(256) } else { r.below(8) }.to_string()).collect();
        cases.push((f.join(","), if r.chance(0.6) { Out::Pipe } else { *r.pick(&[Out::Full, Out::Broken, Out::Closed]) }));
    }
    let mut set = tokio::task::JoinSet::new();
    for (k, (f, o)) in cases.into_iter().enumerate() {
        while set.len() >= 7 {
            set.join_next().await;
        }
        set.spawn(case(c.clone(), f, o, c.seed * 1000 + k as u64 * 20));
    }
    while set.join_next().await.is_some() {}
}
