//! C02 Reliable: delivered exactly once, intact.
use crate::net::*;
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::Arc;

/// Loses the k-th acknowledgement in one direction only: the sender must repeat a message that has
/// already been delivered.
async fn lost_ack(c: C, k: u32, dir: u8, span: u32) {
    let mut l = listener().await;
    let px = Proxy::new(l.local_addr().unwrap(), NetCfg::clean(), c.seed).await;
    let Ok((cl, sv)) = lib_pair(Some(&px), &mut l).await else {
        c.violation("workload:stuck", "could not connect", J::s("lost_ack"));
        return;
    };
    let apps = [App::new(cl), App::new(sv)];
    let seen = Arc::new(AtomicU32::new(0));
    let s2 = seen.clone();
    px.st.lock().unwrap().set_hook(Box::new(move |_, d, _, b| {
        if d == 1 - dir && b[0] == ACK {
            let i = s2.fetch_add(1, SeqCst);
            if i >= k && i < k + span {
                return Some(vec![]);
            }
        }
        None
    }));
    let mut sent = vec![];
    for i in 0..12u32 {
        let rel = if i % 4 == 3 { ORDERED } else { RELIABLE };
        let key = Key::new(0, dir, rel, i, 20 + i as usize * 17);
        if apps[dir as usize].s.send(&key.bytes(), rel_of(rel)).await.is_ok() {
            sent.push(key);
        }
        tokio::time::sleep(std::time::Duration::from_millis(15)).await;
    }
    wait_until(20.0, || sent.iter().all(|s| apps[1 - dir as usize].has(&s.bytes()))).await;
    // the repeat that the lost acknowledgement causes comes within a couple of timeouts
    wait_until(15.0, || px.trace().iter().filter(|t| t.dir == dir && t.bytes[0] & 0xf0 == 0x80).count() >= sent.len() + 1).await;
    lsleep(0.4).await;
    let tr = px.trace();
    let lost = tr.iter().filter(|t| t.copies == 0).count();
    c.case(format!("lost_ack {k} {dir} {span} {lost}").as_bytes(), lost > 0);
    c.add("acknowledgements_lost", lost as i64);
    let got = apps[1 - dir as usize].got();
    oracle_reliable(&c, &sent, &got, vec![("scenario", J::s(format!("acknowledgements {k}..{} of direction {dir} lost", k + span)))]);
    for a in apps {
        let _ = within(5.0, a.s.close()).await;
    }
    let _ = within(15.0, l.close()).await;
}

pub async fn run(c: C) {
    c.rule("one case = one workload or raw-peer plan or one lost-acknowledgement scenario; distinct by the observed datagram history");
    set_chaos(0.01, 300);
    let all = [RELIABLE, RELIABLE, RELIABLE, ORDERED, UNRELIABLE, REL_SEQ];
    let f = |c: &Ctx, o: &PairOut| {
        for (i, d) in o.dirs.iter().enumerate() {
            for j in 0..2 {
                oracle_reliable(c, &d[j].sent, &d[j].got, w_cfg(o, i, j));
            }
        }
    };
    let acks = async {
        let mut set = tokio::task::JoinSet::new();
        for k in 0..c.q(10, 14) as u32 {
            for dir in 0..2 {
                for span in [1, 3] {
                    set.spawn(lost_ack(c.clone(), k, dir, span));
                }
            }
        }
        while set.join_next().await.is_some() {}
    };
    tokio::join!(
        pairs(&c, c.q(60, 900), 20, &all, f),
        raws(&c, c.q(120, 3000), 16, &all, |c, o| oracle_model(c, o, RELIABLE)),
        pairs_of(&c, hard_cfgs(&c, &all), 20, f),
        acks
    );
    if c.failed() {
        return;
    }
    set_chaos(0.0, 0);
    let mut set = tokio::task::JoinSet::new();
    for side in [false, true] {
        for n in if c.thorough { vec![700, 2500, 6000, 20_000] } else { vec![700, 6000] } {
            set.spawn(crate::long::held_first(c.clone(), RELIABLE, n, false, side));
        }
    }
    while set.join_next().await.is_some() {}
}
