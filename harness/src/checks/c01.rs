//! C01 ReliableOrdered: exactly once, in order, intact.
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;

pub async fn run(c: C) {
    c.rule("one case = one workload with its own network fault sequence; distinct by the sequence of (direction, datagram type and number, copies delivered) the proxy observed, or by the raw peer's datagrams");
    let all = [ORDERED, ORDERED, ORDERED, RELIABLE, UNRELIABLE, REL_SEQ, UNREL_SEQ];
    let (n1, n2, n3) = (c.q(40, 600), c.q(120, 3000), c.q(60, 800));
    set_chaos(0.01, 300);
    let only = [ORDERED];
    let f = |c: &Ctx, o: &PairOut| {
        for (i, d) in o.dirs.iter().enumerate() {
            for j in 0..2 {
                oracle_ordered(c, &d[j].sent, &d[j].got, o.complete, w_cfg(o, i, j));
            }
        }
    };
    let a = pairs(&c, n1, 20, &all, f);
    let b = async {
        raws(&c, n2, 16, &all, |c, o| oracle_model(c, o, ORDERED)).await;
    };
    tokio::join!(a, b, pairs_of(&c, hard_cfgs(&c, &all), 20, f));
    let cfgs = (0..n3)
        .map(|k| {
            let mut x = pair_cfg(c.seed, 50_000 + k, &only);
            x.big = if k % 6 == 0 { 400_000 } else { 30_000 };
            x.msgs = if k % 6 == 0 { 8 } else { 40 };
            x
        })
        .collect();
    pairs_of(&c, cfgs, 20, f).await;
    if c.failed() {
        return;
    }
    set_chaos(0.0, 0);
    let mut set = tokio::task::JoinSet::new();
    for side in [false, true] {
        for n in if c.thorough { vec![700, 2500, 6000, 20_000] } else { vec![700, 6000] } {
            set.spawn(crate::long::held_first(c.clone(), ORDERED, n, false, side));
            set.spawn(crate::long::held_first(c.clone(), ORDERED, n, true, side));
        }
    }
    while set.join_next().await.is_some() {}
    for (bytes, drop) in if c.thorough { vec![(3_000_000, 0.05), (9_000_000, 0.0), (9_000_000, 0.02), (25_000_000, 0.0)] } else { vec![(2_000_000, 0.03), (8_000_000, 0.0)] } {
        for to_server in [false, true] {
            set.spawn(crate::long::huge(c.clone(), bytes, drop, to_server));
        }
        while set.join_next().await.is_some() {}
    }
    let base: usize = c.get("ordered_messages_received") as usize;
    if base == 0 {
        c.inconclusive("no ordered message was observed");
    }
}
