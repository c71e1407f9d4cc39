//! C03 Sequenced: only newer messages; the latest reliable one arrives.
use crate::pair::*;
use crate::report::*;
use crate::rt::*;
use crate::wire::*;

pub async fn run(c: C) {
    c.rule("one case = one workload with its own network fault sequence, or one raw-peer plan; distinct by the observed datagram history");
    set_chaos(0.01, 300);
    let f = |c: &Ctx, o: &PairOut| {
        for (i, d) in o.dirs.iter().enumerate() {
            for j in 0..2 {
                oracle_sequenced(c, &d[j].sent, &d[j].got, true, w_cfg(o, i, j));
            }
        }
    };
    let mixed = [UNREL_SEQ, REL_SEQ, UNREL_SEQ, REL_SEQ, ORDERED, RELIABLE, UNRELIABLE];
    let (n, m) = (c.q(30, 500), c.q(80, 2000));
    tokio::join!(
        pairs(&c, n, 10, &mixed, f),
        pairs(&c, n, 10, &[REL_SEQ, UNREL_SEQ], f),
        pairs(&c, n, 10, &[REL_SEQ], f),
        pairs_of(&c, hard_cfgs(&c, &mixed), 20, f),
        raws(&c, m, 8, &mixed, |c, o| {
            oracle_model_seq(c, o);
        }),
        raws(&c, m, 8, &[REL_SEQ, UNREL_SEQ], |c, o| {
            oracle_model_seq(c, o);
        }),
    );
}

fn oracle_model_seq(c: &Ctx, o: &RawOut) {
    // both sequenced kinds share one sequence: compare them together, in delivery order
    let want: Vec<&Vec<u8>> = o.model.iter().filter(|m| is_sequenced(m.0)).map(|m| &m.1).collect();
    let have: Vec<&Vec<u8>> = o.got.iter().filter(|m| m.get(3).map(|r| is_sequenced(*r)) == Some(true)).collect();
    c.add("raw_peer_messages_compared_with_model", want.len() as i64);
    if want != have {
        let show = |v: &[&Vec<u8>]| {
            v.iter().map(|m| Key::parse(m).map(|k| format!("{}:{}", k.rel, k.idx)).unwrap_or("?".into())).collect::<Vec<_>>().join(",")
        };
        let mut w = w_raw(o);
        w.push(("expected", J::s(show(&want))));
        w.push(("received", J::s(show(&have))));
        c.violation("model:sequenced", format!("a peer's sequenced messages were delivered as [{}], expected [{}]", show(&have), show(&want)), J::o(w));
    }
}
