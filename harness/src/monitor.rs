//! Offline checker of one connection's datagram trace (both directions, as the proxy saw it).
use crate::net::*;
use crate::pair::Key;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Debug, Clone)]
pub struct Finding {
    /// "ack": acknowledgements, "resend": retransmission, "wire": format and numbering, "mtu": size
    pub class: &'static str,
    pub sig: &'static str,
    pub what: String,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub datagrams: i64,
    pub frames: i64,
    pub resends: i64,
    pub acks: i64,
    pub nacks: i64,
    pub splits: i64,
}

pub struct Opts {
    pub mtu: usize,
    /// everything sent was acknowledged by the end: indexes must be gap-free and fragments complete
    pub settled: bool,
}

pub fn monitor(trace: &[Tr], conn: usize, o: &Opts) -> (Vec<Finding>, Stats) {
    let base = start();
    let mut out = vec![];
    let mut st = Stats::default();
    let mut f = |class, sig, what: String| {
        if out.len() < 20 {
            out.push(Finding { class, sig, what });
        }
    };
    // per direction
    let mut seqs: [HashMap<u32, f64>; 2] = Default::default();
    let mut got: [HashSet<u32>; 2] = Default::default();
    let mut top: [i64; 2] = [-1, -1];
    let mut ridx: [BTreeMap<u32, (Frame, u32)>; 2] = Default::default();
    let mut sidx: [BTreeSet<u32>; 2] = Default::default();
    let mut oidx: [BTreeMap<u32, Option<u16>>; 2] = Default::default();
    let mut split: [HashMap<u16, (u32, u32, BTreeSet<u32>)>; 2] = Default::default();
    let mut unrel: [HashSet<Key>; 2] = Default::default();
    // sequence numbers a reliable frame went out under, and those acknowledged to its sender
    let mut ridx_seqs: [HashMap<u32, Vec<u32>>; 2] = Default::default();
    let mut acked: [HashMap<u32, f64>; 2] = Default::default();
    for t in trace.iter().filter(|t| t.conn == conn) {
        let d = t.dir as usize;
        st.datagrams += 1;
        let dg = match decode(&t.bytes) {
            Ok(x) => rebased(x, &base),
            Err(e) => {
                f("wire", "wire:undecodable", format!("datagram not valid RakNet: {e}: {}", hex(&t.bytes)));
                continue;
            }
        };
        if !matches!(dg, Dg::Req1 { .. }) && t.bytes.len() + 28 > o.mtu {
            f("mtu", "mtu:datagram", format!("datagram of {} bytes with an MTU of {}", t.bytes.len(), o.mtu));
        }
        match dg {
            Dg::Ack(r) => {
                st.acks += 1;
                for (a, b) in r {
                    for s in a..=b.min(a + 5000) {
                        if !got[1 - d].contains(&s) {
                            f("ack", "ack:unsound", format!("acknowledged {s}, which it had not received"));
                        }
                        if t.copies > 0 {
                            acked[1 - d].entry(s).or_insert(t.ms);
                        }
                    }
                }
            }
            Dg::Nack(r) => {
                st.nacks += 1;
                for (_, b) in r {
                    if b as i64 >= top[1 - d] {
                        f("ack", "nack:unsound", format!("asked for {b} again but the highest number received is {}", top[1 - d]));
                    }
                }
            }
            Dg::Frames { seq, frames, .. } => {
                if seqs[d].insert(seq, t.ms).is_some() {
                    f("wire", "wire:seq-reused", format!("datagram number {seq} used twice"));
                }
                if t.copies > 0 {
                    got[d].insert(seq);
                    top[d] = top[d].max(seq as i64);
                }
                for fr in frames {
                    st.frames += 1;
                    if let Some((n, id, i)) = fr.split {
                        st.splits += 1;
                        if !is_reliable(fr.rel) {
                            f("wire", "wire:split-unreliable", format!("fragment with reliability {}", fr.rel));
                        }
                        let e = split[d].entry(id).or_insert((n, fr.oidx, BTreeSet::new()));
                        if e.0 != n || e.1 != fr.oidx {
                            f("wire", "wire:split-inconsistent", format!("compound {id}: size {n} order {} after size {} order {}", fr.oidx, e.0, e.1));
                        }
                        e.2.insert(i);
                    }
                    if is_reliable(fr.rel) {
                        let again = match ridx[d].get_mut(&fr.ridx) {
                            Some((old, n)) => {
                                *n += 1;
                                st.resends += 1;
                                if *old != fr {
                                    f("resend", "resend:changed", format!("reliable index {} sent again with other content: {old:?} then {fr:?}", fr.ridx));
                                }
                                true
                            }
                            None => {
                                ridx[d].insert(fr.ridx, (fr.clone(), 1));
                                false
                            }
                        };
                        let sq = ridx_seqs[d].entry(fr.ridx).or_default();
                        if again {
                            // an acknowledgement that left the proxy well before this copy was sent
                            // must have ended retransmission
                            if let Some(a) = sq.iter().filter_map(|s| acked[d].get(s)).map(|x| *x).reduce(f64::min) {
                                if t.ms - a > 3000.0 {
                                    f("resend", "resend:after-ack", format!("reliable index {} sent again {:.0} ms after its acknowledgement", fr.ridx, t.ms - a));
                                }
                            }
                        }
                        sq.push(seq);
                        if !again {
                            if is_sequenced(fr.rel) && !sidx[d].insert(fr.sidx) {
                                f("wire", "wire:sidx-reused", format!("sequenced index {} used for two messages", fr.sidx));
                            }
                            if fr.rel == ORDERED {
                                let id = fr.split.map(|s| s.1);
                                match oidx[d].get(&fr.oidx) {
                                    Some(x) if *x != id || id.is_none() => {
                                        f("wire", "wire:oidx-reused", format!("ordered index {} used for two messages", fr.oidx));
                                    }
                                    _ => {
                                        oidx[d].insert(fr.oidx, id);
                                    }
                                }
                            }
                        }
                    } else {
                        if is_sequenced(fr.rel) && !sidx[d].insert(fr.sidx) {
                            f("resend", "resend:unreliable", format!("unreliable sequenced message {} sent twice", fr.sidx));
                        }
                        if fr.rel == UNRELIABLE {
                            if let Some(k) = Key::parse(&fr.data) {
                                if !unrel[d].insert(k) {
                                    f("resend", "resend:unreliable", format!("unreliable message {k:?} sent twice"));
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if o.settled {
        for d in 0..2 {
            let gap = |s: &mut dyn Iterator<Item = u32>| -> Option<u32> {
                let mut n = 0;
                for x in s {
                    if x != n {
                        return Some(n);
                    }
                    n += 1;
                }
                None
            };
            if let Some(g) = gap(&mut ridx[d].keys().cloned()) {
                f("wire", "wire:ridx-gap", format!("reliable index {g} was never sent (direction {d})"));
            }
            if let Some(g) = gap(&mut oidx[d].keys().cloned()) {
                f("wire", "wire:oidx-gap", format!("ordered index {g} was never sent (direction {d})"));
            }
            if let Some(g) = gap(&mut sidx[d].iter().cloned()) {
                f("wire", "wire:sidx-gap", format!("sequenced index {g} was never sent (direction {d})"));
            }
            for (id, (n, _, have)) in &split[d] {
                if have.len() != *n as usize {
                    f("wire", "wire:split-incomplete", format!("compound {id}: {} of {n} fragments sent", have.len()));
                }
            }
        }
    }
    (out, st)
}

/// The datagram with all counters counted from the first of the connection.
fn rebased(d: Dg, base: &[u32; 5]) -> Dg {
    if *base == [0; 5] {
        return d;
    }
    let q = |x: u32| x.wrapping_sub(base[0]) & M24;
    match d {
        Dg::Ack(r) => Dg::Ack(r.into_iter().map(|(a, b)| (q(a), q(b))).collect()),
        Dg::Nack(r) => Dg::Nack(r.into_iter().map(|(a, b)| (q(a), q(b))).collect()),
        Dg::Frames { id, seq, frames } => Dg::Frames { id, seq: q(seq), frames: frames.iter().map(|f| rebase(f, base)).collect() },
        d => d,
    }
}
