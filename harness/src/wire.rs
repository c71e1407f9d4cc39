//! An independent RakNet codec, written from the protocol description and sharing nothing with
//! the library. Decoding is strict: a datagram that a careful RakNet peer could not accept is an error.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const MAGIC: [u8; 16] = [
    0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78,
];
pub const ACK: u8 = 0xc0;
pub const NACK: u8 = 0xa0;

pub const UNRELIABLE: u8 = 0;
pub const UNREL_SEQ: u8 = 1;
pub const RELIABLE: u8 = 2;
pub const ORDERED: u8 = 3;
pub const REL_SEQ: u8 = 4;

pub fn is_reliable(r: u8) -> bool {
    matches!(r, 2..=4)
}
pub fn is_sequenced(r: u8) -> bool {
    matches!(r, 1 | 4)
}
pub fn has_order(r: u8) -> bool {
    matches!(r, 1 | 3 | 4)
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Frame {
    pub rel: u8,
    pub ridx: u32,
    pub sidx: u32,
    pub oidx: u32,
    pub chan: u8,
    /// (number of fragments, compound id, fragment index)
    pub split: Option<(u32, u16, u32)>,
    pub data: Vec<u8>,
}
impl Frame {
    pub fn new(rel: u8, data: &[u8]) -> Frame {
        Frame { rel, data: data.to_vec(), ..Default::default() }
    }
    pub fn header(&self) -> usize {
        3 + if is_reliable(self.rel) { 3 } else { 0 }
            + if is_sequenced(self.rel) { 3 } else { 0 }
            + if has_order(self.rel) { 4 } else { 0 }
            + if self.split.is_some() { 10 } else { 0 }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dg {
    Ping { time: i64 },
    Pong { time: i64, guid: u64, motd: Vec<u8> },
    Req1 { version: u8, len: usize },
    Reply1 { guid: u64, security: u8, mtu: u16 },
    Req2 { addr: SocketAddr, mtu: u16, guid: u64 },
    Reply2 { guid: u64, addr: SocketAddr, mtu: u16, encryption: u8 },
    Already { guid: u64 },
    Incompatible { version: u8, guid: u64 },
    Disconnect,
    Frames { id: u8, seq: u32, frames: Vec<Frame> },
    Ack(Vec<(u32, u32)>),
    Nack(Vec<(u32, u32)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Inner {
    Request { guid: u64, time: i64, security: u8 },
    Accepted { addr: SocketAddr, request: i64 },
    Incoming { addr: SocketAddr },
    Ping(i64),
    Pong(i64, i64),
    Disconnect,
    User,
}

pub struct Rd<'a>(pub &'a [u8]);
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return Err(format!("truncated: need {n}, have {}", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u24le(&mut self) -> R<u32> {
        let b = self.take(3)?;
        Ok(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16)
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(self.u64()? as i64)
    }
    pub fn magic(&mut self) -> R<()> {
        if self.take(16)? == MAGIC {
            Ok(())
        } else {
            Err("bad magic".into())
        }
    }
    pub fn addr(&mut self) -> R<SocketAddr> {
        match self.u8()? {
            4 => {
                let b = self.take(4)?;
                let ip = Ipv4Addr::new(!b[0], !b[1], !b[2], !b[3]);
                Ok(SocketAddr::new(IpAddr::V4(ip), self.u16()?))
            }
            6 => {
                let fam = self.take(2)?;
                if fam != [23, 0] {
                    return Err(format!("IPv6 address family bytes {fam:?}"));
                }
                let port = self.u16()?;
                self.take(4)?;
                let a: [u8; 16] = self.take(16)?.try_into().unwrap();
                self.take(4)?;
                Ok(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(a)), port))
            }
            v => Err(format!("address version {v}")),
        }
    }
    pub fn end(&self) -> R<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} trailing bytes", self.0.len()))
        }
    }
}

pub fn put24(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&[x as u8, (x >> 8) as u8, (x >> 16) as u8]);
}
pub fn put_addr(v: &mut Vec<u8>, a: SocketAddr) {
    match a.ip() {
        IpAddr::V4(ip) => {
            v.push(4);
            v.extend(ip.octets().iter().map(|b| !b));
            v.extend_from_slice(&a.port().to_be_bytes());
        }
        IpAddr::V6(ip) => {
            v.push(6);
            v.extend_from_slice(&[23, 0]);
            v.extend_from_slice(&a.port().to_be_bytes());
            v.extend_from_slice(&[0; 4]);
            v.extend_from_slice(&ip.octets());
            v.extend_from_slice(&[0; 4]);
        }
    }
}

pub fn enc_frame(v: &mut Vec<u8>, f: &Frame) {
    v.push(f.rel << 5 | if f.split.is_some() { 0x10 } else { 0 });
    v.extend_from_slice(&((f.data.len() * 8) as u16).to_be_bytes());
    if is_reliable(f.rel) {
        put24(v, f.ridx);
    }
    if is_sequenced(f.rel) {
        put24(v, f.sidx);
    }
    if has_order(f.rel) {
        put24(v, f.oidx);
        v.push(f.chan);
    }
    if let Some((size, id, idx)) = f.split {
        v.extend_from_slice(&size.to_be_bytes());
        v.extend_from_slice(&id.to_be_bytes());
        v.extend_from_slice(&idx.to_be_bytes());
    }
    v.extend_from_slice(&f.data);
}
pub fn enc_frames(seq: u32, frames: &[Frame]) -> Vec<u8> {
    let mut v = vec![0x84];
    put24(&mut v, seq);
    for f in frames {
        enc_frame(&mut v, f);
    }
    v
}
pub fn enc_ack(id: u8, r: &[(u32, u32)]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend_from_slice(&(r.len() as u16).to_be_bytes());
    for (a, b) in r {
        if a == b {
            v.push(1);
            put24(&mut v, *a);
        } else {
            v.push(0);
            put24(&mut v, *a);
            put24(&mut v, *b);
        }
    }
    v
}
pub fn enc_ping(id: u8, time: i64, guid: u64) -> Vec<u8> {
    let mut v = vec![id];
    v.extend_from_slice(&time.to_be_bytes());
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&guid.to_be_bytes());
    v
}
pub fn enc_pong(time: i64, guid: u64, motd: &[u8]) -> Vec<u8> {
    let mut v = vec![0x1c];
    v.extend_from_slice(&time.to_be_bytes());
    v.extend_from_slice(&guid.to_be_bytes());
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&(motd.len() as u16).to_be_bytes());
    v.extend_from_slice(motd);
    v
}
pub fn enc_req1(version: u8, total: usize) -> Vec<u8> {
    let mut v = vec![5];
    v.extend_from_slice(&MAGIC);
    v.push(version);
    v.resize(total.max(18), 0);
    v
}
pub fn enc_reply1(guid: u64, mtu: u16) -> Vec<u8> {
    let mut v = vec![6];
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&guid.to_be_bytes());
    v.push(0);
    v.extend_from_slice(&mtu.to_be_bytes());
    v
}
pub fn enc_req2(addr: SocketAddr, mtu: u16, guid: u64) -> Vec<u8> {
    let mut v = vec![7];
    v.extend_from_slice(&MAGIC);
    put_addr(&mut v, addr);
    v.extend_from_slice(&mtu.to_be_bytes());
    v.extend_from_slice(&guid.to_be_bytes());
    v
}
pub fn enc_reply2(guid: u64, addr: SocketAddr, mtu: u16) -> Vec<u8> {
    let mut v = vec![8];
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&guid.to_be_bytes());
    put_addr(&mut v, addr);
    v.extend_from_slice(&mtu.to_be_bytes());
    v.push(0);
    v
}
pub fn enc_already(id: u8, guid: u64) -> Vec<u8> {
    let mut v = vec![id];
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&guid.to_be_bytes());
    v
}
pub fn enc_incompatible(version: u8, guid: u64) -> Vec<u8> {
    let mut v = vec![0x19, version];
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&guid.to_be_bytes());
    v
}
pub fn enc_conn_request(guid: u64, time: i64) -> Vec<u8> {
    let mut v = vec![9];
    v.extend_from_slice(&guid.to_be_bytes());
    v.extend_from_slice(&time.to_be_bytes());
    v.push(0);
    v
}
fn put_addrs(v: &mut Vec<u8>, v6: bool, n: usize) {
    for _ in 0..n {
        put_addr(v, if v6 { "[::]:0".parse().unwrap() } else { "255.255.255.255:0".parse().unwrap() });
    }
}
pub fn enc_accepted(addr: SocketAddr, t0: i64, t1: i64) -> Vec<u8> {
    enc_accepted_n(addr, t0, t1, 10)
}
pub fn enc_accepted_n(addr: SocketAddr, t0: i64, t1: i64, n: usize) -> Vec<u8> {
    let mut v = vec![0x10];
    put_addr(&mut v, addr);
    v.extend_from_slice(&[0, 0]);
    put_addrs(&mut v, addr.is_ipv6(), n);
    v.extend_from_slice(&t0.to_be_bytes());
    v.extend_from_slice(&t1.to_be_bytes());
    v
}
pub fn enc_incoming(addr: SocketAddr, t0: i64, t1: i64) -> Vec<u8> {
    enc_incoming_n(addr, t0, t1, 10)
}
pub fn enc_incoming_n(addr: SocketAddr, t0: i64, t1: i64, n: usize) -> Vec<u8> {
    let mut v = vec![0x13];
    put_addr(&mut v, addr);
    put_addrs(&mut v, addr.is_ipv6(), n);
    v.extend_from_slice(&t0.to_be_bytes());
    v.extend_from_slice(&t1.to_be_bytes());
    v
}
pub fn enc_conn_ping(t: i64) -> Vec<u8> {
    let mut v = vec![0];
    v.extend_from_slice(&t.to_be_bytes());
    v
}

fn dec_ranges(r: &mut Rd) -> R<Vec<(u32, u32)>> {
    let n = r.u16()?;
    let mut v = vec![];
    for _ in 0..n {
        let single = r.u8()?;
        let a = r.u24le()?;
        let b = match single {
            1 => a,
            0 => r.u24le()?,
            x => return Err(format!("record type {x}")),
        };
        if b < a {
            return Err(format!("range {a}..{b} runs backwards"));
        }
        v.push((a, b));
    }
    if n == 0 {
        return Err("no records".into());
    }
    r.end()?;
    Ok(v)
}

pub fn dec_frames(b: &[u8]) -> R<(u8, u32, Vec<Frame>)> {
    let mut r = Rd(b);
    let id = r.u8()?;
    if !(0x80..=0x8d).contains(&id) {
        return Err(format!("frame set id {id:#x}"));
    }
    let seq = r.u24le()?;
    let mut frames = vec![];
    while !r.0.is_empty() {
        let flags = r.u8()?;
        let rel = flags >> 5;
        if rel > 4 {
            return Err(format!("reliability {rel}"));
        }
        if flags & 0x0f != 0 {
            return Err(format!("unknown flag bits {flags:#x}"));
        }
        let bits = r.u16()?;
        if bits == 0 {
            return Err("empty frame".into());
        }
        let len = (bits as usize).div_ceil(8);
        let mut f = Frame { rel, ..Default::default() };
        if is_reliable(rel) {
            f.ridx = r.u24le()?;
        }
        if is_sequenced(rel) {
            f.sidx = r.u24le()?;
        }
        if has_order(rel) {
            f.oidx = r.u24le()?;
            f.chan = r.u8()?;
            if f.chan > 31 {
                return Err(format!("order channel {}", f.chan));
            }
        }
        if flags & 0x10 != 0 {
            let s = (r.u32()?, r.u16()?, r.u32()?);
            if s.0 == 0 || s.2 >= s.0 {
                return Err(format!("fragment {} of {}", s.2, s.0));
            }
            f.split = Some(s);
        }
        f.data = r.take(len)?.to_vec();
        frames.push(f);
    }
    if frames.is_empty() {
        return Err("no frames".into());
    }
    Ok((id, seq, frames))
}

pub fn decode(b: &[u8]) -> R<Dg> {
    let mut r = Rd(b);
    let id = r.u8()?;
    let d = match id {
        1 | 2 => {
            let time = r.i64()?;
            r.magic()?;
            r.u64()?;
            Dg::Ping { time }
        }
        0x1c => {
            let time = r.i64()?;
            let guid = r.u64()?;
            r.magic()?;
            let n = r.u16()?;
            Dg::Pong { time, guid, motd: r.take(n as usize)?.to_vec() }
        }
        5 => {
            r.magic()?;
            let version = r.u8()?;
            r.0 = &[];
            Dg::Req1 { version, len: b.len() }
        }
        6 => {
            r.magic()?;
            Dg::Reply1 { guid: r.u64()?, security: r.u8()?, mtu: r.u16()? }
        }
        7 => {
            r.magic()?;
            Dg::Req2 { addr: r.addr()?, mtu: r.u16()?, guid: r.u64()? }
        }
        8 => {
            r.magic()?;
            Dg::Reply2 { guid: r.u64()?, addr: r.addr()?, mtu: r.u16()?, encryption: r.u8()? }
        }
        0x12 => {
            r.magic()?;
            Dg::Already { guid: r.u64()? }
        }
        0x19 => {
            let version = r.u8()?;
            r.magic()?;
            Dg::Incompatible { version, guid: r.u64()? }
        }
        0x15 => Dg::Disconnect,
        ACK => return Ok(Dg::Ack(dec_ranges(&mut r)?)),
        NACK => return Ok(Dg::Nack(dec_ranges(&mut r)?)),
        0x80..=0x8d => {
            let (id, seq, frames) = dec_frames(b)?;
            return Ok(Dg::Frames { id, seq, frames });
        }
        x => return Err(format!("unknown datagram id {x:#x}")),
    };
    r.end()?;
    Ok(d)
}

pub fn decode_inner(b: &[u8]) -> R<Inner> {
    let mut r = Rd(b);
    let d = match r.u8()? {
        9 => Inner::Request { guid: r.u64()?, time: r.i64()?, security: r.u8()? },
        0x10 => {
            let addr = r.addr()?;
            r.u16()?;
            for _ in 0..10 {
                r.addr()?;
            }
            let request = r.i64()?;
            r.i64()?;
            Inner::Accepted { addr, request }
        }
        0x13 => {
            let addr = r.addr()?;
            for _ in 0..10 {
                r.addr()?;
            }
            r.i64()?;
            r.i64()?;
            Inner::Incoming { addr }
        }
        0 => Inner::Ping(r.i64()?),
        3 => Inner::Pong(r.i64()?, r.i64()?),
        0x15 => Inner::Disconnect,
        0xfe => return Ok(Inner::User),
        x => return Err(format!("unknown message id {x:#x}")),
    };
    r.end()?;
    Ok(d)
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(64).map(|x| format!("{x:02x}")).collect();
    if b.len() > 64 {
        s.push_str(&format!("..({})", b.len()));
    }
    s
}
