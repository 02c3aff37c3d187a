//! A node on the loopback network: handshake, find-intersection and block-fetch, with faults.
use cardano_sdk::protocol as p;
use cbored::{Reader, Writer};
use cml_multi_era::Raw;
use common::Rng;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::watch;

#[derive(Debug)]
pub struct Blk {
    pub raw: Raw,
    pub bytes: Vec<u8>,
}

impl Blk {
    pub fn point(&self) -> p::Point {
        p::Point::from_raw(self.raw.slot, &hex(&self.raw.hash)).unwrap()
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub type Chain = Vec<Arc<Blk>>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    /// the connection is closed ...
    OnAccept,
    AfterPropose,
    AfterHandshake,
    OnIntersect,
    InIntersectReply,
    OnRange,
    AfterStart,
    AfterBlocks(usize),
    InBlock(usize),
    BeforeDone,
    /// ... and the rest keep it open
    RefuseHandshake,
    NoBlocks,
    WrongIntersectReply,
    WrongRangeReply,
    WrongBlockReply(usize),
    BadBlock(usize),
    /// the node changes its chain between the two requests
    Reorg,
}

/// One find-intersection request and what followed.
#[derive(Debug, Clone)]
pub struct Req {
    pub points: Vec<p::Point>,
    pub chain: Chain,
    pub found: Option<Option<usize>>,
    pub range: Option<(p::Point, p::Point)>,
    pub served: bool,
    /// something happened to this request: what follows may be cut short
    pub cut: bool,
    /// this block was replaced by nonsense
    pub bad: Option<usize>,
    pub done: bool,
}

#[derive(Default)]
pub struct State {
    pub chain: Chain,
    pub reorg_to: Option<Chain>,
    pub fault: Option<Fault>,
    pub log: Vec<Req>,
    pub handshakes: Vec<p::HandshakeNode>,
    pub accepted: usize,
    pub faults_hit: Vec<Fault>,
    pub protocol_error: Option<String>,
    pub slow: bool,
    /// this block stays undecodable for so many requests
    pub poison: Option<(u64, u32)>,
}

pub struct Node {
    pub st: Arc<Mutex<State>>,
    pub ip: Ipv4Addr,
    pub port: u16,
    kill: watch::Sender<u64>,
    listener: Option<tokio::task::JoinHandle<()>>,
    rng: Rng,
}

impl Node {
    pub async fn start(chain: Chain, ip: Ipv4Addr, rng: Rng) -> Result<Node, String> {
        let mut n = Node {
            st: Arc::new(Mutex::new(State { chain, ..Default::default() })),
            ip,
            port: 0,
            kill: watch::channel(0).0,
            listener: None,
            rng,
        };
        n.up().await?;
        Ok(n)
    }

    pub async fn up(&mut self) -> Result<(), String> {
        if self.listener.is_some() {
            return Ok(());
        }
        let l = TcpListener::bind(SocketAddrV4::new(self.ip, self.port)).await.map_err(|e| format!("bind: {e}"))?;
        self.port = l.local_addr().unwrap().port();
        let (st, kill, mut rng) = (self.st.clone(), self.kill.subscribe(), self.rng.fork());
        self.listener = Some(tokio::spawn(async move {
            while let Ok((sock, _)) = l.accept().await {
                let (st, mut kill, rng) = (st.clone(), kill.clone(), rng.fork());
                kill.mark_unchanged();
                tokio::spawn(async move {
                    tokio::select! {
                        _ = kill.changed() => {
                            // whatever request was under way is cut
                            if let Some(r) = st.lock().unwrap().log.last_mut() { if !r.done { r.cut = true; } }
                        }
                        _ = serve(sock, st.clone(), rng) => {}
                    }
                });
            }
        }));
        Ok(())
    }

    pub async fn down(&mut self) {
        if let Some(l) = self.listener.take() {
            l.abort();
            let _ = l.await;
        }
    }

    pub fn kill_connections(&self) {
        // what the node has sent may not have been read yet, so this cuts the last request even if
        // the node is done with it
        if let Some(r) = self.st.lock().unwrap().log.last_mut() {
            r.cut = true;
        }
        self.kill.send_modify(|x| *x += 1);
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.kill_connections();
        if let Some(l) = self.listener.take() {
            l.abort();
        }
    }
}

struct Conn {
    sock: TcpStream,
    rng: Rng,
    out: Vec<(u16, Vec<u8>)>,
    slow: bool,
    /// the request this connection is serving
    req: Option<usize>,
}

impl Conn {
    fn push(&mut self, id: u16, bytes: Vec<u8>) {
        self.out.push((id, bytes));
    }
    fn cbor<T: cbored::Encode>(&mut self, id: u16, t: &T) {
        let mut w = Writer::new();
        w.encode(t);
        self.push(id, w.finalize());
    }
    /// Sends what is queued, in frames that split and join the messages at random.
    async fn flush(&mut self) -> Option<()> {
        let out = std::mem::take(&mut self.out);
        let mut wire = vec![];
        let mut i = 0;
        while i < out.len() {
            let id = out[i].0;
            let mut all = vec![];
            let joined = 1 + self.rng.below(4);
            let mut n = 0;
            while i < out.len() && out[i].0 == id && n < joined {
                all.extend_from_slice(&out[i].1);
                i += 1;
                n += 1;
            }
            let mut at = 0;
            while at < all.len() {
                let max = match self.rng.below(6) {
                    0 if all.len() < 3000 => 1 + self.rng.below(9),
                    1 | 2 => 1 + self.rng.below(200.max(all.len() / 20)),
                    _ => 65535,
                };
                let l = max.min(all.len() - at).min(65535);
                wire.extend_from_slice(&((0x8000u64 | id as u64) << 16 | l as u64).to_be_bytes());
                wire.extend_from_slice(&all[at..at + l]);
                at += l;
            }
        }
        let mut at = 0;
        while at < wire.len() {
            let l = if self.slow { (1 + self.rng.below(4000)).min(wire.len() - at) } else { wire.len() - at };
            self.sock.write_all(&wire[at..at + l]).await.ok()?;
            at += l;
            if self.slow {
                tokio::time::sleep(Duration::from_micros(self.rng.below(400) as u64)).await;
            }
        }
        self.sock.flush().await.ok()
    }
    /// Half of the next message, then the connection ends.
    async fn half(&mut self, id: u16, bytes: Vec<u8>) {
        let h = self.rng.below(bytes.len().max(1));
        self.push(id, bytes[..h].to_vec());
        self.flush().await;
    }
}

pub fn block_message(b: &[u8]) -> Vec<u8> {
    // [4, 24(bytes)]
    let mut v = vec![0x82, 0x04, 0xd8, 0x18];
    match b.len() {
        l @ 0..=23 => v.push(0x40 | l as u8),
        l @ 24..=255 => v.extend([0x58, l as u8]),
        l @ 256..=65535 => {
            v.push(0x59);
            v.extend((l as u16).to_be_bytes());
        }
        l => {
            v.push(0x5a);
            v.extend((l as u32).to_be_bytes());
        }
    }
    v.extend(b);
    v
}

fn enc<T: cbored::Encode>(t: &T) -> Vec<u8> {
    let mut w = Writer::new();
    w.encode(t);
    w.finalize()
}

async fn serve(sock: TcpStream, st: Arc<Mutex<State>>, mut rng: Rng) {
    let _ = sock.set_nodelay(true);
    let slow = {
        let mut s = st.lock().unwrap();
        s.accepted += 1;
        s.slow && rng.chance(1, 2)
    };
    let mut c = Conn { sock, rng, out: vec![], slow, req: None };
    let _ = talk(&mut c, &st).await;
    // an orderly end: what was sent arrives
    let _ = c.sock.shutdown().await;
    let mut sink = [0; 4096];
    let _ = tokio::time::timeout(Duration::from_millis(200), async { while matches!(c.sock.read(&mut sink).await, Ok(n) if n > 0) {} }).await;
}

/// is this fault due now?
fn due(st: &Mutex<State>, req: Option<usize>, f: impl Fn(&Fault) -> bool) -> Option<Fault> {
    let mut s = st.lock().unwrap();
    if s.fault.as_ref().is_some_and(&f) {
        let x = s.fault.take().unwrap();
        s.faults_hit.push(x);
        if let Some(r) = req {
            s.log[r].cut = true;
        }
        return Some(x);
    }
    None
}

async fn talk(c: &mut Conn, st: &Mutex<State>) -> Option<()> {
    if due(st, c.req, |f| *f == Fault::OnAccept).is_some() {
        return None;
    }
    let mut bufs: [Vec<u8>; 8] = Default::default();
    loop {
        let mut h = [0; 8];
        c.sock.read_exact(&mut h).await.ok()?;
        let (id, len) = (u16::from_be_bytes([h[4], h[5]]), u16::from_be_bytes([h[6], h[7]]) as usize);
        let mut b = vec![0; len];
        c.sock.read_exact(&mut b).await.ok()?;
        if id > 7 {
            st.lock().unwrap().protocol_error = Some(format!("frame of protocol {id}"));
            return None;
        }
        bufs[id as usize].extend(b);
        if !cbor_complete(&bufs[id as usize]) {
            continue;
        }
        let msg = std::mem::take(&mut bufs[id as usize]);
        let mut r = Reader::new(&msg);
        match id {
            0 => {
                let Ok(m) = r.decode::<p::HandshakeNode>() else {
                    st.lock().unwrap().protocol_error = Some("undecodable handshake".into());
                    return None;
                };
                st.lock().unwrap().handshakes.push(m);
                if due(st, c.req, |f| *f == Fault::AfterPropose).is_some() {
                    return None;
                }
                if due(st, c.req, |f| *f == Fault::RefuseHandshake).is_some() {
                    c.cbor(0, &p::HandshakeNode::Refuse(p::RefuseReason::Refused(p::Version::V7, "no".into())));
                    // the handshake is read as one frame
                    return c.flush_whole().await;
                }
                c.cbor(0, &p::HandshakeNode::Accept(p::Version::V8, p::HandshakeNodeData { magic: p::Magic(1), diffusion: p::DiffusionMode::InitiatorOnly }));
                c.flush_whole().await?;
                if due(st, c.req, |f| *f == Fault::AfterHandshake).is_some() {
                    return None;
                }
            }
            2 => match r.decode::<p::ChainSync>() {
                Ok(p::ChainSync::FindIntersect(points)) => intersect(c, st, points).await?,
                _ => {
                    st.lock().unwrap().protocol_error = Some("unexpected chain-sync message".into());
                    return None;
                }
            },
            3 => match r.decode::<p::BlockFetch>() {
                Ok(p::BlockFetch::RequestRange { from, to }) => range(c, st, from, to).await?,
                _ => {
                    st.lock().unwrap().protocol_error = Some("unexpected block-fetch message".into());
                    return None;
                }
            },
            _ => {}
        }
    }
}

fn cbor_complete(b: &[u8]) -> bool {
    cbored::validate::Validator::new(b).next().is_ok()
}

impl Conn {
    async fn flush_whole(&mut self) -> Option<()> {
        for (id, b) in std::mem::take(&mut self.out) {
            let mut w = ((0x8000u64 | id as u64) << 16 | b.len() as u64).to_be_bytes().to_vec();
            w.extend(b);
            self.sock.write_all(&w).await.ok()?;
        }
        Some(())
    }
}

async fn intersect(c: &mut Conn, st: &Mutex<State>, points: p::Points) -> Option<()> {
    let reply = {
        let mut s = st.lock().unwrap();
        let chain = s.chain.clone();
        let tip = match chain.last() {
            Some(b) => p::Tip { point: b.point(), block_number: b.raw.number },
            None => p::Tip::ORIGIN,
        };
        // the node takes the first of the points that is on its chain
        let mut found = None;
        for q in points.iter() {
            if *q == p::Point::Origin {
                found = Some(None);
            } else if let Some(i) = chain.iter().position(|b| b.point() == *q) {
                found = Some(Some(i));
            } else {
                continue;
            }
            break;
        }
        let reply = match found {
            None => p::ChainSync::IntersectionNotFound(tip),
            Some(None) => p::ChainSync::IntersectionFound(p::Point::Origin, tip),
            Some(Some(i)) => p::ChainSync::IntersectionFound(chain[i].point(), tip),
        };
        c.req = Some(s.log.len());
        s.log.push(Req { points: points.as_ref().to_vec(), chain, found, range: None, served: false, cut: false, bad: None, done: found.is_none() });
        reply
    };
    // a fault here cuts this request, whether or not more would have followed
    if due(st, c.req, |f| *f == Fault::OnIntersect).is_some() {
        return None;
    }
    if due(st, c.req, |f| *f == Fault::InIntersectReply).is_some() {
        c.half(2, enc(&reply)).await;
        return None;
    }
    if due(st, c.req, |f| *f == Fault::WrongIntersectReply).is_some() {
        c.cbor(2, &p::ChainSync::AwaitReply);
        return c.flush().await;
    }
    if matches!(reply, p::ChainSync::IntersectionFound(..)) && due(st, c.req, |f| *f == Fault::Reorg).is_some() {
        let mut s = st.lock().unwrap();
        if let Some(x) = s.reorg_to.take() {
            s.chain = x;
        }
    }
    c.cbor(2, &reply);
    c.flush().await
}

async fn range(c: &mut Conn, st: &Mutex<State>, from: p::Point, to: p::Point) -> Option<()> {
    let blocks = {
        let mut s = st.lock().unwrap();
        let at = |q: &p::Point| s.chain.iter().position(|b| b.point() == *q);
        let blocks = match (at(&from), at(&to)) {
            (Some(a), Some(b)) if a <= b => Some(s.chain[a..=b].to_vec()),
            _ => None,
        };
        let Some(r) = c.req.map(|i| &mut s.log[i]) else {
            s.protocol_error = Some("a range without an intersection".into());
            return None;
        };
        r.range = Some((from, to));
        r.served = blocks.is_some();
        blocks
    };
    if due(st, c.req, |f| *f == Fault::OnRange).is_some() {
        return None;
    }
    if due(st, c.req, |f| *f == Fault::WrongRangeReply).is_some() {
        c.cbor(3, &p::BlockFetch::BatchDone);
        return c.flush().await;
    }
    let no = due(st, c.req, |f| *f == Fault::NoBlocks).is_some();
    let Some(blocks) = blocks.filter(|_| !no) else {
        {
            let mut s = st.lock().unwrap();
            let r = &mut s.log[c.req.unwrap()];
            r.served = false;
            r.done = true;
        }
        c.cbor(3, &p::BlockFetch::NoBlocks);
        return c.flush().await;
    };
    c.cbor(3, &p::BlockFetch::StartBatch);
    if due(st, c.req, |f| *f == Fault::AfterStart).is_some() {
        c.flush().await;
        return None;
    }
    let n = blocks.len();
    for (i, b) in blocks.iter().enumerate() {
        if due(st, c.req, |f| *f == Fault::AfterBlocks(i)).is_some() {
            c.flush().await;
            return None;
        }
        let mut m = block_message(&b.bytes);
        if due(st, c.req, |f| *f == Fault::InBlock(i)).is_some() {
            c.flush().await;
            c.half(3, m).await;
            return None;
        }
        if due(st, c.req, |f| *f == Fault::WrongBlockReply(i)).is_some() {
            c.cbor(3, &p::BlockFetch::NoBlocks);
            return c.flush().await;
        }
        let bad = {
            let mut s = st.lock().unwrap();
            let r = c.req.unwrap();
            match s.poison {
                _ if s.log[r].bad.is_some() => Some(false),
                Some((slot, left)) if slot == b.raw.slot && left > 0 => {
                    s.poison = Some((slot, left - 1));
                    s.log[r].cut = true;
                    Some(true)
                }
                _ => None,
            }
        };
        let first = bad.is_none() && due(st, c.req, |f| *f == Fault::BadBlock(i)).is_some();
        if first && c.rng.chance(2, 3) {
            let left = c.rng.range(1, 3) as u32;
            let mut s = st.lock().unwrap();
            s.poison = Some((b.raw.slot, left));
        }
        if first || bad == Some(true) {
            st.lock().unwrap().log[c.req.unwrap()].bad = Some(i);
            m = block_message(&b.bytes[..b.bytes.len().min(50)]);
        }
        c.push(3, m);
        if c.rng.chance(1, 3) {
            c.flush().await?;
        }
        let _ = n;
    }
    if due(st, c.req, |f| *f == Fault::BeforeDone).is_some() {
        c.flush().await;
        return None;
    }
    c.cbor(3, &p::BlockFetch::BatchDone);
    let ok = c.flush().await;
    st.lock().unwrap().log[c.req.unwrap()].done = true;
    ok
}
