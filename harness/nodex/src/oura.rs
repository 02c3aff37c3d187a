//! The chain-sync fetcher, against a node that rolls its chain forwards and backwards.
use crate::tools::{program, Child, LINE_WAIT};
use common::{ensure, ensure_eq, Case, Rng, R};
use std::collections::VecDeque;
use std::net::Ipv4Addr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::net::{TcpListener, UnixListener};

// ---- CBOR

pub fn head(major: u8, n: u64) -> Vec<u8> {
    let m = major << 5;
    match n {
        0..=23 => vec![m | n as u8],
        24..=0xff => vec![m | 24, n as u8],
        0x100..=0xffff => [&[m | 25][..], &(n as u16).to_be_bytes()].concat(),
        0x1_0000..=0xffff_ffff => [&[m | 26][..], &(n as u32).to_be_bytes()].concat(),
        _ => [&[m | 27][..], &n.to_be_bytes()].concat(),
    }
}
fn uint(n: u64) -> Vec<u8> {
    head(0, n)
}
fn bytes(b: &[u8]) -> Vec<u8> {
    [head(2, b.len() as u64), b.to_vec()].concat()
}
fn text(s: &str) -> Vec<u8> {
    [head(3, s.len() as u64), s.as_bytes().to_vec()].concat()
}
fn array(xs: &[Vec<u8>]) -> Vec<u8> {
    [head(4, xs.len() as u64), xs.concat()].concat()
}
fn map(xs: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut v = head(5, xs.len() as u64);
    for (k, x) in xs {
        v.extend_from_slice(k);
        v.extend_from_slice(x);
    }
    v
}
fn tag24(b: &[u8]) -> Vec<u8> {
    [vec![0xd8, 24], bytes(b)].concat()
}

/// An item of what the program sends.
#[derive(Debug, Clone, PartialEq)]
enum V {
    U(u64),
    B(Vec<u8>),
    A(Vec<V>),
    M(Vec<(V, V)>),
    Bool(bool),
    Other,
}

fn parse(b: &[u8], at: &mut usize) -> Option<V> {
    let h = *b.get(*at)?;
    *at += 1;
    let (major, low) = (h >> 5, h & 31);
    if major == 7 {
        return Some(match low {
            20 => V::Bool(false),
            21 => V::Bool(true),
            _ => V::Other,
        });
    }
    let mut n = low as u64;
    let indefinite = low == 31;
    if (24..=27).contains(&low) {
        let l = 1usize << (low - 24);
        n = b.get(*at..*at + l)?.iter().fold(0, |a, x| a << 8 | *x as u64);
        *at += l;
    }
    let mut items = |k: usize, at: &mut usize| -> Option<Vec<V>> {
        let mut v = vec![];
        let mut i = 0;
        while indefinite || i < n * k as u64 {
            if indefinite && *b.get(*at)? == 0xff {
                *at += 1;
                break;
            }
            v.push(parse(b, at)?);
            i += 1;
        }
        Some(v)
    };
    Some(match major {
        0 => V::U(n),
        2 | 3 => {
            let x = b.get(*at..*at + n as usize)?.to_vec();
            *at += n as usize;
            V::B(x)
        }
        4 => V::A(items(1, at)?),
        5 => V::M(items(2, at)?.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()),
        6 => parse(b, at)?,
        _ => V::Other,
    })
}

// ---- blocks

type Hash = [u8; 32];

fn blake(b: &[u8]) -> Hash {
    use cryptoxide::{blake2b::Blake2b, digest::Digest};
    let mut h = Blake2b::new(32);
    h.input(b);
    let mut out = [0; 32];
    h.result(&mut out);
    out
}

#[derive(Debug)]
pub struct Blk {
    era: u8,
    number: u64,
    slot: u64,
    hash: Hash,
    /// what a header announcement carries
    header: Vec<u8>,
    cbor: Vec<u8>,
}

impl Blk {
    fn point(&self) -> Vec<u8> {
        array(&[uint(self.slot), bytes(&self.hash)])
    }
    pub fn line(&self) -> String {
        format!("Block #{}, point: {}@{}, raw cbor hex: {}", self.number, crate::node::hex(&self.hash), self.slot, crate::node::hex(&self.cbor))
    }
}

fn rand_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}

fn tx(r: &mut Rng, era: u8) -> Vec<u8> {
    let inputs: Vec<Vec<u8>> = (0..1 + r.below(3)).map(|_| array(&[bytes(&rand_bytes(r, 32)), uint(r.below(300) as u64)])).collect();
    let outputs: Vec<Vec<u8>> = (0..r.below(4))
        .map(|_| {
            let address = bytes(&[&[0x61][..], &rand_bytes(r, 28)].concat());
            let coin = uint(r.next() >> 20);
            if era >= 6 && r.chance(1, 2) {
                map(&[(uint(0), address), (uint(1), coin)])
            } else {
                array(&[address, coin])
            }
        })
        .collect();
    map(&[(uint(0), array(&inputs)), (uint(1), array(&outputs)), (uint(2), uint(170_000 + r.below(1 << 20) as u64))])
}

/// a block of an era: 1 Byron, 2..=5 Shelley to Alonzo, 6 Babbage, 7 Conway
fn block(r: &mut Rng, era: u8, number: u64, slot: u64, prev: Hash) -> Arc<Blk> {
    let h32 = |r: &mut Rng| bytes(&rand_bytes(r, 32));
    if era == 1 {
        let proof = array(&[array(&[uint(0), h32(r), h32(r)]), array(&[uint(3), h32(r)]), h32(r), h32(r)]);
        let sig = array(&[uint(0), bytes(&rand_bytes(r, 64))]);
        let cons = array(&[array(&[uint(slot / 21600), uint(slot % 21600)]), bytes(&rand_bytes(r, 64)), array(&[uint(number)]), sig]);
        let extra = array(&[array(&[uint(0), uint(1), uint(0)]), array(&[text("cardano-sl"), uint(1)]), map(&[]), h32(r)]);
        let header = array(&[uint(764824073), bytes(&prev), proof, cons, extra]);
        let hash = blake(&array(&[uint(1), header.clone()]));
        let ssc = array(&[uint(3), [vec![0xd9, 1, 2], array(&[])].concat()]);
        let body = array(&[array(&[]), ssc, array(&[]), array(&[array(&[]), array(&[])])]);
        let cbor = array(&[uint(1), array(&[header.clone(), body, array(&[map(&[])])])]);
        let header = array(&[uint(0), array(&[array(&[uint(1), uint(cbor.len() as u64)]), tag24(&header)])]);
        return Arc::new(Blk { era, number, slot, hash, header, cbor });
    }
    let vrf = |r: &mut Rng| array(&[bytes(&rand_bytes(r, 64)), bytes(&rand_bytes(r, 80))]);
    let txs: Vec<Vec<u8>> = (0..*r.pick(&[0, 0, 1, 2, 5])).map(|_| tx(r, era)).collect();
    let mut f = vec![uint(number), uint(slot), bytes(&prev), h32(r), h32(r), vrf(r)];
    if era < 6 {
        f.push(vrf(r));
    }
    f.extend([uint(txs.concat().len() as u64), h32(r)]);
    let cert = [h32(r), uint(r.below(90) as u64), uint(r.below(90) as u64), bytes(&rand_bytes(r, 64))];
    let ver = [uint(era as u64), uint(0)];
    if era < 6 {
        f.extend(cert);
        f.extend(ver);
    } else {
        f.push(array(&cert));
        f.push(array(&ver));
    }
    let header = array(&[array(&f), bytes(&rand_bytes(r, 448))]);
    let hash = blake(&header);
    let wits: Vec<Vec<u8>> = txs.iter().map(|_| map(&[])).collect();
    let mut b = vec![header.clone(), array(&txs), array(&wits), map(&[])];
    if era >= 5 {
        b.push(array(&[]));
    }
    let cbor = array(&[uint(era as u64), array(&b)]);
    let header = array(&[uint(era as u64 - 1), tag24(&header)]);
    Arc::new(Blk { era, number, slot, hash, header, cbor })
}

// ---- the node

#[derive(Clone)]
enum Op {
    Forward(Arc<Blk>),
    /// to a position of the script's branch, None: the origin
    Back(Option<Arc<Blk>>),
}

struct State {
    /// every block the node has ever had
    known: Vec<Arc<Blk>>,
    /// what each connection is told, by the point it starts from; the last one is for all that follow
    scripts: Vec<Script>,
    connections: usize,
    magics: Vec<Vec<u64>>,
    intersects: Vec<Vec<V>>,
    error: Option<String>,
    told: usize,
    awaits: usize,
    fetches: usize,
}

#[derive(Clone, Default)]
struct Script {
    ops: VecDeque<Op>,
    /// the connection ends after this many announcements
    cut: Option<usize>,
    has_since: bool,
}

async fn serve<S: AsyncRead + AsyncWrite + Unpin>(mut s: S, local: bool, st: Arc<Mutex<State>>, mut rng: Rng) -> Option<()> {
    let mut script = {
        let mut t = st.lock().unwrap();
        t.connections += 1;
        let i = (t.connections - 1).min(t.scripts.len() - 1);
        t.scripts[i].clone()
    };
    let tip = {
        let b = st.lock().unwrap().known.last().cloned().unwrap();
        array(&[b.point(), uint(b.number)])
    };
    let sync = if local { 5 } else { 2 };
    let mut bufs: [Vec<u8>; 8] = Default::default();
    let mut input: Vec<u8> = vec![];
    // announcements asked for, and blocks to send, that wait
    let mut asked = false;
    let mut awaited = false;
    let mut fetch: VecDeque<Vec<u8>> = VecDeque::new();
    let mut told = 0;
    let mut chunk = [0; 4096];
    let fail = |e: String| {
        st.lock().unwrap().error.get_or_insert(e);
    };
    loop {
        let idle = match tokio::time::timeout(Duration::from_micros(200 + rng.below(1500) as u64), s.read(&mut chunk)).await {
            Ok(Ok(0)) | Ok(Err(_)) => return None,
            Ok(Ok(n)) => {
                input.extend_from_slice(&chunk[..n]);
                false
            }
            Err(_) => true,
        };
        let mut out: Vec<(u16, Vec<u8>)> = vec![];
        while input.len() >= 8 {
            let (id, len) = (u16::from_be_bytes([input[4], input[5]]) as usize, u16::from_be_bytes([input[6], input[7]]) as usize);
            if input.len() < 8 + len {
                break;
            }
            if id >= bufs.len() {
                fail(format!("frame of protocol {id}"));
                return None;
            }
            bufs[id].extend_from_slice(&input[8..8 + len]);
            input.drain(..8 + len);
            let mut at = 0;
            let Some(m) = parse(&bufs[id], &mut at) else { continue };
            bufs[id].drain(..at);
            let V::A(m) = m else { return None };
            match (id, &m[..]) {
                (0, [V::U(0), V::M(versions)]) => {
                    let mut magics: Vec<u64> = versions
                        .iter()
                        .map(|(_, d)| match d {
                            V::U(m) => *m,
                            V::A(x) => match x[0] {
                                V::U(m) => m,
                                _ => u64::MAX,
                            },
                            _ => u64::MAX,
                        })
                        .collect();
                    magics.dedup();
                    let magic = magics[0];
                    st.lock().unwrap().magics.push(magics);
                    let accept = if local {
                        array(&[uint(1), uint(32778), uint(magic)])
                    } else {
                        array(&[uint(1), uint(10), array(&[uint(magic), vec![0xf4]])])
                    };
                    out.push((0, accept));
                }
                (x, [V::U(4), V::A(points)]) if x == sync => {
                    st.lock().unwrap().intersects.push(points.clone());
                    if script.has_since {
                        let at = match &script.ops[0] {
                            Op::Back(Some(b)) => b.point(),
                            _ => array(&[]),
                        };
                        out.push((sync as u16, array(&[uint(5), at, tip.clone()])));
                    } else {
                        out.push((sync as u16, array(&[uint(6), tip.clone()])));
                    }
                }
                (x, [V::U(0)]) if x == sync => {
                    if asked {
                        fail("the next announcement was asked for twice".into());
                    }
                    asked = true;
                    awaited = false;
                }
                (3, [V::U(0), a, b]) if !local => {
                    let want: Vec<V> = st.lock().unwrap().known.iter().map(|b| V::A(vec![V::U(b.slot), V::B(b.hash.to_vec())])).collect();
                    let Some(i) = want.iter().position(|p| p == a).filter(|_| a == b) else {
                        fail(format!("a range from {a:?} to {b:?} was asked for"));
                        return None;
                    };
                    let b = st.lock().unwrap().known[i].clone();
                    st.lock().unwrap().fetches += 1;
                    fetch.push_back(array(&[uint(4), tag24(&b.cbor)]));
                }
                (_, [V::U(1 | 7)]) => {}
                _ => {
                    fail(format!("unexpected message of protocol {id}: {m:?}"));
                    return None;
                }
            }
        }
        if asked && (awaited || rng.chance(3, 4)) {
            if script.cut == Some(told) {
                // what is queued may be lost
                return None;
            }
            if let Some(op) = script.ops.pop_front() {
                if !awaited && rng.chance(1, 8) {
                    out.push((sync as u16, array(&[uint(1)])));
                    st.lock().unwrap().awaits += 1;
                }
                let m = match op {
                    Op::Forward(b) => {
                        let content = if local { tag24(&b.cbor) } else { b.header.clone() };
                        array(&[uint(2), content, tip.clone()])
                    }
                    Op::Back(p) => array(&[uint(3), p.map(|b| b.point()).unwrap_or(array(&[])), tip.clone()]),
                };
                out.push((sync as u16, m));
                told += 1;
                st.lock().unwrap().told += 1;
                asked = false;
            } else if !awaited {
                out.push((sync as u16, array(&[uint(1)])));
                awaited = true;
            }
        } else if asked && idle && !awaited && rng.chance(1, 2) {
            // the answer comes later
            out.push((sync as u16, array(&[uint(1)])));
            st.lock().unwrap().awaits += 1;
            awaited = true;
        }
        if !fetch.is_empty() && (idle || rng.chance(1, 2)) {
            let b = fetch.pop_front().unwrap();
            out.push((3, array(&[uint(2)])));
            out.push((3, b));
            out.push((3, array(&[uint(5)])));
        }
        // frames that split and join the messages at random
        let mut i = 0;
        while i < out.len() {
            let (id, mut all) = out[i].clone();
            i += 1;
            while i < out.len() && out[i].0 == id && rng.chance(1, 2) {
                all.extend_from_slice(&out[i].1);
                i += 1;
            }
            let mut at = 0;
            while at < all.len() {
                let max = if rng.chance(1, 4) { 1 + rng.below(200.max(all.len() / 8)) } else { 65535 };
                let l = max.min(all.len() - at).min(65535);
                s.write_all(&((0x8000u64 | id as u64) << 16 | l as u64).to_be_bytes()).await.ok()?;
                s.write_all(&all[at..at + l]).await.ok()?;
                at += l;
            }
        }
        s.flush().await.ok()?;
    }
}

// ---- the monitor

pub fn run(c: &mut Case, cut: bool, ip: Ipv4Addr) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().map_err(|e| e.to_string())?;
    let r = rt.block_on(history(c, cut, ip));
    rt.shutdown_timeout(Duration::from_secs(1));
    r
}

async fn history(c: &mut Case, cut: bool, ip: Ipv4Addr) -> R {
    let r = &mut c.rng;
    let (magic_arg, magic, mainnet) = r.pick(&[("mainnet", 764824073, true), ("764824073", 764824073, true), ("preview", 2, false), ("preprod", 1, false), ("testnet", 1097911063, false), ("4", 4, false), ("2", 2, false)]).clone();
    // the node's first branch; eras only go forward
    let mut known: Vec<Arc<Blk>> = vec![];
    let mut era = if mainnet && r.chance(1, 2) { 1 } else { 2 + r.below(6) as u8 };
    let mut chain: Vec<Arc<Blk>> = vec![];
    let mut slot = r.below(4_000_000) as u64;
    let mut number = r.below(1 << 22) as u64;
    let grow = |r: &mut Rng, chain: &mut Vec<Arc<Blk>>, known: &mut Vec<Arc<Blk>>, n: usize, era: &mut u8, slot: &mut u64, number: &mut u64| {
        for _ in 0..n {
            if r.chance(1, 6) {
                *era = (*era + 1).min(7);
            }
            *slot += 1 + r.below(80) as u64;
            *number += 1;
            let prev = chain.last().map(|b| b.hash).unwrap_or([7; 32]);
            let b = block(r, *era, *number, *slot, prev);
            chain.push(b.clone());
            known.push(b);
        }
    };
    let n = r.range(1, 25);
    grow(r, &mut chain, &mut known, n, &mut era, &mut slot, &mut number);
    // from where
    let since = match r.below(6) {
        0 => None,
        _ => Some(r.below(chain.len())),
    };
    let unknown = !cut && since.is_some() && r.chance(1, 10);
    let mut ops: VecDeque<Op> = VecDeque::new();
    let mut expect: Vec<Arc<Blk>> = vec![];
    ops.push_back(Op::Back(since.map(|i| chain[i].clone())));
    let floor = since.map(|i| i + 1).unwrap_or(0);
    for b in &chain[floor..] {
        ops.push_back(Op::Forward(b.clone()));
        expect.push(b.clone());
    }
    for _ in 0..c.rng.below(4) {
        let r = &mut c.rng;
        if r.chance(1, 2) {
            let keep = r.range(floor, chain.len()).max(chain.len().saturating_sub(6));
            if keep < chain.len() {
                chain.truncate(keep);
                ops.push_back(Op::Back(chain.last().cloned()));
                c.count("rollbacks", 1);
                slot = chain.last().map(|b| b.slot).unwrap_or(slot);
                number = chain.last().map(|b| b.number).unwrap_or(number);
                era = chain.last().map(|b| b.era).unwrap_or(era);
            }
        }
        let r = &mut c.rng;
        let (at, n) = (chain.len(), r.range(1, 8));
        grow(r, &mut chain, &mut known, n, &mut era, &mut slot, &mut number);
        for b in &chain[at..] {
            ops.push_back(Op::Forward(b.clone()));
            expect.push(b.clone());
        }
    }
    let r = &mut c.rng;
    let whole = Script { ops, cut: None, has_since: !unknown };
    let mut scripts = vec![];
    let mut last_leg: Vec<Arc<Blk>> = vec![];
    if cut {
        let at = r.range(0, whole.ops.len());
        scripts.push(Script { cut: Some(at), ..whole.clone() });
        let mut ops: VecDeque<Op> = chain[floor..].iter().map(|b| Op::Forward(b.clone())).collect();
        ops.push_front(Op::Back(since.map(|i| chain[i].clone())));
        last_leg = chain[floor..].to_vec();
        scripts.push(Script { ops, cut: None, has_since: true });
    } else {
        scripts.push(whole);
    }
    let st = Arc::new(Mutex::new(State {
        known: known.clone(),
        scripts,
        connections: 0,
        magics: vec![],
        intersects: vec![],
        error: None,
        told: 0,
        awaits: 0,
        fetches: 0,
    }));
    let local = r.chance(1, 3);
    let mut rng = r.fork();
    let st2 = st.clone();
    let dir = common::Scratch::new("oura");
    let (socket, server) = if local {
        let path = dir.join("node.socket");
        let l = UnixListener::bind(&path).map_err(|e| e.to_string())?;
        let t = tokio::spawn(async move {
            while let Ok((s, _)) = l.accept().await {
                tokio::spawn(serve(s, true, st2.clone(), rng.fork()));
            }
        });
        (path.to_string_lossy().to_string(), t)
    } else {
        let l = TcpListener::bind((ip, 0)).await.map_err(|e| e.to_string())?;
        let a = l.local_addr().unwrap().to_string();
        let t = tokio::spawn(async move {
            while let Ok((s, _)) = l.accept().await {
                let _ = s.set_nodelay(true);
                tokio::spawn(serve(s, false, st2.clone(), rng.fork()));
            }
        });
        (a, t)
    };
    let mut args = vec!["--bearer".to_string(), if local { "unix" } else { "tcp" }.into(), "--socket".into(), socket];
    if magic_arg != "mainnet" || c.rng.chance(1, 2) {
        args.extend(["--magic".into(), magic_arg.into()]);
    }
    let start = since.map(|i| &known[i]);
    if let Some(b) = start {
        args.extend(["--since".into(), format!("{},{}", b.slot, crate::node::hex(&b.hash))]);
    }
    let mut child = Child::spawn(&program("oura-block-fetcher")?, &args)?;
    let mut got: Vec<String> = vec![];
    let res: R = async {
        if unknown {
            // nothing to fetch: the program ends
            while let Some(l) = child.line(LINE_WAIT).await? {
                got.push(l);
            }
            ensure!(got.is_empty(), "{} blocks were printed though the node does not have the point", got.len());
            c.count("unknown_points", 1);
            return Ok(());
        }
        let missing = |got: &[String]| -> Option<String> {
            if !cut {
                return expect.get(got.len()).map(|b| b.line());
            }
            // the blocks of the last leg that were not printed by the first one have to follow
            let done = (0..=got.len().min(expect.len())).rev().find_map(|k| {
                if (0..k).any(|i| got[i] != expect[i].line()) {
                    return None;
                }
                let rest = &got[k..];
                let skipped = last_leg.len().checked_sub(rest.len())?;
                (last_leg[skipped..].iter().zip(rest).all(|(b, l)| b.line() == *l) && last_leg[..skipped].iter().all(|b| expect[..k].iter().any(|e| e.hash == b.hash))).then_some(())
            });
            done.is_none().then(|| "more".to_string())
        };
        let started = std::time::Instant::now();
        loop {
            let second = st.lock().unwrap().connections >= 2;
            if missing(&got).is_none() && (!cut || second) {
                break;
            }
            let patience = if cut && missing(&got).is_none() { Duration::from_millis(100) } else { LINE_WAIT };
            let l = match child.line(patience).await {
                // all is printed, but the connection is not lost yet
                Err(_) if patience < LINE_WAIT && started.elapsed() < LINE_WAIT * 2 => continue,
                l => l?,
            };
            let Some(l) = l else {
                return Err(format!("the program ended after {} blocks of {}", got.len(), expect.len()));
            };
            if !cut {
                let want = expect[got.len()].line();
                ensure!(l == want, "line {} is\n  {}\nwhere block #{} of slot {} is next:\n  {}", got.len(), short(&l), expect[got.len()].number, expect[got.len()].slot, short(&want));
            }
            got.push(l);
            c.count("blocks_printed", 1);
            if cut {
                ensure!(got.len() <= expect.len() + last_leg.len(), "{} lines, the node announced {} and {} blocks", got.len(), expect.len(), last_leg.len());
            }
        }
        // nothing more comes, except for what the second leg repeats
        let settle = if cut { 60 } else { 15 };
        while let Some(l) = child.line_within(Duration::from_millis(settle)).await? {
            ensure!(cut, "a line too many: {}", short(&l));
            got.push(l);
        }
        if cut {
            let t = st.lock().unwrap();
            if t.connections >= 2 {
                c.count("connections_lost", 1);
            }
            drop(t);
            ensure!(missing(&got).is_none(), "{} lines do not make up the chain: the first connection announced {}, the second {}", got.len(), expect.len(), last_leg.len());
        }
        Ok(())
    }
    .await;
    child.kill().await;
    server.abort();
    let t = st.lock().unwrap();
    let note = format!("fetched {} lines; magic {magic_arg}, local {local}, since {since:?}, connections {}, told {}, awaits {}, fetches {}, stderr {}", got.len(), t.connections, t.told, t.awaits, t.fetches, child.stderr());
    c.t(note);
    if let Some(e) = &t.error {
        return Err(format!("protocol error: {e}"));
    }
    res?;
    ensure!(t.magics.iter().all(|m| *m == vec![magic]), "network magics {:?} were proposed, {magic} is that of {magic_arg}", t.magics);
    let want = vec![match start {
        Some(b) => V::A(vec![V::U(b.slot), V::B(b.hash.to_vec())]),
        None => V::A(vec![]),
    }];
    for p in &t.intersects {
        ensure_eq!(p, &want, "points to start from");
    }
    c.count("announcements", t.told as u64);
    c.count("awaits", t.awaits as u64);
    c.count(if local { "unix_runs" } else { "tcp_runs" }, 1);
    if since.is_none() {
        c.count("runs_from_the_origin", 1);
    }
    c.distinct(common::mix(expect.iter().fold(1, |h, b| common::mix(h ^ b.slot))));
    Ok(())
}

pub fn short(s: &str) -> String {
    s.chars().take(140).collect()
}
