use crate::node::{hex, Blk, Chain, Fault, Node, Req};
use cardano_sdk::protocol as p;
use cml_multi_era::{encode, Raw};
use common::{ensure, ensure_eq, guard, Case, Rng, R};
use dcspark_blockchain_source_full::cardano::time::Era;
use dcspark_blockchain_source_full::cardano::{BlockEvent, CardanoNetworkEvent, CardanoSource, NetworkConfiguration, Point};
use dcspark_blockchain_source_full::{EventObject, GetNextFrom, Source};
use dcspark_core::{BlockId, SlotNumber};
use multiverse::Variant;
use std::collections::VecDeque;
use std::net::Ipv4Addr;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

type Event = CardanoNetworkEvent<BlockEvent, p::Tip>;
const HANG: Duration = Duration::from_secs(30);

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Plain,
    Faults,
    Backlog,
}

/// every case has an address of its own, so that a port given up cannot be taken by another case
pub fn address() -> Ipv4Addr {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = NEXT.fetch_add(1, SeqCst) + std::process::id() * 7919;
    Ipv4Addr::from(0x7f01_0000 + n % 0xf0_0000)
}

fn bytes32(r: &mut Rng) -> [u8; 32] {
    std::array::from_fn(|_| r.next() as u8)
}

pub fn block(r: &mut Rng, prev: Option<&Blk>, first_slot: u64, genesis_parent: [u8; 32], small: bool) -> Arc<Blk> {
    let era = match r.below(8) {
        0 => 0,
        1 => 1,
        _ => 2 + r.below(6) as u8,
    };
    let slot = match prev {
        None => 0,
        Some(p) => (p.raw.slot + 1 + r.below(60) as u64).max(first_slot),
    };
    // the first block of the chain is Byron's boundary block
    let era = if prev.is_none() { 0 } else { era };
    let raw = Raw {
        era,
        number: prev.map(|p| p.raw.number + 1).unwrap_or(0),
        slot,
        epoch: r.next() >> 40,
        prev: Some(prev.map(|p| p.raw.hash).unwrap_or(genesis_parent)),
        hash: bytes32(r),
    };
    let len = if small { 0 } else { *r.pick(&[0, 0, 10, 100, 100, 900, 3000, 70_000]) };
    let payload: Vec<u8> = (0..len).map(|i| (i as u64 * 31 + raw.number) as u8).collect();
    let bytes = encode(&raw, &payload);
    Arc::new(Blk { raw, bytes })
}

pub fn grow(r: &mut Rng, chain: &mut Chain, n: usize, era: &Era, gp: [u8; 32], small: bool) {
    for _ in 0..n {
        let b = block(r, chain.last().map(|b| &**b), if chain.is_empty() { 0 } else { era.first_slot }, gp, small);
        chain.push(b);
    }
}

fn point(b: &Blk) -> Point {
    Point::BlockHeader { slot_nb: SlotNumber::new(b.raw.slot), hash: BlockId::new(hex(&b.raw.hash)) }
}

fn sdk(q: &Point) -> Option<p::Point> {
    match q {
        Point::Origin => Some(p::Point::Origin),
        Point::BlockHeader { slot_nb, hash } => p::Point::from_raw(u64::from(*slot_nb), hash.as_ref()),
    }
}

/// what a block event has to say, from the block that was served
fn check_event(e: &BlockEvent, b: &Blk, era: &Era) -> R {
    let r = &b.raw;
    ensure_eq!(e.id.to_string(), hex(&r.hash), "block id");
    ensure_eq!(e.parent_id.to_string(), r.prev.map(|p| hex(&p)).unwrap_or_else(|| "0x0000000000000000000000000000000000000000".into()), "parent of block {}", r.number);
    ensure_eq!(u64::from(e.block_number.clone()), r.number, "block number");
    ensure_eq!(u64::from(e.slot_number), r.slot, "slot of block {}", r.number);
    ensure!(e.raw_block == b.bytes, "the bytes of block {} are not those served", r.number);
    ensure_eq!(e.is_boundary_block, r.era == 0, "boundary flag of block {} of era {}", r.number, r.era);
    let epoch = if r.era < 2 { r.epoch } else { era.start_epoch + (r.slot - era.first_slot) / era.epoch_length_seconds };
    ensure_eq!(e.epoch, epoch, "epoch of block {} of era {} in slot {}", r.number, r.era, r.slot);
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tip {
    Due,
    Maybe,
    Sent,
}

/// what the request under way still has to deliver
struct Expect {
    req: usize,
    tip: Option<(p::Tip, Tip)>,
    /// (position in the range, block)
    blocks: VecDeque<(usize, Arc<Blk>)>,
    /// its end was seen, or the consumer gave up what was left
    over: bool,
}

struct Driver<'a> {
    c: &'a mut Case,
    node: Node,
    cfg: NetworkConfiguration,
    gp: [u8; 32],
    src: Option<CardanoSource>,
    cur: Option<Expect>,
    /// requests and faults taken note of
    seen: usize,
    faults: usize,
    /// how many more pulls may fail to reach the node because a connection was lost meanwhile
    excuses: usize,
    down: bool,
    pace_zero: bool,
    tip: Tip,
    pending_from: Option<Vec<Point>>,
    last: Option<Arc<Blk>>,
    h: u64,
    /// buffers were cleared while a dropped pull may have left a request behind
    left_behind: bool,
    /// a connection may have been given up: by a dropped pull, cleared buffers, an invalid point
    disturbed: bool,
    /// requests whose events may have been thrown away with it
    lenient: Vec<usize>,
}

impl Driver<'_> {
    fn log(&self, i: usize) -> Req {
        self.node.st.lock().unwrap().log[i].clone()
    }

    /// Whether what a request delivers may end early: something happened to it, or the node did
    /// not agree to send the range.
    fn may_end(&self, i: usize) -> bool {
        let r = self.log(i);
        r.cut || self.lenient.contains(&i) || r.range.is_some() && !r.served
    }

    /// The node saw a request: is it the right one, and what has to follow?
    fn new_request(&mut self, from: &[Point]) -> R {
        self.tip_passed(self.cur.as_ref().is_some_and(|e| e.over))?;
        let i = self.seen;
        self.seen += 1;
        let r = self.log(i);
        self.c.count("requests", 1);
        if let Some(cur) = &self.cur {
            ensure!(
                cur.over || cur.blocks.is_empty() || self.may_end(cur.req),
                "a new request was made while {} blocks of the last one were not delivered, the next is {:?}",
                cur.blocks.len(),
                cur.blocks.front().map(|b| b.1.raw.number)
            );
        }
        let parent = Point::BlockHeader { slot_nb: SlotNumber::new(0), hash: BlockId::new(hex(&self.gp)) };
        if from.is_empty() {
            self.c.count("requests_from_the_default_point", 1);
        }
        let from: Vec<Point> = if from.is_empty() { vec![self.cfg.from.clone()] } else { from.to_vec() };
        let whole = from == vec![parent];
        let asked: Vec<Point> = if whole { vec![self.cfg.genesis.clone()] } else { from };
        let mut want: Vec<String> = asked.iter().map(|q| format!("{:?}", sdk(q).unwrap())).collect();
        let mut have: Vec<String> = r.points.iter().map(|q| format!("{q:?}")).collect();
        want.sort();
        have.sort();
        ensure_eq!(have, want, "points of the request");
        let mut e = Expect { req: i, tip: None, blocks: VecDeque::new(), over: false };
        let b = r.chain.last().unwrap();
        let tip = (p::Tip { point: b.point(), block_number: b.raw.number }, self.tip);
        // the newest of the points that the node has
        match r.chain.iter().rposition(|b| r.points.contains(&b.point())) {
            None if r.points.contains(&p::Point::Origin) => e.tip = Some(tip), // from the origin nothing can be fetched
            None => self.c.count("no_intersection", 1),
            Some(n) => {
                ensure_eq!(r.found, Some(Some(n)), "position of the intersection the node was led to, in a chain of {} blocks, by {:?}", r.chain.len(), r.points);
                if n + 1 == r.chain.len() && !whole {
                    self.c.count("nothing_new", 1);
                } else {
                    e.tip = Some(tip);
                    let skip = if whole { 0 } else { 1 };
                    e.blocks = r.chain[n + skip..].iter().cloned().enumerate().map(|(k, b)| (k + skip, b)).collect();
                    if whole {
                        self.c.count("requests_from_the_genesis_parent", 1);
                    }
                }
            }
        }
        if self.tip == Tip::Sent {
            e.tip = None;
        }
        if r.cut {
            self.c.count("cut_requests", 1);
        }
        self.cur = Some(e);
        Ok(())
    }

    /// the tip event of the request under way will not come any more
    fn tip_passed(&mut self, cleared: bool) -> R {
        let Some(e) = &mut self.cur else { return Ok(()) };
        let Some((_, due)) = e.tip.take() else { return Ok(()) };
        let req = e.req;
        let r = self.node.st.lock().unwrap().log[req].clone();
        ensure!(due != Tip::Due || r.cut || cleared || self.lenient.contains(&req), "the tip event that was due did not come");
        if !self.pace_zero {
            self.tip = Tip::Maybe;
        }
        Ok(())
    }

    fn faults_noticed(&mut self) {
        let hit = self.node.st.lock().unwrap().faults_hit.clone();
        for f in &hit[self.faults..] {
            self.c.count("faults", 1);
            self.c.count(&format!("fault_{}", format!("{f:?}").split('(').next().unwrap()), 1);
            if matches!(f, Fault::OnAccept | Fault::AfterPropose | Fault::AfterHandshake | Fault::RefuseHandshake) {
                self.excuses = (self.excuses + 1).min(2);
            }
        }
        self.faults = hit.len();
    }

    /// one pull; true if it brought something
    async fn pull(&mut self, from: &[Point], drop_it: bool) -> Result<bool, String> {
        // a dropped pull may have made its request: the consumer asks the same again
        let again = self.pending_from.is_some();
        let from = self.pending_from.take().unwrap_or(from.to_vec());
        let patience = if drop_it { Duration::from_micros(self.c.rng.below(2000) as u64) } else { HANG };
        let res = match tokio::time::timeout(patience, self.src.as_mut().unwrap().pull(&from)).await {
            Ok(r) => r,
            Err(_) if drop_it => {
                self.c.count("pulls_dropped", 1);
                self.disturbed = true;
                self.c.t("pull dropped");
                self.pending_from = Some(from);
                return Ok(false);
            }
            Err(_) => return Err(format!("a pull has been waiting for {HANG:?} (last block taken: {:?})", self.last.as_ref().map(|b| b.raw.number))),
        };
        self.faults_noticed();
        {
            let s = self.node.st.lock().unwrap();
            let t = format!(
                "pull {:?}{}: {} | requests {} (taken note of {}) connections {} faults {:?} pending fault {:?} last {:?}",
                from.iter().map(|q| sdk(q).map(|q| q.slot_nb())).collect::<Vec<_>>(),
                if again { " (again)" } else { "" },
                match &res {
                    Ok(None) => "nothing".to_string(),
                    Ok(Some(CardanoNetworkEvent::Tip(t))) => format!("tip {:?}", t.block_number),
                    Ok(Some(CardanoNetworkEvent::Block(b))) => format!("block {:?}", b.block_number),
                    Err(e) => format!("error {e}"),
                },
                s.log.len(),
                self.seen,
                s.accepted,
                &s.faults_hit,
                s.fault,
                s.log.last().map(|r| (r.found, r.range.is_some(), r.served, r.cut, r.bad, r.done, r.chain.len())),
            );
            drop(s);
            self.c.t(t);
        }
        let invalid = from.iter().any(|q| sdk(q).is_none());
        self.disturbed |= invalid;
        let total = self.node.st.lock().unwrap().log.len();
        let fresh = total > self.seen;
        if fresh {
            ensure!(!invalid, "a request was made with an invalid point");
            ensure!(again || total - self.seen == 1, "one pull made {} requests", total - self.seen);
            if std::mem::take(&mut self.left_behind) {
                self.lenient.extend(self.seen..(total - 1).max(self.seen + 1));
            }
            while self.seen < total {
                self.new_request(&from)?;
            }
        }
        match res {
            Ok(None) => {
                let left = match &self.cur {
                    Some(e) if !e.over && !self.may_end(e.req) => e.blocks.len(),
                    _ => 0,
                };
                ensure!(left == 0, "a pull brought nothing while {left} blocks of the request are missing");
                self.tip_passed(self.cur.as_ref().is_some_and(|e| e.over))?;
                if invalid {
                    self.c.count("invalid_points", 1);
                } else if fresh {
                    let r = self.log(total - 1);
                    if r.range.is_some() && !r.served {
                        self.c.count("refused_ranges", 1);
                    }
                } else if self.cur.as_ref().is_none_or(|e| e.over || e.req + 1 < total || !self.log(e.req).cut) && !self.down {
                    ensure!(self.excuses > 0, "a pull brought nothing without asking the node, which is there");
                    self.excuses -= 1;
                }
                if let Some(e) = &mut self.cur {
                    e.over = true;
                    e.blocks.clear();
                }
                Ok(false)
            }
            Ok(Some(ev)) => {
                if let CardanoNetworkEvent::Tip(t) = &ev {
                    let have = self.cur.as_mut().and_then(|e| e.tip.take());
                    ensure_eq!(Some(t), have.as_ref().map(|t| &t.0), "tip event");
                    ensure!(ev.is_blockchain_tip() && ev.next_from().is_none(), "a tip event is not one");
                    if !self.pace_zero {
                        self.tip = Tip::Sent;
                    }
                    self.c.count("tips_delivered", 1);
                    return Ok(true);
                }
                self.tip_passed(false)?;
                let CardanoNetworkEvent::Block(b) = &ev else { unreachable!() };
                let Some(e) = &mut self.cur else { return Err("a block without a request".into()) };
                let Some((_, want)) = e.blocks.pop_front() else {
                    return Err(format!("block {:?} was delivered, none is expected (last taken: {:?})", b.block_number, self.last.as_ref().map(|b| b.raw.number)));
                };
                ensure!(b.id.to_string() == hex(&want.raw.hash), "block {:?} was delivered, block {} is next (last taken: {:?})", b.block_number, want.raw.number, self.last.as_ref().map(|b| b.raw.number));
                check_event(b, &want, &self.cfg.shelley_era_config)?;
                check_traits(&ev, &want)?;
                self.h = common::mix(self.h ^ want.raw.slot);
                self.last = Some(want);
                self.c.count("blocks_delivered", 1);
                Ok(true)
            }
            Err(x) => {
                self.tip_passed(false)?;
                let Some(e) = &mut self.cur else { return Err(format!("a pull failed: {x}")) };
                let bad = self.node.st.lock().unwrap().log[e.req].bad;
                ensure!(bad.is_some() && e.blocks.front().map(|b| b.0) == bad, "a pull failed though the next block {:?} is sound: {x}", e.blocks.front().map(|b| b.1.raw.number));
                e.blocks.pop_front();
                self.c.count("undecodable_blocks", 1);
                Ok(true)
            }
        }
    }

    fn end_checks(&self) -> R {
        let s = self.node.st.lock().unwrap();
        if let Some(e) = &s.protocol_error {
            return Err(format!("protocol error: {e}"));
        }
        let magic = u32::from(self.cfg.chain_info.protocol_magic()) as u64;
        let want = p::HandshakeNode::propose(p::Magic(magic), p::DiffusionMode::InitiatorOnly, &[p::Version::V6, p::Version::V7, p::Version::V8]);
        for h in &s.handshakes {
            ensure_eq!(h, &want, "handshake");
        }
        Ok(())
    }
}

fn check_traits(ev: &Event, b: &Blk) -> R {
    ensure!(!ev.is_blockchain_tip(), "a block event says it is a tip");
    ensure_eq!(ev.next_from(), Some(point(b)), "point to pull from after block {}", b.raw.number);
    ensure_eq!(ev.id().to_string(), hex(&b.raw.hash), "id of a block event");
    ensure_eq!(ev.parent_id().to_string(), hex(&b.raw.prev.unwrap()), "parent of a block event");
    ensure_eq!(u64::from(ev.block_number()), b.raw.number, "number of a block event");
    Ok(())
}

pub fn run(c: &mut Case, mode: Mode) -> R {
    let rt = if c.rng.chance(1, 2) {
        tokio::runtime::Builder::new_current_thread().enable_all().build()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build()
    }
    .map_err(|e| e.to_string())?;
    let r = rt.block_on(history(c, mode));
    rt.shutdown_timeout(Duration::from_secs(2));
    r
}

async fn history(c: &mut Case, mode: Mode) -> R {
    let eras = [Era::SHELLEY_MAINNET, Era::SHELLEY_PREPROD, Era::SHELLEY_PREVIEW];
    let era = c.rng.pick(&eras).clone();
    let gp = bytes32(&mut c.rng);
    let mut chain: Chain = vec![];
    let n = match (mode, c.rng.below(8)) {
        (Mode::Backlog, _) => c.rng.range(1010, 2600),
        (_, 0) => 1,
        (_, 1) => c.rng.range(40, 120),
        _ => c.rng.range(2, 20),
    };
    grow(&mut c.rng, &mut chain, n, &era, gp, mode == Mode::Backlog);
    let mut node = Node::start(chain.clone(), address(), c.rng.fork()).await?;
    node.st.lock().unwrap().slow = mode != Mode::Backlog && c.rng.chance(1, 3);
    let base = match c.rng.below(5) {
        4 => NetworkConfiguration::testnet(),
        0 => NetworkConfiguration::mainnet(),
        1 => NetworkConfiguration::preprod(),
        2 => NetworkConfiguration::preview(),
        _ => NetworkConfiguration::sancho(),
    };
    let start = c.rng.below(chain.len());
    let cfg = NetworkConfiguration {
        relay: (node.ip.to_string().into(), node.port),
        from: point(&chain[start]),
        genesis_parent: BlockId::new(hex(&gp)),
        genesis: point(&chain[0]),
        shelley_era_config: era.clone(),
        ..base
    };
    let pace_zero = c.rng.chance(1, 2);
    let pace = if pace_zero { Duration::ZERO } else { Duration::from_secs(3600) };
    let faulty = mode == Mode::Faults;
    if faulty && c.rng.chance(1, 6) {
        // connecting fails with an error
        let f = *c.rng.pick(&[Fault::OnAccept, Fault::AfterPropose, Fault::RefuseHandshake]);
        node.st.lock().unwrap().fault = Some(f);
        let r = tokio::time::timeout(HANG, CardanoSource::connect(&cfg, pace)).await.map_err(|_| "connecting takes for ever")?;
        ensure!(r.is_err(), "connecting worked in spite of {f:?}");
    }
    let src = tokio::time::timeout(HANG, CardanoSource::connect(&cfg, pace)).await.map_err(|_| "connecting takes for ever")?.map_err(|e| format!("connecting: {e:?}"))?;
    let faults = node.st.lock().unwrap().faults_hit.len();
    let mut d = Driver {
        c,
        node,
        cfg,
        gp,
        src: Some(src),
        cur: None,
        seen: 0,
        faults,
        excuses: 0,
        down: false,
        pace_zero,
        tip: Tip::Due,
        pending_from: None,
        last: None,
        h: 1,
        left_behind: false,
        disturbed: mode != Mode::Plain,
        lenient: vec![],
    };
    let mut old: Chain = chain.clone();
    let steps = match mode {
        Mode::Backlog => 60,
        _ => d.c.rng.range(10, 60),
    };
    let mut idle = 0;
    for _ in 0..steps {
        d.c.beat();
        // the world changes
        match d.c.rng.below(14) {
            0 | 1 => {
                let k = d.c.rng.range(1, 8);
                grow(&mut d.c.rng, &mut chain, k, &era, gp, false);
                d.node.st.lock().unwrap().chain = chain.clone();
            }
            2 if chain.len() > 1 => {
                // another branch
                let keep = d.c.rng.range(1, chain.len()).max(chain.len().saturating_sub(9));
                let stays = chain.len();
                old.extend(chain[keep..].iter().cloned());
                chain.truncate(keep);
                let k = d.c.rng.range(0, stays - keep + 3);
                grow(&mut d.c.rng, &mut chain, k, &era, gp, false);
                let reorg = faulty && d.c.rng.chance(1, 2);
                let mut s = d.node.st.lock().unwrap();
                if reorg && s.fault.is_none() {
                    s.reorg_to = Some(chain.clone());
                    s.fault = Some(Fault::Reorg);
                } else {
                    s.chain = chain.clone();
                    s.reorg_to = None;
                }
                drop(s);
                d.c.count("chains_switched", 1);
            }
            3 | 4 if faulty => {
                let k = d.c.rng.below(6);
                let f = *d.c.rng.pick(&[
                    Fault::OnAccept,
                    Fault::AfterPropose,
                    Fault::AfterHandshake,
                    Fault::OnIntersect,
                    Fault::InIntersectReply,
                    Fault::OnRange,
                    Fault::AfterStart,
                    Fault::AfterBlocks(k),
                    Fault::InBlock(k),
                    Fault::BeforeDone,
                    Fault::RefuseHandshake,
                    Fault::NoBlocks,
                    Fault::WrongIntersectReply,
                    Fault::WrongRangeReply,
                    Fault::WrongBlockReply(k),
                    Fault::BadBlock(k),
                    Fault::BadBlock(k),
                ]);
                let mut s = d.node.st.lock().unwrap();
                if s.fault != Some(Fault::Reorg) {
                    s.fault = Some(f);
                }
            }
            5 if faulty => {
                d.c.t("connections killed");
                d.node.kill_connections();
                d.excuses = 2;
                if d.c.rng.chance(1, 2) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
            6 if faulty => {
                if d.down {
                    d.node.up().await?;
                } else {
                    d.node.down().await;
                    d.node.kill_connections();
                }
                d.down = !d.down;
                let t = format!("node down: {}", d.down);
                d.c.t(t);
                d.excuses = 2;
            }
            7 => {
                if d.c.rng.chance(1, 3) {
                    d.src.as_mut().unwrap().clear_buffers();
                    d.c.t("buffers cleared");
                    d.c.count("buffers_cleared", 1);
                    d.disturbed = true;
                    d.cleared().await?;
                }
            }
            _ => {}
        }
        // the consumer pulls
        let from = match d.c.rng.below(12) {
            0 => vec![],
            1 => vec![Point::BlockHeader { slot_nb: SlotNumber::new(0), hash: BlockId::new(hex(&gp)) }],
            2 => vec![point(d.c.rng.pick::<Arc<Blk>>(&old))],
            3 => {
                // one the node has never seen
                vec![Point::BlockHeader { slot_nb: SlotNumber::new(d.c.rng.skewed(40)), hash: BlockId::new(hex(&bytes32(&mut d.c.rng))) }]
            }
            4 if d.c.rng.chance(1, 3) => vec![point(&old[0]), Point::BlockHeader { slot_nb: SlotNumber::new(9), hash: BlockId::new("12zz") }],
            5 if d.c.rng.chance(1, 4) => vec![Point::Origin],
            5 | 6 => {
                // checkpoints in any order
                let n = if d.c.rng.chance(1, 20) { d.c.rng.range(50, 300) } else { d.c.rng.range(2, 9) };
                let mut v: Vec<Point> = (0..n).map(|_| if d.c.rng.chance(1, 2) { point(d.c.rng.pick::<Arc<Blk>>(&old)) } else { point(d.c.rng.pick::<Arc<Blk>>(&chain)) }).collect();
                if let Some(l) = &d.last {
                    v.push(point(l));
                }
                d.c.rng.shuffle(&mut v);
                v
            }
            _ => {
                let mut v = vec![point(d.last.as_ref().unwrap_or(&chain[0]))];
                if d.c.rng.chance(1, 2) {
                    v.push(point(&chain[0]));
                    v.push(point(d.c.rng.pick::<Arc<Blk>>(&old)));
                }
                v
            }
        };
        let pulls = if mode == Mode::Backlog { d.c.rng.range(1, 700) } else { d.c.rng.range(1, 12) };
        let from = from;
        for _ in 0..pulls {
            let drop_it = d.c.rng.chance(1, 12);
            let some = d.pull(&from, drop_it).await?;
            if !some && d.c.rng.chance(2, 3) {
                break;
            }
        }
    }
    // all is well from here on: the consumer reaches the tip
    {
        let mut s = d.node.st.lock().unwrap();
        s.poison = None;
        s.fault = None;
        s.slow = false;
        s.reorg_to = None;
        s.chain = chain.clone();
    }
    d.node.up().await?;
    d.down = false;
    let tip = d.node.st.lock().unwrap().chain.last().unwrap().clone();
    loop {
        // give checkpoints down to the first block, as a consumer that follows the chain does
        let from: Vec<Point> = d.last.iter().map(|b| point(b)).chain([point(&chain[0])]).collect();
        match d.pull(&from, false).await? {
            true => idle = 0,
            false => {
                if d.last.as_ref().is_some_and(|l| l.raw.hash == tip.raw.hash) || chain.len() == 1 {
                    break;
                }
                idle += 1;
                ensure!(idle < 5, "the consumer does not get beyond block {:?} of {}", d.last.as_ref().map(|b| b.raw.number), tip.raw.number);
            }
        }
        d.c.beat();
    }
    // stopping, possibly with a request under way
    if d.c.rng.chance(1, 2) {
        grow(&mut d.c.rng, &mut chain, 5, &era, gp, false);
        d.node.st.lock().unwrap().chain = chain.clone();
        let from = vec![point(&chain[0])];
        d.pull(&from, false).await?;
    }
    if !d.disturbed {
        let accepted = d.node.st.lock().unwrap().accepted;
        ensure!(accepted == 1, "{} requests were made over {accepted} connections, though nothing happened to the first", d.seen);
        d.c.count("undisturbed_connections", 1);
    }
    let src = d.src.take().unwrap();
    tokio::time::timeout(HANG, src.stop()).await.map_err(|_| format!("stopping takes longer than {HANG:?}"))?;
    d.c.count("stops", 1);
    d.end_checks()?;
    let accepted = d.node.st.lock().unwrap().accepted;
    d.c.count("connections", 1);
    d.c.count("reconnections", accepted as u64 - 1);
    let h = d.h ^ accepted as u64;
    d.c.distinct(h);
    if d.c.index < 3 {
        let t = format!("{} requests over {accepted} connections, chain of {}", d.seen, chain.len());
        d.c.sample(t);
    }
    Ok(())
}

impl Driver<'_> {
    async fn cleared(&mut self) -> R {
        // a request of a dropped pull may be under way, and is given up with the rest
        self.left_behind |= self.pending_from.is_some();
        self.tip_passed(true)?;
        if let Some(e) = &mut self.cur {
            e.over = true;
            e.blocks.clear();
        }
        Ok(())
    }
}

/// block events decoded, mapped and written as JSON
pub fn events(c: &mut Case) -> R {
    let r = &mut c.rng;
    let era = Era::SHELLEY_PREVIEW;
    let gp = bytes32(r);
    let mut chain = vec![];
    grow(r, &mut chain, 6, &era, gp, false);
    for b in &chain {
        let be = BlockEvent {
            id: BlockId::new(hex(&b.raw.hash)),
            parent_id: BlockId::new(hex(&b.raw.prev.unwrap())),
            block_number: b.raw.number.into(),
            raw_block: b.bytes.clone(),
            slot_number: SlotNumber::new(b.raw.slot),
            is_boundary_block: b.raw.era == 0,
            epoch: if b.raw.era < 2 { b.raw.epoch } else { era.absolute_slot_to_epoch(b.raw.slot).unwrap() },
        };
        check_event(&be, b, &era)?;
        let ev: Event = CardanoNetworkEvent::Block(be);
        check_traits(&ev, b)?;
        let json = guard("to JSON", || serde_json::to_string(&CardanoNetworkEvent::<BlockEvent, ()>::Block(match &ev {
            CardanoNetworkEvent::Block(b) => b.clone(),
            _ => unreachable!(),
        })))?
        .map_err(|e| e.to_string())?;
        let back: CardanoNetworkEvent<BlockEvent, ()> = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        let CardanoNetworkEvent::Block(back) = back else { return Err("a tip came back".into()) };
        check_event(&back, b, &era)?;
        // maps apply to their half only, and pass errors on
        let n = c.rng.next();
        let m = ev.clone().map_block(|b| Ok((b.slot_number, n)));
        ensure!(matches!(m, Ok(CardanoNetworkEvent::Block((s, k))) if u64::from(s) == b.raw.slot && k == n), "mapping a block");
        ensure!(ev.clone().map_block(|_| -> anyhow::Result<()> { Err(anyhow::anyhow!("no")) }).is_err(), "a mapping that fails");
        let m = ev.clone().map_tip(|_| -> anyhow::Result<()> { Err(anyhow::anyhow!("no")) });
        ensure!(matches!(m, Ok(CardanoNetworkEvent::Block(b2)) if b2.raw_block == b.bytes), "mapping the tip of a block");
        let t: Event = CardanoNetworkEvent::Tip(p::Tip { point: b.point(), block_number: n });
        ensure!(matches!(t.clone().map_tip(|t| Ok(t.block_number)), Ok(CardanoNetworkEvent::Tip(k)) if k == n), "mapping a tip");
        ensure!(matches!(t.clone().map_block(|_| -> anyhow::Result<()> { Err(anyhow::anyhow!("no")) }), Ok(CardanoNetworkEvent::Tip(x)) if x.block_number == n), "mapping the block of a tip");
        ensure!(t.map_tip(|_| -> anyhow::Result<()> { Err(anyhow::anyhow!("no")) }).is_err(), "a mapping that fails");
    }
    c.distinct(common::mix(chain.last().unwrap().raw.slot ^ c.seed));
    Ok(())
}
