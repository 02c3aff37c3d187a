//! Block trees, a scripted inner source, and a minimal executor.
use anyhow::{anyhow, Result};
use common::{Case, Rng};
use dcspark_blockchain_source::{EventObject, GetNextFrom, PullFrom, Source};
use dcspark_core::BlockNumber;
use multiverse::Variant;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct K(pub String);
impl PullFrom for K {}
impl std::fmt::Display for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl AsRef<[u8]> for K {
    fn as_ref(&self) -> &[u8] {
        self.0.as_bytes()
    }
}

/// a point differs in type from the block's key, as on Cardano
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct P(pub String);
impl PullFrom for P {}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
pub struct V {
    pub id: K,
    pub parent: K,
    pub number: u64,
    pub tip: bool,
    pub payload: String,
}
impl EventObject for V {
    fn is_blockchain_tip(&self) -> bool {
        self.tip
    }
}
impl Variant for V {
    type Key = K;
    fn id(&self) -> &K {
        &self.id
    }
    fn parent_id(&self) -> &K {
        &self.parent
    }
    fn block_number(&self) -> BlockNumber {
        BlockNumber::new(self.number)
    }
}
impl GetNextFrom for V {
    type From = P;
    fn next_from(&self) -> Option<P> {
        Some(P(format!("@{}", self.id.0)))
    }
}

pub fn point(v: &V) -> P {
    v.next_from().unwrap()
}

// ------------------------------------------------------------------ the tree of blocks
pub struct Tree {
    pub blocks: Vec<V>,
    pub parent: Vec<Option<usize>>,
    pub height: Vec<usize>,
    pub by_id: HashMap<K, usize>,
    base: u64,
    salt: u64,
    /// a block which many more are to go on, and how many
    fan: Option<(usize, usize)>,
}

impl Tree {
    pub fn new(r: &mut Rng) -> Tree {
        Tree {
            blocks: vec![],
            parent: vec![],
            height: vec![],
            by_id: HashMap::new(),
            base: *r.pick(&[0, 1, 7, 1 << 20, 1 << 40]),
            salt: r.next(),
            fan: None,
        }
    }
    pub fn max(&self) -> usize {
        self.height.iter().copied().max().unwrap_or(0)
    }
    pub fn best(&self) -> Vec<usize> {
        let m = self.max();
        (0..self.blocks.len()).filter(|i| self.height[*i] == m).collect()
    }
    pub fn lca(&self, mut a: usize, mut b: usize) -> Option<usize> {
        while a != b {
            if self.height[a] >= self.height[b] {
                a = self.parent[a]?;
            } else {
                b = self.parent[b]?;
            }
        }
        Some(a)
    }
    pub fn is_ancestor(&self, a: usize, b: usize) -> bool {
        self.lca(a, b) == Some(a)
    }
    /// adds a block under `p`
    pub fn grow(&mut self, p: Option<usize>) -> usize {
        let i = self.blocks.len();
        let name = |n: u64| K(format!("{:06x}-{n}", common::mix(n ^ self.salt) & 0xffffff));
        let height = p.map_or(1, |p| self.height[p] + 1);
        let v = V {
            id: name(i as u64),
            parent: p.map_or(K("genesis".into()), |p| self.blocks[p].id.clone()),
            number: self.base + height as u64,
            tip: false,
            payload: "x".repeat(i % 5),
        };
        self.by_id.insert(v.id.clone(), i);
        self.blocks.push(v);
        self.parent.push(p);
        self.height.push(height);
        i
    }
    /// where a new block may go so that every fork stays shallower than `depth`
    pub fn places(&self, depth: usize) -> Vec<usize> {
        let best = self.best();
        let max = self.max();
        (0..self.blocks.len())
            .rev()
            .take(12 * (depth + 1))
            .filter(|x| best.iter().all(|b| self.lca(*x, *b).is_some_and(|l| *x == *b || max - self.height[l] < depth)))
            .collect()
    }
    /// the next block to arrive: mostly on the newest block or the longest chain, sometimes a fork
    pub fn next(&mut self, r: &mut Rng, depth: usize, forky: bool) -> usize {
        if self.blocks.is_empty() {
            return self.grow(None);
        }
        let places = self.places(depth);
        let newest = self.blocks.len() - 1;
        let p = if !forky || r.chance(1, 3) {
            *r.pick(&self.best())
        } else if r.chance(1, 2) && places.contains(&newest) {
            newest
        } else if places.is_empty() {
            *r.pick(&self.best())
        } else {
            *r.pick(&places)
        };
        // now and then many blocks compete for one place
        let p = match self.fan {
            Some((p, n)) => {
                self.fan = (n > 1).then_some((p, n - 1));
                p
            }
            None => {
                if forky && r.chance(1, 1500) {
                    self.fan = self.parent[*r.pick(&self.best())].map(|p| (p, r.range(40, 100)));
                }
                p
            }
        };
        // with depth 0 or 1, or ties elsewhere, only the longest chain may grow
        let p = if places.contains(&p) { p } else { *r.pick(&self.best()) };
        self.grow(Some(p))
    }
}

// ------------------------------------------------------------------ the inner source
pub enum Item {
    Block(V),
    Nothing,
    Fail(String),
}

#[derive(Default)]
pub struct Script {
    pub items: VecDeque<(usize, Item)>, // how often the pull is pending before it yields the item
    pub asked: Vec<Vec<P>>,
    pub yielded: usize,
    pub last_failed: bool,
    /// once the items are used up, a node is followed
    pub node: Option<Node>,
}

/// a node whose chain is served in ranges: from the newest of the points it knows on to its tip
#[derive(Default)]
pub struct Node {
    pub chain: Vec<V>,
    pub range: VecDeque<V>,
    pub served: Option<K>,
    /// requests of which it knew no point
    pub strangers: usize,
    /// it has blocks under those of interest, which a request without points would bring
    pub older: bool,
}

impl Node {
    fn next(&mut self, points: &[P]) -> Option<V> {
        if self.range.is_empty() {
            let mut first = points.iter().filter_map(|p| if p.0 == "@genesis" { Some(0) } else { self.chain.iter().position(|v| point(v) == *p).map(|i| i + 1) }).max();
            if points.is_empty() && !self.older {
                first = Some(0);
            }
            match first {
                None => self.strangers += 1,
                Some(i) => self.range = self.chain[i..].iter().cloned().collect(),
            }
        }
        let v = self.range.pop_front()?;
        self.served = Some(v.id.clone());
        Some(v)
    }
}

#[derive(Clone, Default)]
pub struct Inner(pub Arc<Mutex<Script>>);


#[async_trait::async_trait]
impl Source for Inner {
    type Event = V;
    type From = Vec<P>;
    async fn pull(&mut self, from: &Vec<P>) -> Result<Option<V>> {
        self.0.lock().unwrap().asked.push(from.clone());
        loop {
            let stall = {
                let mut s = self.0.lock().unwrap();
                match s.items.front_mut() {
                    Some((n, _)) if *n > 0 => {
                        *n -= 1;
                        true
                    }
                    _ => false,
                }
            };
            if !stall {
                break;
            }
            // pending once; the caller polls again or gives up
            let mut first = true;
            std::future::poll_fn(|_| if std::mem::take(&mut first) { Poll::Pending } else { Poll::Ready(()) }).await;
        }
        let mut s = self.0.lock().unwrap();
        s.last_failed = false;
        match s.items.pop_front() {
            None => match s.node.as_mut().and_then(|n| n.next(from)) {
                None => Ok(None),
                Some(v) => {
                    s.yielded += 1;
                    Ok(Some(v))
                }
            },
            Some((_, item)) => {
                s.yielded += 1;
                match item {
                    Item::Block(v) => Ok(Some(v)),
                    Item::Nothing => Ok(None),
                    Item::Fail(e) => {
                        s.last_failed = true;
                        Err(anyhow!(e))
                    }
                }
            }
        }
    }
}

/// polls until ready, or drops the future after `patience` polls
pub fn poll_for<T>(fut: impl Future<Output = T>, patience: usize) -> Option<T> {
    let mut fut = Box::pin(fut);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..patience {
        if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}

/// what the inner source was made to yield next
#[derive(Clone, Debug, PartialEq)]
pub enum Fed {
    New(usize),
    Again(usize),
    Tip,
    Fail,
    Nothing,
}

pub fn tip_event() -> V {
    V { id: K("tip".into()), parent: K("none".into()), number: 0, tip: true, payload: "tip".into() }
}

/// queues what the inner source yields next; `old` limits how far back repeated blocks go
pub fn feed(c: &mut Case, t: &mut Tree, inner: &Inner, depth: usize, forky: bool, old: usize) -> Fed {
    let r = &mut c.rng;
    let stall = if r.chance(1, 6) { r.range(1, 3) } else { 0 };
    let fed = match r.below(20) {
        0 => Fed::Nothing,
        1 => Fed::Fail,
        2 => Fed::Tip,
        3 | 4 if !t.blocks.is_empty() => {
            let low = t.max().saturating_sub(old);
            let mut xs: Vec<usize> = (0..t.blocks.len()).filter(|i| t.height[*i] >= low).collect();
            if r.chance(1, 2) {
                let n = xs.len().min(4);
                xs = xs.split_off(xs.len() - n);
            }
            Fed::Again(*r.pick(&xs))
        }
        _ => Fed::New(t.next(r, depth, forky)),
    };
    let (item, what) = match &fed {
        Fed::Nothing => (Item::Nothing, "nothing".to_string()),
        Fed::Fail => (Item::Fail("inner failure".into()), "a failure".into()),
        Fed::Tip => (Item::Block(tip_event()), "a tip notification".into()),
        Fed::Again(i) => (Item::Block(t.blocks[*i].clone()), format!("block {i} again")),
        Fed::New(i) => (Item::Block(t.blocks[*i].clone()), format!("block {i} under {:?} at {}", t.parent[*i], t.height[*i])),
    };
    c.t(format!("inner source will yield {what}"));
    inner.0.lock().unwrap().items.push_back((stall, item));
    fed
}
