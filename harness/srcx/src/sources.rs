//! monitors of the two buffering sources
use crate::chain::*;
use common::{ensure, ensure_eq, guard, Case, Scratch, R};
use dcspark_blockchain_source::multiverse::rollback::{Event, ForkHandlingSource};
use dcspark_blockchain_source::multiverse::MultiverseSource;
use dcspark_blockchain_source::Source;
use dcspark_core::BlockNumber;
use multiverse::Multiverse;

type M = Multiverse<K, V>;

/// the database outlives a restart: sled lets go of a path only some time after its last handle
fn database(at: &Scratch) -> Result<sled::Db, String> {
    sled::Config::new().path(at.join("db")).cache_capacity(1 << 20).flush_every_ms(None).open().map_err(|e| format!("opening the database: {e}"))
}

fn store(db: &Option<sled::Db>) -> Result<M, String> {
    guard("opening the multiverse", || match db {
        None => Multiverse::temporary(),
        Some(d) => Multiverse::load_from(d.clone(), "blocks", BlockNumber::MIN),
    })?
    .map_err(|e| format!("opening the multiverse: {e:?}"))
}

/// the points the inner source was given in a pull are known ones
fn checkpoints(t: &Tree, seen: &[bool], asked: &[P], from: &Option<P>) -> R {
    for p in asked {
        let known = from.as_ref() == Some(p) || t.by_id.get(&K(p.0.trim_start_matches('@').into())).is_some_and(|i| seen[*i]);
        ensure!(known, "the inner source was told point {p:?}, of no block received");
    }
    if seen.iter().any(|s| *s) {
        let max = seen_max(t, seen);
        for i in (0..seen.len()).filter(|i| seen[*i] && t.height[*i] == max) {
            ensure!(asked.contains(&point(&t.blocks[i])), "the inner source was told {asked:?} without the longest chain's newest block {i}");
        }
    }
    Ok(())
}

fn seen_max(t: &Tree, seen: &[bool]) -> usize {
    (0..seen.len()).filter(|i| seen[*i]).map(|i| t.height[i]).max().unwrap_or(0)
}

/// what came out of one pull, once the pass-through cases are settled
enum Out<E> {
    Dropped,
    Nothing,
    Event(E),
}

struct Link {
    t: Tree,
    inner: Inner,
    fed: Option<Fed>,
    seen: Vec<bool>,
}

impl Link {
    fn new(c: &mut Case) -> Link {
        Link { t: Tree::new(&mut c.rng), inner: Inner::default(), fed: None, seen: vec![] }
    }
    fn ready(&self) -> bool {
        self.inner.0.lock().unwrap().items.is_empty()
    }
    /// one pull; also judges errors and what the inner source was told
    fn pull<S>(&mut self, c: &mut Case, src: &mut S, from: &Option<P>, patience: usize) -> Result<(Out<S::Event>, Option<Fed>), String>
    where
        S: Source<From = Option<P>>,
    {
        let (asked, yielded) = {
            let s = self.inner.0.lock().unwrap();
            (s.asked.len(), s.yielded)
        };
        let got = guard("pull", || poll_for(src.pull(from), patience))?;
        c.count("pulls", 1);
        self.seen.resize(self.t.blocks.len(), false);
        let mut s = self.inner.0.lock().unwrap();
        ensure!(s.asked.len() <= asked + 1, "one pull asked the inner source {} times", s.asked.len() - asked);
        for a in &s.asked[asked..] {
            checkpoints(&self.t, &self.seen, a, from)?;
            c.count("inner_pulls", 1);
        }
        let took = if s.yielded == yielded {
            None
        } else if let Some(k) = s.node.as_mut().and_then(|n| n.served.take()) {
            let i = self.t.by_id[&k];
            Some(if self.seen[i] { Fed::Again(i) } else { Fed::New(i) })
        } else {
            self.fed.take()
        };
        if let Some(Fed::New(i)) = took {
            self.seen[i] = true;
        }
        let out = match got {
            None => {
                ensure!(took.is_none(), "a pull stayed pending although its inner pull had ended");
                ensure!(!s.items.is_empty(), "a pull stayed pending without an inner pull being pending");
                c.count("dropped_pulls", 1);
                Out::Dropped
            }
            Some(Err(e)) => {
                ensure!(took == Some(Fed::Fail), "pull failed with {e:#} although the inner source gave {took:?}");
                ensure!(format!("{e:#}").contains("inner failure"), "the inner source's error came out as {e:#}");
                c.count("errors_passed_on", 1);
                Out::Nothing
            }
            Some(Ok(x)) => {
                ensure!(took != Some(Fed::Fail), "an inner failure was swallowed");
                x.map_or(Out::Nothing, Out::Event)
            }
        };
        Ok((out, took))
    }
}

/// what is kept: blocks received, and none far below what is confirmed
fn kept(c: &mut Case, m: &M, l: &Link, depth: usize) -> R {
    let max = seen_max(&l.t, &l.seen);
    let low = max.saturating_sub(depth + 2);
    for i in (0..l.seen.len()).filter(|i| l.t.height[*i] < low) {
        ensure!(m.get(&l.t.blocks[i].id).is_none(), "block {i} at {} is still kept, the longest chain is at {max}", l.t.height[i]);
        c.count("blocks_forgotten", 1);
    }
    for i in (0..l.seen.len()).filter(|i| l.seen[*i] && l.t.height[*i] + depth >= max) {
        ensure!(m.get(&l.t.blocks[i].id) == Some(&l.t.blocks[i]), "block {i} at {} is not kept, the longest chain is at {max}", l.t.height[i]);
        c.count("blocks_kept", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ confirmed blocks
pub fn confirmed(c: &mut Case, restarts: bool) -> R {
    let depth = c.rng.below(8);
    let forky = c.rng.chance(4, 5);
    let mut l = Link::new(c);
    let at = restarts.then(|| Scratch::new("srcx"));
    let db = at.as_ref().map(database).transpose()?;
    // the consumer starts with nothing, or at the point of the block under the first one
    let start = c.rng.chance(1, 3).then(|| P("@genesis".into()));
    c.t(format!("depth {depth} from {start:?}"));
    let mk = |l: &Link| -> Result<_, String> {
        let m = store(&db)?;
        guard("construction", || MultiverseSource::new(m, depth, l.inner.clone()))
    };
    let mut src = mk(&l)?;
    let mut chain: Vec<usize> = vec![]; // taken by the consumer
    let mut untaken: Option<usize> = None; // delivered, but the consumer has not moved past it
    let steps = if restarts { let long = c.rng.chance(1, 20); c.rng.range(10, if long { 250 } else { 70 }) } else { c.rng.range(10, 150) };
    let mut end = 0;
    for step in 0.. {
        if step >= steps {
            end += 1;
            if end > 3 && l.ready() {
                break;
            }
        } else if l.ready() {
            l.fed = Some(feed(c, &mut l.t, &l.inner, depth, forky, usize::MAX));
        }
        if restarts && c.rng.chance(1, 12) {
            c.t("restart");
            drop(src);
                kept(c, &store(&db)?, &l, depth)?;
            src = mk(&l)?;
            c.count("restarts", 1);
            if untaken.is_some() {
                c.count("restarts_before_a_block_was_taken", 1);
            }
        }
        let from = chain.last().map(|i| point(&l.t.blocks[*i])).or(start.clone());
        let patience = if c.rng.chance(1, 3) { 1 } else { 8 };
        let (out, took) = l.pull(c, &mut src, &from, patience)?;
        match out {
            Out::Event(v) if v.tip => {
                ensure!(took == Some(Fed::Tip) && v == tip_event(), "a tip notification came out although the inner source gave {took:?}");
                c.count("tips_passed_on", 1);
                continue;
            }
            Out::Event(v) => {
                let Some(&i) = l.t.by_id.get(&v.id) else { return Err(format!("delivered a block never received: {v:?}")) };
                ensure!(v == l.t.blocks[i] && l.seen[i], "delivered block {i} as {v:?}, received {:?}", l.t.blocks[i]);
                ensure!(took != Some(Fed::Tip), "a tip notification was swallowed");
                let max = seen_max(&l.t, &l.seen);
                let below: Vec<usize> = (0..l.seen.len()).filter(|b| l.seen[*b] && l.t.height[*b] == max).collect();
                ensure!(
                    l.t.height[i] + depth <= max && below.iter().any(|b| l.t.is_ancestor(i, *b)),
                    "delivered block {i} at {} without {depth} blocks over it on the longest chain (height {max})", l.t.height[i]
                );
                if let Some(u) = untaken {
                    ensure_eq!(i, u, "pulling again from the same point gave another block");
                    c.count("repeated_deliveries", 1);
                } else {
                    ensure!(!chain.contains(&i), "block {i} was delivered twice");
                    ensure!(
                        l.t.parent[i] == chain.last().copied(),
                        "delivered block {i} under {:?} after block {:?}", l.t.parent[i], chain.last()
                    );
                    c.count("blocks_delivered", 1);
                    c.max("most_descendants_at_delivery", (max - l.t.height[i]) as u64);
                }
                c.t(format!("delivered {i}"));
                untaken = Some(i);
            }
            _ => {
                ensure!(took != Some(Fed::Tip), "a tip notification was swallowed");
                if let Some(u) = untaken {
                    return Err(format!("pulling again from the same point did not give block {u} again"));
                }
            }
        }
        // now and then the consumer does not take the block yet
        let at_start = chain.is_empty() && start.is_some();
        if untaken.is_some() && (at_start || !c.rng.chance(1, 5)) {
            chain.push(untaken.take().unwrap());
        }
    }
    let max = seen_max(&l.t, &l.seen);
    let want = max.saturating_sub(depth);
    let have = chain.len() + untaken.iter().count();
    ensure_eq!(have, want, "blocks delivered of a chain of {max} at depth {depth} once nothing was left to pull");
    c.count("blocks_received", l.t.blocks.len() as u64);
    c.count("blocks_off_the_longest_chain", (l.t.blocks.len() - max) as u64);
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().lines().take(8).collect::<Vec<_>>().join("; "));
    Ok(())
}

// ------------------------------------------------------------------ over a node
/// the node's chain and what becomes of it
struct Follow {
    l: Link,
    depth: usize,
    chain: Vec<usize>,
    longest: usize,
}

impl Follow {
    fn new(c: &mut Case, depth: usize) -> Follow {
        let l = Link::new(c);
        l.inner.0.lock().unwrap().node = Some(Node::default());
        Follow { l, depth, chain: vec![], longest: 0 }
    }
    fn tell(&mut self, c: &mut Case, cut: bool) {
        self.longest = self.longest.max(self.chain.len());
        let mut s = self.l.inner.0.lock().unwrap();
        let n = s.node.as_mut().unwrap();
        n.chain = self.chain.iter().map(|i| self.l.t.blocks[*i].clone()).collect();
        if cut {
            n.range.clear();
        }
        c.t(format!("node: {} blocks, newest {:?}", self.chain.len(), self.chain.last()));
    }
    fn grow(&mut self, c: &mut Case, n: usize) {
        for _ in 0..n {
            let i = self.l.t.grow(self.chain.last().copied());
            self.chain.push(i);
        }
        self.tell(c, false);
    }
    /// the node goes over to another branch, which parts where nothing is confirmed yet
    fn reorganise(&mut self, c: &mut Case) {
        let low = (self.longest + 1).saturating_sub(self.depth);
        if self.longest <= self.depth || low >= self.chain.len() {
            return;
        }
        let keep = c.rng.range(low, self.chain.len() - 1);
        c.t(format!("node reorganises to its block {keep}"));
        c.max("deepest_reorganisation", (self.chain.len() - keep) as u64);
        self.chain.truncate(keep);
        let n = c.rng.range(1, self.depth + 2);
        for _ in 0..n {
            let i = self.l.t.grow(self.chain.last().copied());
            self.chain.push(i);
        }
        c.count("reorganisations", 1);
        let cut = c.rng.chance(1, 2);
        self.tell(c, cut);
    }
    /// now and then a pull fails, stalls or brings nothing
    fn trouble(&mut self, c: &mut Case) {
        if !self.l.ready() || !c.rng.chance(1, 10) {
            return;
        }
        let stall = if c.rng.chance(1, 2) { c.rng.range(1, 7) } else { 0 };
        let fail = c.rng.chance(1, 2);
        let (item, fed) = if fail { (Item::Fail("inner failure".into()), Fed::Fail) } else { (Item::Nothing, Fed::Nothing) };
        c.t(format!("node stalls for {stall} polls, then {fed:?}"));
        self.l.inner.0.lock().unwrap().items.push_back((stall, item));
        self.l.fed = Some(fed);
        c.count("troubles_of_a_node", 1);
    }
    fn step(&mut self, c: &mut Case) {
        self.trouble(c);
        match c.rng.below(12 * (1 + self.depth / 8)) {
            0..=2 => {
                let n = c.rng.range(1, 2 * self.depth + 3);
                self.grow(c, n)
            }
            3 | 4 => self.reorganise(c),
            _ => {}
        }
    }
    /// nothing changes any more: its chain is the longest there was
    fn settle(&mut self, c: &mut Case) {
        let n = (self.longest + 1).saturating_sub(self.chain.len()).max(1);
        self.grow(c, n);
    }
    fn pull<S: Source<From = Option<P>>>(&mut self, c: &mut Case, src: &mut S, from: &Option<P>) -> Result<(Option<S::Event>, Option<Fed>), String> {
        let (out, took) = self.l.pull(c, src, from, 4)?;
        let s = self.l.inner.0.lock().unwrap();
        let n = s.node.as_ref().unwrap();
        c.t(format!("pull {from:?}: inner asked for {:?}, gave {took:?}, {}", s.asked.last(), if matches!(out, Out::Event(_)) { "delivery" } else { "nothing" }));
        ensure!(n.strangers == 0, "the node was asked for {:?}, none of which it can serve the wanted blocks {:?} from", s.asked.last(), self.chain);
        Ok(match out {
            Out::Event(e) => (Some(e), took),
            _ => (None, took),
        })
    }
}

pub fn confirmed_of_node(c: &mut Case) -> R {
    let depth = if c.rng.chance(1, 300) { c.rng.range(40, 130) } else { c.rng.range(1, 7) };
    let mut f = Follow::new(c, depth);
    let start = c.rng.chance(1, 3).then(|| P("@genesis".into()));
    f.l.inner.0.lock().unwrap().node.as_mut().unwrap().older = start.is_some();
    c.t(format!("depth {depth} from {start:?}"));
    let at = c.rng.chance(1, 8).then(|| Scratch::new("srcx"));
    let db = at.as_ref().map(database).transpose()?;
    let mk = |l: &Link| -> Result<_, String> {
        let m = store(&db)?;
        guard("construction", || MultiverseSource::new(m, depth, l.inner.clone()))
    };
    let mut src = mk(&f.l)?;
    let mut taken: Vec<usize> = vec![];
    let steps = c.rng.range(20, 120) * (1 + depth / 8);
    let mut quiet = 0;
    for step in 0.. {
        if step < steps {
            f.step(c);
        } else if step == steps {
            f.settle(c);
        } else if quiet > 3 {
            break;
        }
        ensure!(step < steps + 20 * f.l.t.blocks.len() + 100, "deliveries never end");
        if db.is_some() && c.rng.chance(1, 15) {
            c.t("restart");
            drop(src);
            src = mk(&f.l)?;
            c.count("restarts_over_a_node", 1);
        }
        let from = taken.last().map(|i| point(&f.l.t.blocks[*i])).or(start.clone());
        let (got, took) = f.pull(c, &mut src, &from)?;
        quiet = if got.is_some() || took.is_some() || step <= steps { 0 } else { quiet + 1 };
        let Some(v) = got else { continue };
        let Some(&i) = f.l.t.by_id.get(&v.id) else { return Err(format!("delivered a block never received: {v:?}")) };
        ensure!(v == f.l.t.blocks[i] && f.l.seen[i], "delivered block {i} as {v:?}, received {:?}", f.l.t.blocks[i]);
        ensure!(f.l.t.parent[i] == taken.last().copied(), "delivered block {i} under {:?} after block {:?}", f.l.t.parent[i], taken.last());
        ensure!(f.l.t.height[i] + depth <= seen_max(&f.l.t, &f.l.seen), "delivered block {i} without {depth} blocks over it");
        taken.push(i);
        c.count("blocks_of_a_node", 1);
    }
    ensure_eq!(taken, f.chain[..f.chain.len().saturating_sub(depth)].to_vec(), "blocks delivered of the node's chain");
    c.count("chains_caught_up", 1);
    c.distinct(c.trace_hash());
    Ok(())
}

pub fn forks_of_node(c: &mut Case) -> R {
    let depth = if c.rng.chance(1, 300) { c.rng.range(40, 130) } else { c.rng.range(1, 7) };
    let mut f = Follow::new(c, depth);
    let start = c.rng.chance(1, 3).then(|| P("@genesis".into()));
    f.l.inner.0.lock().unwrap().node.as_mut().unwrap().older = start.is_some();
    c.t(format!("depth {depth} from {start:?}"));
    let m = store(&None)?;
    let mut src = guard("construction", || ForkHandlingSource::<K, V, Inner, Event<V, P>>::new(m, depth, f.l.inner.clone()))?;
    let mut have: Vec<usize> = vec![];
    let steps = c.rng.range(20, 120) * (1 + depth / 8);
    let mut quiet = 0;
    for step in 0.. {
        if step < steps {
            f.step(c);
        } else if step == steps {
            f.settle(c);
        } else if quiet > 3 {
            break;
        }
        ensure!(step < steps + 20 * f.l.t.blocks.len() + 100, "deliveries never end");
        let from = have.last().map(|i| point(&f.l.t.blocks[*i])).or(start.clone());
        let (got, took) = f.pull(c, &mut src, &from)?;
        quiet = if got.is_some() || took.is_some() || step <= steps { 0 } else { quiet + 1 };
        match got {
            None => {}
            Some(Event::InnerEvent(v)) => {
                let Some(&i) = f.l.t.by_id.get(&v.id) else { return Err(format!("delivered a block never received: {v:?}")) };
                ensure!(v == f.l.t.blocks[i] && f.l.seen[i], "delivered block {i} as {v:?}, received {:?}", f.l.t.blocks[i]);
                ensure!(f.l.t.parent[i] == have.last().copied(), "delivered block {i} under {:?} while the head is {:?}", f.l.t.parent[i], have.last());
                have.push(i);
                c.count("blocks_of_a_node", 1);
            }
            Some(Event::Rollback(p)) if have.is_empty() => ensure!(start == Some(p.clone()), "rollback to {p:?} of a consumer starting at {start:?}"),
            Some(Event::Rollback(p)) => {
                let Some(k) = have.iter().position(|i| point(&f.l.t.blocks[*i]) == p) else { return Err(format!("rollback to {p:?}, which the consumer does not have")) };
                ensure!(k + 1 < have.len(), "a rollback to the head");
                have.truncate(k + 1);
                c.count("rollbacks_of_a_node", 1);
            }
        }
    }
    ensure_eq!(have, f.chain, "the consumer's chain, at the end, and the node's");
    c.count("chains_caught_up", 1);
    c.distinct(c.trace_hash());
    Ok(())
}

// ------------------------------------------------------------------ forks
pub fn forks(c: &mut Case, restarts: bool) -> R {
    let depth = c.rng.range(1, 8);
    let forky = c.rng.chance(9, 10);
    let mut l = Link::new(c);
    let at = restarts.then(|| Scratch::new("srcx"));
    let db = at.as_ref().map(database).transpose()?;
    // the consumer starts with nothing, or with the block under the first one
    let start = c.rng.chance(1, 2).then(|| P("@genesis".into()));
    c.t(format!("depth {depth} from {start:?}"));
    let mk = |l: &Link| -> Result<_, String> {
        let m = store(&db)?;
        guard("construction", || ForkHandlingSource::<K, V, Inner, Event<V, P>>::new(m, depth, l.inner.clone()))
    };
    let mut src = mk(&l)?;
    let mut head: Option<usize> = None;
    let mut newest: Option<usize> = None;
    let mut steps = if restarts { let long = c.rng.chance(1, 20); c.rng.range(10, if long { 250 } else { 70 }) } else { c.rng.range(10, 150) };
    let mut cut: Option<usize> = None; // where the consumer was cut back to, until the next block
    let mut begun = false;
    loop {
        let idle = head == newest && cut.is_none() && l.ready();
        if idle {
            if steps == 0 {
                break;
            }
            steps -= 1;
            let max = seen_max(&l.t, &l.seen);
            let highest = l.seen.iter().enumerate().filter(|(i, s)| **s && l.t.height[*i] == max).count();
            // after a restart the head is taken to be the highest block
            if restarts && c.rng.chance(1, 8) && (head.is_none() && !begun || head.is_some_and(|h| l.t.height[h] == max) && highest == 1) {
                c.t("restart");
                drop(src);
                kept(c, &store(&db)?, &l, depth)?;
                src = mk(&l)?;
                c.count("restarts", 1);
            }
            l.fed = Some(feed(c, &mut l.t, &l.inner, depth, forky, depth));
        }
        let from = head.map(|i| point(&l.t.blocks[i])).or(start.clone());
        let patience = if c.rng.chance(1, 3) { 1 } else { 8 };
        let pending = head != newest || cut.is_some();
        let (out, took) = l.pull(c, &mut src, &from, patience)?;
        if pending {
            ensure!(took.is_none(), "the inner source was pulled although events were pending");
        }
        if let Some(Fed::New(i)) = took {
            newest = Some(i);
        }
        match out {
            Out::Event(e) => {
                use dcspark_blockchain_source::EventObject;
                let is_tip = e.is_blockchain_tip();
                match e {
                    Event::InnerEvent(v) if v.tip => {
                        ensure!(took == Some(Fed::Tip) && v == tip_event(), "a tip notification came out although the inner source gave {took:?}");
                        ensure!(is_tip, "a tip notification is not announced as one");
                        c.count("tips_passed_on", 1);
                    }
                    Event::InnerEvent(v) => {
                        ensure!(!is_tip, "a block is announced as a tip notification");
                        let Some(&i) = l.t.by_id.get(&v.id) else { return Err(format!("delivered a block never received: {v:?}")) };
                        ensure!(v == l.t.blocks[i] && l.seen[i], "delivered block {i} as {v:?}, received {:?}", l.t.blocks[i]);
                        c.t(format!("block {i}"));
                        ensure!(l.t.parent[i] == head, "delivered block {i} under {:?} while the head is {head:?}", l.t.parent[i]);
                        ensure!(newest.is_some_and(|n| l.t.is_ancestor(i, n)), "delivered block {i} off the branch of the newest block {newest:?}");
                        head = Some(i);
                        cut = None;
                        begun = true;
                        c.count("blocks_delivered", 1);
                    }
                    Event::Rollback(p) => {
                        ensure!(!is_tip, "a rollback is announced as a tip notification");
                        c.t(format!("rollback to {p:?}"));
                        let Some(n) = newest else { return Err("rollback without any block".into()) };
                        match head {
                            None => {
                                ensure!(!begun && start == Some(p.clone()), "rollback to {p:?} of a consumer starting at {start:?}");
                                begun = true;
                                c.count("rollbacks_to_the_start", 1);
                                cut = Some(usize::MAX);
                            }
                            Some(h) => {
                                ensure!(cut.is_none(), "a second rollback before any block");
                                let a = l.t.lca(h, n).ok_or("no common block")?;
                                ensure!(a != h, "a rollback although the newest block {n} extends the head {h}");
                                ensure!(p == point(&l.t.blocks[a]), "rollback to {p:?}; the branches of {h} and {n} part at block {a}, {:?}", point(&l.t.blocks[a]));
                                c.count("rollbacks", 1);
                                c.max("deepest_rollback", (l.t.height[h] - l.t.height[a]) as u64);
                                c.max("longest_new_branch", (l.t.height[n] - l.t.height[a]) as u64);
                                head = Some(a);
                                cut = Some(a);
                            }
                        }
                    }
                }
            }
            _ => {
                ensure!(!pending, "nothing came out while the head {head:?} is not the newest block {newest:?}");
                ensure!(!matches!(took, Some(Fed::Tip) | Some(Fed::New(_))), "{took:?} was swallowed");
                if matches!(took, Some(Fed::Again(_))) {
                    c.count("known_blocks_ignored", 1);
                }
            }
        }
        if let Some(Fed::Again(i)) = took {
            ensure!(head == newest && cut.is_none(), "the known block {i} changed the head");
        }
    }
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().lines().take(8).collect::<Vec<_>>().join("; "));
    Ok(())
}
