//! monitors of the block multiverse
use common::{ensure, ensure_eq, guard, mix, Case, Rng, Runner, Scratch, R};
use dcspark_core::BlockNumber;
use multiverse::{BestBlockSelectionRule, EntryRef, Multiverse, MultiverseError, Variant};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::path::Path;
use std::sync::Arc;

// ------------------------------------------------------------------ keys and blocks
trait Key: AsRef<[u8]> + Eq + Hash + Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static {
    fn make(id: u64, salt: u64) -> Self;
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Text(String);
impl AsRef<[u8]> for Text {
    fn as_ref(&self) -> &[u8] {
        self.0.as_bytes()
    }
}
impl Key for Text {
    fn make(id: u64, salt: u64) -> Self {
        Text(match (salt >> 3) % 3 {
            0 => format!("b{id}"),
            1 => format!("{}-{}", mix(id ^ salt) % 10, id), // separators, shared prefixes
            _ => "x".repeat(id as usize % 40) + &format!("é{id}"),
        })
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Bytes(Vec<u8>);
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Key for Bytes {
    fn make(id: u64, salt: u64) -> Self {
        Bytes(match (salt >> 3) % 2 {
            0 => (0..4).flat_map(|i| mix(id ^ salt ^ mix(i)).to_le_bytes()).collect(), // a 32-byte hash
            _ => id.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect(),   // 0 is the empty key
        })
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct Block<K> {
    id: K,
    parent: K,
    number: u64,
    payload: String,
}
impl<K: Key> Variant for Block<K> {
    type Key = K;
    fn id(&self) -> &K {
        &self.id
    }
    fn parent_id(&self) -> &K {
        &self.parent
    }
    fn block_number(&self) -> BlockNumber {
        BlockNumber::new(self.number)
    }
}

// ------------------------------------------------------------------ the model
#[derive(Clone, Debug)]
struct Spec {
    id: u64,
    parent: u64,
    number: u64,
}

#[derive(Clone, Default)]
struct Model {
    held: BTreeMap<u64, Spec>,
    link: HashMap<u64, u64>,
}

impl Model {
    fn insert(&mut self, b: &Spec) -> bool {
        if self.held.contains_key(&b.id) {
            return false;
        }
        if self.held.contains_key(&b.parent) {
            self.link.insert(b.id, b.parent);
        }
        self.held.insert(b.id, b.clone());
        true
    }
    fn remove(&mut self, id: u64) -> Option<Spec> {
        let b = self.held.remove(&id)?;
        self.link.remove(&id);
        self.link.retain(|_, p| *p != id);
        Some(b)
    }
    fn tips(&self) -> BTreeSet<u64> {
        let parents: HashSet<u64> = self.link.values().copied().collect();
        self.held.keys().copied().filter(|x| !parents.contains(x)).collect()
    }
    fn ancestor(&self, id: u64, depth: usize) -> Option<u64> {
        let mut x = id;
        for _ in 0..depth {
            x = *self.link.get(&x)?;
        }
        Some(x)
    }
    fn highest(&self) -> Vec<u64> {
        let m = self.held.values().map(|b| b.number).max();
        self.held.values().filter(|b| Some(b.number) == m).map(|b| b.id).collect()
    }
    fn chain_len(&self) -> usize {
        self.highest().iter().map(|&t| (0..).take_while(|&d| self.ancestor(t, d).is_some()).count()).max().unwrap_or(0)
    }
}

// ------------------------------------------------------------------ the world of one case
struct World<K: Key> {
    salt: u64,
    specs: Vec<Spec>, // every block ever generated; an id always means the same block
    ids: HashMap<K, u64>,
}

impl<K: Key> World<K> {
    fn new(salt: u64) -> Self {
        World { salt, specs: vec![], ids: HashMap::new() }
    }
    fn key(&self, id: u64) -> K {
        K::make(id, self.salt)
    }
    fn add(&mut self, parent: u64, number: u64) -> Spec {
        let s = Spec { id: self.specs.len() as u64, parent, number };
        self.ids.insert(self.key(s.id), s.id);
        self.specs.push(s.clone());
        s
    }
    fn block(&self, s: &Spec) -> Block<K> {
        Block { id: self.key(s.id), parent: self.key(s.parent), number: s.number, payload: format!("p\"{}é\n{}", s.id, mix(s.id)) }
    }
    fn id(&self, k: &K) -> Result<u64, String> {
        self.ids.get(k).copied().ok_or_else(|| format!("a block that was never inserted is reported: {k:?}"))
    }
}

type Mv<K> = Multiverse<K, Block<K>>;

fn contents<K: Key>(c: &mut Case, w: &World<K>, m: &Mv<K>, o: &Model) -> R {
    ensure_eq!(m.len(), o.held.len(), "count");
    ensure_eq!(m.is_empty(), o.held.is_empty(), "emptiness");
    for s in &w.specs {
        let k = w.key(s.id);
        let held = o.held.contains_key(&s.id);
        ensure_eq!(m.contains(&k), held, "membership of block {}", s.id);
        match m.get(&k) {
            None => ensure!(!held, "held block {} is not returned", s.id),
            Some(v) => {
                ensure!(held, "block {} is returned but not held", s.id);
                ensure!(*v == w.block(s), "block {} has another value: {v:?}", s.id);
            }
        }
    }
    let absent = w.key(1_000_003);
    ensure!(!m.contains(&absent) && m.get(&absent).is_none(), "a block never inserted is present");
    let mut tips = BTreeSet::new();
    for t in m.tips() {
        ensure!(tips.insert(w.id(&t)?), "a tip is listed twice");
    }
    ensure_eq!(tips, o.tips(), "tips");
    let mut seen = BTreeSet::new();
    let mut last = 0u64;
    for b in m.iter() {
        let id = w.id(&b.id)?;
        ensure!(seen.insert(id), "iteration yields block {id} twice");
        ensure!(b.number >= last, "iteration goes back from number {last} to {}", b.number);
        ensure!(o.held.contains_key(&id), "iteration yields block {id} which is not held");
        ensure!(*b == w.block(&w.specs[id as usize]), "iteration yields another value for block {id}");
        last = b.number;
    }
    ensure_eq!(seen.len(), o.held.len(), "blocks iterated");
    c.count("states_compared", 1);
    c.count("blocks_compared", w.specs.len() as u64);
    c.max("max_blocks_held", o.held.len() as u64);
    c.max("max_tips", o.tips().len() as u64);
    Ok(())
}

/// the selection, checked; returns what was selected and what may be discarded
fn select<K: Key>(c: &mut Case, w: &World<K>, m: &Mv<K>, o: &Model, depth: usize, gap: usize) -> Result<(Option<EntryRef<K>>, Vec<EntryRef<K>>), String> {
    let rule = BestBlockSelectionRule::LongestChain { depth, age_gap: gap };
    let best = guard("select_best_block", || m.select_best_block(rule))?;
    let top = o.highest();
    let mut allowed: BTreeSet<Option<u64>> = top.iter().map(|&t| o.ancestor(t, depth)).collect();
    if top.is_empty() {
        allowed.insert(None);
    }
    let got = match &best.selected {
        None => None,
        Some(k) => Some(w.id(k.inner())?),
    };
    ensure!(allowed.contains(&got), "depth {depth}: selected {got:?}, allowed {allowed:?} (highest blocks {top:?})");
    let mut disc = BTreeSet::new();
    for d in &best.discarded {
        ensure!(disc.insert(w.id(d.inner())?), "a block is discarded twice");
    }
    let want: BTreeSet<u64> = match got {
        None => BTreeSet::new(),
        Some(s) => {
            let max = o.held[&s].number.saturating_sub(gap as u64);
            o.held.values().filter(|b| b.number < max).map(|b| b.id).collect()
        }
    };
    ensure_eq!(disc, want, "depth {depth}, age gap {gap}: discarded blocks when {got:?} is selected");
    match guard("preferred_fork_tip", || m.preferred_fork_tip(rule))? {
        None => ensure!(o.held.is_empty(), "no preferred tip though there are blocks"),
        Some(t) => {
            let t = w.id(t.inner())?;
            let tips = o.tips();
            ensure!(tips.contains(&t), "the preferred tip {t} is not a tip ({tips:?})");
            let high = tips.iter().map(|x| o.held[x].number).max().unwrap();
            ensure!(o.held[&t].number == high, "the preferred tip {t} has number {}, another has {high}", o.held[&t].number);
        }
    }
    c.count("selections", 1);
    if got.is_some() {
        c.count("selections_of_a_block", 1);
    }
    if allowed.len() > 1 {
        c.count("selections_with_ties", 1);
    }
    c.count("blocks_reported_discardable", disc.len() as u64);
    Ok((best.selected, best.discarded.into_iter().collect()))
}

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Chain,    // numbers are the parent's plus one
    Rising,   // numbers are above the parent's
    Any,      // any numbers at all
}

fn pick_held(r: &mut Rng, o: &Model, recent: bool) -> Option<u64> {
    if o.held.is_empty() {
        return None;
    }
    let v: Vec<u64> = o.held.keys().copied().collect();
    if recent {
        let tips: Vec<u64> = o.tips().into_iter().collect();
        return Some(*r.pick(&tips));
    }
    Some(*r.pick(&v))
}

/// a new block for the world: child of a held block, of a known one, or of an unknown one
fn fresh<K: Key>(r: &mut Rng, w: &mut World<K>, o: &Model, shape: Shape) -> Spec {
    let recent = r.chance(3, 5);
    let parent = match r.below(12) {
        // in some worlds one block has very many children
        0..=5 if w.salt % 5 == 0 && !o.held.is_empty() => o.held.keys().nth(w.salt as usize / 5 % o.held.len().min(3)).copied(),
        0..=7 => pick_held(r, o, recent),
        8 | 9 if !w.specs.is_empty() => Some(r.below(w.specs.len()) as u64),
        _ => None,
    };
    let (pid, pnum) = match parent {
        Some(p) => (p, Some(w.specs[p as usize].number)),
        None => (2_000_000 + r.below(4) as u64, None),
    };
    // a block may even name itself as its parent
    let pid = if pnum.is_none() && r.chance(1, 6) { w.specs.len() as u64 } else { pid };
    let number = match (shape, pnum) {
        (Shape::Chain, Some(n)) => n.saturating_add(1),
        (Shape::Rising, Some(n)) => n.saturating_add(1 + if r.chance(1, 3) { let bits = if r.chance(1, 4) { 40 } else { 12 }; r.skewed(bits) } else { 0 }),
        (Shape::Any, _) if r.chance(1, 2) => *r.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1]),
        (Shape::Any, _) => r.skewed(64),
        (_, None) if r.chance(1, 3) => r.skewed(63),
        (_, None) => r.below(6) as u64,
    };
    w.add(pid, number)
}

fn insert<K: Key>(c: &mut Case, w: &World<K>, m: &mut Mv<K>, o: &mut Model, s: &Spec) -> R {
    let was = o.held.contains_key(&s.id);
    c.t(format!("insert {}{} (parent {}{}, number {})", s.id, if was { " again" } else { "" }, s.parent, if o.held.contains_key(&s.parent) { "" } else { " not held" }, s.number));
    let mut b = w.block(s);
    if was && c.rng.chance(1, 2) {
        // the same identifier with other contents: the block is present, so nothing may change
        b.payload = format!("other {}", c.rng.below(100));
        if c.rng.chance(1, 2) {
            b.number = match c.rng.below(3) {
                0 => b.number.wrapping_add(1),
                1 => 0,
                _ => c.rng.skewed(64),
            };
        }
        if c.rng.chance(1, 2) {
            let p = match pick_held(&mut c.rng, o, false) {
                Some(p) if c.rng.chance(2, 3) => p,
                _ => 3_000_000,
            };
            b.parent = w.key(p);
        }
        c.t(format!("  with other contents: {b:?}"));
        c.count("conflicting_insertions", 1);
    }
    guard("insert", || m.insert(b))?.map_err(|e| format!("insert: {e:?}"))?;
    o.insert(s);
    c.count(if was { "repeated_insertions" } else { "insertions" }, 1);
    Ok(())
}

fn remove<K: Key>(c: &mut Case, w: &World<K>, m: &mut Mv<K>, o: &mut Model, k: &EntryRef<K>) -> R {
    let id = w.id(k.inner()).unwrap_or(u64::MAX);
    let want = o.remove(id);
    c.t(format!("remove {id}{}", if want.is_some() { "" } else { " (not held)" }));
    match (guard("remove", || m.remove(k))?, want) {
        (Ok(v), Some(s)) => {
            ensure!(v == w.block(&s), "removing block {id} returned another value: {v:?}");
            c.count("removals", 1);
        }
        (Err(MultiverseError::NotFound), None) => c.count("refused_removals", 1),
        (Ok(_), None) => return Err(format!("removing the absent block {id} succeeded")),
        (Err(e), _) => return Err(format!("removing block {id}: {e:?}")),
    }
    Ok(())
}

// ------------------------------------------------------------------ C20 and C21
fn history<K: Key>(c: &mut Case, shape: Shape, only_selection: bool) -> R {
    let mut w: World<K> = World::new(c.rng.next());
    let mut o = Model::default();
    let db;
    let mut m: Mv<K> = if c.rng.chance(1, 4) {
        Multiverse::temporary().map_err(|e| format!("{e:?}"))?
    } else {
        db = sled::Config::new().temporary(true).open().map_err(|e| e.to_string())?;
        // what is held does not depend on what is stored
        let from = match c.rng.below(3) {
            0 => 0,
            1 => c.rng.below(12) as u64,
            _ => c.rng.skewed(64),
        };
        c.t(format!("stored from {from}"));
        Multiverse::load_from(db.clone(), "d", BlockNumber::new(from)).map_err(|e| format!("{e:?}"))?
    };
    // references the caller keeps alive: tips, selections, own copies of removed keys
    let mut kept: Vec<EntryRef<K>> = vec![];
    let mut kept_arcs: Vec<Arc<K>> = vec![];
    let keep = c.rng.chance(3, 4);
    let steps = c.rng.range(10, 110);
    for step in 0..steps {
        let a = c.rng.below(20);
        match a {
            0..=8 => {
                let s = fresh(&mut c.rng, &mut w, &o, shape);
                insert(c, &w, &mut m, &mut o, &s)?;
            }
            9 | 10 if !w.specs.is_empty() => {
                // a block known before: still held, or removed
                let s = c.rng.pick(&w.specs).clone();
                insert(c, &w, &mut m, &mut o, &s)?;
            }
            11 => {
                // a parent that was missing when its child arrived
                let missing: Vec<u64> = w.specs.iter().map(|s| s.parent).filter(|p| *p < w.specs.len() as u64 && !o.held.contains_key(p)).collect();
                if !missing.is_empty() {
                    let s = w.specs[*c.rng.pick(&missing) as usize].clone();
                    insert(c, &w, &mut m, &mut o, &s)?;
                }
            }
            12..=14 => {
                let k = match c.rng.below(6) {
                    0 if !kept.is_empty() => c.rng.pick(&kept).clone(),
                    1 => EntryRef::new(w.key(c.rng.below(w.specs.len() + 1) as u64)),
                    _ => {
                        let tip = c.rng.chance(1, 3);
                        match pick_held(&mut c.rng, &o, tip) {
                            Some(x) => EntryRef::new(w.key(x)),
                            None => continue,
                        }
                    }
                };
                remove(c, &w, &mut m, &mut o, &k)?;
            }
            15 | 16 => {
                let depth = c.rng.below(o.chain_len() + 2);
                let gap = if c.rng.chance(1, 2) { c.rng.below(4) } else { c.rng.skewed(64) as usize };
                let (sel, disc) = select(c, &w, &m, &o, depth, gap)?;
                c.t(format!("select depth {depth} gap {gap}: {:?}", sel.as_ref().map(|k| w.ids.get(k.inner()))));
                if keep {
                    kept.extend(sel);
                    if let Some(d) = disc.first() {
                        kept.push(d.clone());
                    }
                }
                if c.rng.chance(1, 2) {
                    for d in disc {
                        remove(c, &w, &mut m, &mut o, &d)?;
                        c.count("discarded_blocks_removed", 1);
                    }
                }
            }
            17 if keep => kept_arcs.extend(m.tips()),
            19 if c.rng.chance(1, 25) => {
                c.t("clear".to_string());
                guard("clear", || m.clear())?.map_err(|e| format!("clear: {e:?}"))?;
                o = Model::default();
                c.count("clears", 1);
            }
            18 => {
                kept.truncate(c.rng.below(kept.len() + 1));
                kept_arcs.truncate(c.rng.below(kept_arcs.len() + 1));
            }
            _ => {}
        }
        if !only_selection || step % 8 == 7 {
            contents(c, &w, &m, &o)?;
        }
        if only_selection {
            let n = o.chain_len();
            for depth in 0..=n + 1 {
                let gap = if c.rng.chance(3, 4) { c.rng.below(n + 2) } else { c.rng.skewed(64) as usize };
                select(c, &w, &m, &o, depth, gap)?;
            }
            select(c, &w, &m, &o, usize::MAX, 0)?;
        } else {
            // nothing reported may dangle either
            let depth = c.rng.below(3);
            select(c, &w, &m, &o, depth, 0)?;
        }
        c.beat();
    }
    contents(c, &w, &m, &o)?;
    c.count("references_kept_by_caller", (kept.len() + kept_arcs.len()) as u64);
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().lines().take(12).collect::<Vec<_>>().join("; "));
    Ok(())
}

/// A node following a chain: insert, select, discard, on and on, with forks.
fn follow<K: Key>(c: &mut Case) -> R {
    let mut w: World<K> = World::new(c.rng.next());
    let mut o = Model::default();
    let mut m: Mv<K> = Multiverse::temporary().map_err(|e| format!("{e:?}"))?;
    let depth = c.rng.below(6);
    let gap = c.rng.below(5);
    let root = w.add(2_000_000, c.rng.below(3) as u64);
    insert(c, &w, &mut m, &mut o, &root)?;
    let mut held: Vec<EntryRef<K>> = vec![];
    let mut steady: Option<u64> = None;
    for _ in 0..c.rng.range(30, 160) {
        let back = if c.rng.chance(1, 4) { c.rng.below(3) } else { 0 };
        let top = *c.rng.pick(&o.highest());
        let p = o.ancestor(top, back).unwrap_or(top);
        let s = w.add(p, w.specs[p as usize].number + 1);
        insert(c, &w, &mut m, &mut o, &s)?;
        if c.rng.chance(1, 6) {
            let s = c.rng.pick(&w.specs).clone();
            if s.number + 3 > w.specs[top as usize].number {
                insert(c, &w, &mut m, &mut o, &s)?;
            }
        }
        let (sel, disc) = select(c, &w, &m, &o, depth, gap)?;
        if let Some(s) = &sel {
            let n = w.specs[w.id(s.inner())? as usize].number;
            if steady.is_some_and(|x| n != x) {
                c.count("selected_block_moved", 1);
            }
            steady = Some(n);
        }
        held.extend(sel);
        if held.len() > 3 {
            held.remove(0);
        }
        for d in disc {
            remove(c, &w, &mut m, &mut o, &d)?;
            c.count("discarded_blocks_removed", 1);
        }
        contents(c, &w, &m, &o)?;
    }
    c.distinct(c.trace_hash());
    Ok(())
}

// ------------------------------------------------------------------ C22
fn open_db(p: &Path) -> Result<sled::Db, String> {
    retry(|| sled::Config::new().path(p).open())
}

/// A closing database releases its file lock in the background.
fn retry<T, E: Debug>(f: impl Fn() -> Result<T, E>) -> Result<T, String> {
    let t = std::time::Instant::now();
    loop {
        match guard("open", &f)? {
            Ok(x) => return Ok(x),
            Err(e) => {
                let text = format!("{e:?}");
                if !text.contains("lock") || t.elapsed().as_secs() > 20 {
                    return Err(format!("open: {text}"));
                }
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
        }
    }
}

struct Dom<K: Key> {
    name: &'static str,
    from: u64,
    w: World<K>,
    o: Model,
    m: Option<Mv<K>>,
}

fn work<K: Key>(c: &mut Case, d: &mut Dom<K>, steps: usize) -> R {
    let mut m = d.m.take().unwrap();
    for _ in 0..steps {
        match c.rng.below(10) {
            0..=5 => {
                let s = fresh(&mut c.rng, &mut d.w, &d.o, if d.name.len() % 2 == 0 { Shape::Chain } else { Shape::Rising });
                insert(c, &d.w, &mut m, &mut d.o, &s)?;
            }
            6 | 7 if !d.w.specs.is_empty() => {
                let s = c.rng.pick(&d.w.specs).clone();
                insert(c, &d.w, &mut m, &mut d.o, &s)?;
            }
            8 => {
                if let Some(x) = pick_held(&mut c.rng, &d.o, false) {
                    let k = EntryRef::new(d.w.key(x));
                    remove(c, &d.w, &mut m, &mut d.o, &k)?;
                }
            }
            _ => {
                let depth = c.rng.below(4);
                let (_, disc) = select(c, &d.w, &m, &d.o, depth, 1)?;
                for x in disc.into_iter().take(3) {
                    remove(c, &d.w, &mut m, &mut d.o, &x)?;
                }
            }
        }
    }
    d.m = Some(m);
    Ok(())
}

/// the model of a multiverse opened from what the old one stored
fn reloaded(o: &Model, from: u64) -> Model {
    let mut v: Vec<&Spec> = o.held.values().filter(|s| s.number >= from).collect();
    v.sort_by_key(|s| (s.number, s.id));
    let mut n = Model::default();
    for s in v {
        n.insert(s);
    }
    n
}

fn verify<K: Key>(c: &mut Case, d: &Dom<K>) -> R {
    let m = d.m.as_ref().unwrap();
    contents(c, &d.w, m, &d.o).map_err(|e| format!("domain {:?} (stored from {}): {e}", d.name, d.from))?;
    for depth in 0..d.o.chain_len() + 2 {
        select(c, &d.w, m, &d.o, depth, depth % 3).map_err(|e| format!("domain {:?}: {e}", d.name))?;
    }
    Ok(())
}

fn reopen<K: Key>(c: &mut Case) -> R {
    let s = Scratch::new("c22");
    let path = s.join("db");
    let names: &[&'static str] = &["a", "ab", "a-b", "default", "B"];
    let nd = c.rng.range(1, 3);
    let mut doms: Vec<Dom<K>> = (0..nd)
        .map(|i| Dom {
            name: names[(i + c.rng.below(2) * 2) % names.len()],
            from: if c.rng.chance(1, 2) { 0 } else { c.rng.below(9) as u64 },
            w: World::new(c.rng.next()),
            o: Model::default(),
            m: None,
        })
        .collect();
    let mut seen = HashSet::new();
    doms.retain(|d| seen.insert(d.name));
    let mut kept: Vec<u64> = vec![];
    for cycle in 0..c.rng.range(2, 6) {
        let single = doms.len() == 1 && c.rng.chance(2, 3);
        let db = if single { None } else { Some(open_db(&path)?) };
        // what others keep in the same database
        let guests = match &db {
            None => vec![],
            Some(db) => vec![(**db).clone(), db.open_tree("guest").map_err(|e| e.to_string())?, db.open_tree(format!("{}x", doms[0].name)).map_err(|e| e.to_string())?],
        };
        for g in &guests {
            for n in kept.iter().copied() {
                ensure!(g.get(n.to_be_bytes()).map_err(|e| e.to_string())?.is_some(), "what others keep in the database was lost: entry {n} of tree {:?}", g.name());
                c.count("foreign_entries_kept", 1);
            }
            g.insert((cycle as u64).to_be_bytes(), vec![7; 9]).map_err(|e| e.to_string())?;
        }
        if db.is_some() {
            kept.push(cycle as u64);
        }
        for d in doms.iter_mut() {
            let from = BlockNumber::new(d.from);
            let m: Mv<K> = match &db {
                None => retry(|| Multiverse::open(&path, d.name, from))?,
                Some(db) => guard("load_from", || Multiverse::load_from(db.clone(), d.name, from))?.map_err(|e| format!("load_from: {e:?}"))?,
            };
            d.m = Some(m);
            let before = d.o.held.len();
            d.o = reloaded(&d.o, d.from);
            if cycle > 0 {
                c.count("reopenings", 1);
                c.count("blocks_restored", d.o.held.len() as u64);
                c.count("blocks_below_threshold_not_restored", (before - d.o.held.len()) as u64);
            }
            c.t(format!("open {:?} from {}: {} blocks", d.name, d.from, d.o.held.len()));
        }
        for d in &doms {
            verify(c, d)?;
        }
        for _ in 0..c.rng.range(1, 4) {
            let i = c.rng.below(doms.len());
            let n = c.rng.range(3, 30);
            work(c, &mut doms[i], n)?;
        }
        if c.rng.chance(1, 5) {
            let i = c.rng.below(doms.len());
            let d = &mut doms[i];
            c.t(format!("clear {:?}", d.name));
            guard("clear", || d.m.as_mut().unwrap().clear())?.map_err(|e| format!("clear: {e:?}"))?;
            d.o = Model::default();
            c.count("clears", 1);
            verify(c, d)?;
            if c.rng.chance(1, 2) {
                work(c, d, 6)?;
            }
        }
        for d in &doms {
            verify(c, d)?;
        }
        if c.rng.chance(1, 5) {
            let i = c.rng.below(doms.len());
            let d = &mut doms[i];
            c.t(format!("destroy {:?}", d.name));
            let m = d.m.take().unwrap();
            guard("destroy", || m.destroy())?.map_err(|e| format!("destroy: {e:?}"))?;
            d.o = Model::default();
            c.count("destroys", 1);
            if let (true, Some(db)) = (c.rng.chance(1, 2), &db) {
                // opened again while the database stays open
                d.m = Some(guard("load_from", || Multiverse::load_from(db.clone(), d.name, BlockNumber::new(d.from)))?.map_err(|e| format!("load_from: {e:?}"))?);
                verify(c, d)?;
                work(c, d, 8)?;
            }
            for d in doms.iter().filter(|d| d.m.is_some()) {
                verify(c, d)?;
            }
        }
        for g in &guests {
            ensure!(g.get((cycle as u64).to_be_bytes()).map_err(|e| e.to_string())?.is_some(), "what others keep in the database was lost from tree {:?}", g.name());
        }
        // half of the time one domain is closed and opened again while the others live on
        if let (true, Some(db)) = (c.rng.chance(1, 2), &db) {
            let i = c.rng.below(doms.len());
            let d = &mut doms[i];
            d.m = None;
            d.o = reloaded(&d.o, d.from);
            d.m = Some(guard("load_from", || Multiverse::load_from(db.clone(), d.name, BlockNumber::new(d.from)))?.map_err(|e| format!("load_from: {e:?}"))?);
            c.count("reopenings", 1);
            verify(c, d)?;
        }
        for d in doms.iter_mut() {
            d.m = None;
        }
        // a stored block that cannot be read is reported, not left out
        if let (true, Some(db)) = (c.rng.chance(1, 6), &db) {
            let i = c.rng.below(doms.len());
            let d = &doms[i];
            let tree = db.open_tree(d.name).map_err(|e| e.to_string())?;
            let all: Vec<(sled::IVec, sled::IVec)> = tree.iter().collect::<Result<_, _>>().map_err(|e| e.to_string())?;
            if !all.is_empty() {
                let (k, v) = c.rng.pick(&all).clone();
                let cut = c.rng.below(v.len());
                tree.insert(&k, &v[..cut]).map_err(|e| e.to_string())?;
                let r = guard("load_from", || Multiverse::<K, Block<K>>::load_from(db.clone(), d.name, BlockNumber::new(d.from)))?;
                ensure!(r.is_err(), "domain {:?} opens with {} blocks though a stored block of {} is unreadable", d.name, r.map(|m| m.len()).unwrap_or(0), all.len());
                tree.insert(&k, v).map_err(|e| e.to_string())?;
                c.count("unreadable_blocks_reported", 1);
            }
        }
        c.beat();
    }
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().lines().filter(|l| !l.starts_with("insert")).take(10).collect::<Vec<_>>().join("; "));
    Ok(())
}

// ------------------------------------------------------------------ C23
#[derive(Clone)]
enum Op {
    Insert(u64),
    Remove(u64),
}

/// what the killed process does, from a seed: it follows a chain with forks and discards old blocks
fn script<K: Key>(seed: u64, n: usize) -> (World<K>, Vec<Op>) {
    let mut r = Rng::new(seed);
    let mut w: World<K> = World::new(r.next());
    let mut o = Model::default();
    let mut ops = vec![];
    let keep = r.range(3, 60);
    while ops.len() < n {
        if o.held.len() > keep && r.chance(2, 3) {
            let id = if r.chance(5, 6) { *o.held.keys().next().unwrap() } else { pick_held(&mut r, &o, false).unwrap() };
            o.remove(id);
            ops.push(Op::Remove(id));
        } else if r.chance(1, 12) && !w.specs.is_empty() {
            // a block known before, held or not
            let s = w.specs[w.specs.len() - 1 - r.below(w.specs.len().min(20))].clone();
            o.insert(&s);
            ops.push(Op::Insert(s.id));
        } else {
            let s = fresh(&mut r, &mut w, &o, Shape::Chain);
            o.insert(&s);
            ops.push(Op::Insert(s.id));
        }
    }
    (w, ops)
}

const SCRIPT: usize = 6000;

fn child<K: Key>(path: &str, seed: u64, from: u64, start: usize, pace: u64) -> ! {
    use std::io::Write;
    let (w, ops) = script::<K>(seed, SCRIPT);
    let mut m: Mv<K> = retry(|| Multiverse::open(path, "d", BlockNumber::new(from))).expect("open");
    let mut out = std::io::stdout().lock();
    for (i, op) in ops.iter().enumerate().skip(start) {
        match op {
            Op::Insert(x) => m.insert(w.block(&w.specs[*x as usize])).expect("insert"),
            Op::Remove(x) => match m.remove(&EntryRef::new(w.key(*x))) {
                Ok(_) | Err(MultiverseError::NotFound) => {}
                Err(e) => panic!("remove: {e:?}"),
            },
        }
        if out.write_all(&(i as u64 + 1).to_le_bytes()).is_err() || out.flush().is_err() {
            std::process::exit(0);
        }
        if pace > 0 && mix(seed ^ i as u64) % 16 == 0 {
            std::thread::sleep(std::time::Duration::from_millis(pace));
        }
    }
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
}

fn killed<K: Key>(c: &mut Case, name: &str) -> R {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let s = Scratch::new("c23");
    let path = s.join("db");
    let seed = c.rng.next();
    let from = if c.rng.chance(2, 3) { 0 } else { c.rng.range(1, 10) as u64 };
    let (w, ops) = script::<K>(seed, SCRIPT);
    // what is stored after each number of steps
    let mut stored: BTreeSet<u64> = BTreeSet::new();
    let mut hash = 0u64;
    let mut after = vec![(0u64, 0usize)];
    for op in &ops {
        match op {
            Op::Insert(x) if w.specs[*x as usize].number >= from && stored.insert(*x) => hash ^= mix(*x + 77),
            Op::Remove(x) if stored.remove(x) => hash ^= mix(*x + 77),
            _ => {}
        }
        after.push((hash, stored.len()));
    }
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut have = 0usize;
    for round in 0..c.rng.range(2, 4) {
        let pace = *c.rng.pick(&[0, 1, 3, 20]);
        let mut ch = Command::new(&exe)
            .args(["child-follow", name, path.to_str().unwrap(), &seed.to_string(), &from.to_string(), &have.to_string(), &pace.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut pipe = ch.stdout.take().unwrap();
        let wait = if c.rng.chance(1, 2) { c.rng.range(450, 1700) } else { c.rng.range(10, 200) } as u64;
        let pid = ch.id() as i32;
        let killer = std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(wait));
            unsafe { libc::kill(pid, libc::SIGKILL) };
        });
        let mut got = vec![];
        let _ = pipe.read_to_end(&mut got);
        killer.join().unwrap();
        let st = ch.wait().map_err(|e| e.to_string())?;
        ensure!(st.signal() == Some(libc::SIGKILL), "the process ended by itself: {st}");
        let done = got.chunks_exact(8).last().map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize).unwrap_or(have);
        let m: Mv<K> = retry(|| Multiverse::open(&path, "d", BlockNumber::new(from))).map_err(|e| format!("after a kill: {e}"))?;
        let mut hash = 0;
        let mut n = 0;
        for b in m.iter() {
            hash ^= mix(w.id(&b.id)? + 77);
            n += 1;
        }
        let last = (done + 1).min(ops.len());
        let at = (have..=last).rev().find(|&j| after[j] == (hash, n));
        let at = at.ok_or_else(|| {
            let earlier = (0..have).rev().find(|&j| after[j] == (hash, n));
            format!("{have} steps were recovered before, {done} completed before the kill; the {n} blocks found are those after no such number of steps (earlier: {earlier:?})")
        })?;
        // everything else follows from the blocks
        let mut o = Model::default();
        for op in &ops[..at] {
            match op {
                Op::Insert(x) if w.specs[*x as usize].number >= from => {
                    o.insert(&w.specs[*x as usize]);
                }
                Op::Remove(x) => {
                    o.remove(*x);
                }
                _ => {}
            }
        }
        let d = Dom { name: "d", from, w: World { salt: w.salt, specs: w.specs.clone(), ids: w.ids.clone() }, o: reloaded(&o, from), m: Some(m) };
        verify(c, &d).map_err(|e| format!("after a kill, recovered at step {at} of {done}: {e}"))?;
        c.t(format!("round {round}: killed after {wait} ms and {done} steps, recovered at step {at}: {n} blocks"));
        c.count("real_kills", 1);
        c.count("blocks_found_after_kills", n as u64);
        if at < done {
            c.count("kills_losing_the_last_steps", 1);
        }
        if at > have {
            c.count("kills_with_steps_recovered", 1);
        }
        c.max("max_steps_before_a_kill", done as u64);
        have = at;
        c.beat();
    }
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().replace('\n', "; "));
    Ok(())
}

fn both(c: &mut Case, f: fn(&mut Case) -> R, g: fn(&mut Case) -> R) -> R {
    if c.index % 2 == 0 { f(c) } else { g(c) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("child-follow") {
        let n = |i: usize| a[i].parse::<u64>().unwrap();
        match a[2].as_str() {
            "text" => child::<Text>(&a[3], n(4), n(5), n(6) as usize, n(7)),
            _ => child::<Bytes>(&a[3], n(4), n(5), n(6) as usize, n(7)),
        }
    }
    let id = a.get(1).cloned().unwrap_or_default();
    let rule = match id.as_str() {
        "C20" => "a case is a history of insertions, removals and selections on one multiverse (up to 110 steps, the caller keeping references), compared with a model after every step; distinct = different histories",
        "C21" => "a case is a history of insertions and removals on one multiverse; after every step every depth up to beyond the chain and several age gaps are selected and compared with the model; distinct = different histories",
        "C22" => "a case is a series of open/work/close cycles over one to three domains of one database with storing thresholds, clears and destroys; distinct = different histories",
        "C23" => "a case is a process following a chain in a stored multiverse, killed (SIGKILL) two to four times at random moments, the multiverse opened after each kill; distinct = different numbers of steps done and recovered",
        _ => "",
    };
    let r = Runner::new(&id, rule);
    match id.as_str() {
        "C20" | "C21" => {
            let sel = id == "C21";
            r.phase("chains", r.n(8000, 80000), 8, r.n(25, 240) as f64, |c| {
                both(c, |c| history::<Text>(c, Shape::Chain, false), |c| history::<Bytes>(c, Shape::Chain, false))
            });
            r.phase("any_numbers", r.n(4000, 40000), 8, r.n(20, 200) as f64, |c| {
                both(c, |c| history::<Text>(c, Shape::Any, false), |c| history::<Bytes>(c, Shape::Rising, false))
            });
            if sel {
                r.phase("every_depth", r.n(3000, 30000), 8, r.n(20, 200) as f64, |c| {
                    both(c, |c| history::<Text>(c, Shape::Rising, true), |c| history::<Bytes>(c, Shape::Chain, true))
                });
            }
            r.phase("following_a_chain", r.n(1500, 15000), 8, r.n(15, 200) as f64, |c| both(c, follow::<Text>, follow::<Bytes>));
            r.finish(&["insertions", "repeated_insertions", "removals", "refused_removals", "states_compared", "selections_of_a_block", "selections_with_ties",
                "discarded_blocks_removed", "references_kept_by_caller", "selected_block_moved"])
        }
        "C22" => {
            r.phase("reopen", r.n(3000, 40000), 8, r.n(40, 400) as f64, |c| both(c, reopen::<Text>, reopen::<Bytes>));
            r.finish(&["insertions", "removals", "reopenings", "blocks_restored", "blocks_below_threshold_not_restored", "clears", "destroys", "foreign_entries_kept", "unreadable_blocks_reported"])
        }
        "C23" => {
            r.phase("kills", r.n(96, 2400), 12, r.n(40, 600) as f64, |c| both(c, |c| killed::<Text>(c, "text"), |c| killed::<Bytes>(c, "bytes")));
            r.finish(&["real_kills", "blocks_found_after_kills", "kills_with_steps_recovered", "states_compared", "selections"])
        }
        _ => std::process::exit(2),
    }
}
