//! C30 (UTxO store as a set of outputs) and C31 (snapshots)
use crate::dec::{self, Dec};
use crate::value::{same, val};
use common::{ensure, ensure_eq, guard, mix, Case, Rng, R};
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, TokenId, UTxOStore, UTxOStoreMut};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

type Ptr = (u64, u64);

#[derive(Clone)]
struct Out {
    ptr: Ptr,
    value: Dec,
    assets: Vec<(u64, Dec, u64)>, // token, quantity, naming
    salt: u64,
}

fn pointer(p: Ptr) -> UtxoPointer {
    UtxoPointer { transaction_id: TransactionId::new(format!("tx{}", p.0)), output_index: OutputIndex::new(p.1) }
}
fn unpointer(p: &UtxoPointer) -> Option<Ptr> {
    let t: &str = p.transaction_id.as_ref();
    Some((t.strip_prefix("tx")?.parse().ok()?, p.output_index.into()))
}
fn token(t: u64) -> TokenId {
    TokenId::new(format!("token{t}"))
}
fn names(t: u64, n: u64) -> (PolicyId, AssetName) {
    (PolicyId::new(format!("policy{t}-{n}")), AssetName::new(format!("name{t}-{n}")))
}

impl Out {
    fn details(&self) -> UTxODetails {
        UTxODetails {
            pointer: pointer(self.ptr),
            address: Address::new(format!("addr{}", self.salt % 5)),
            value: val(&self.value),
            assets: self
                .assets
                .iter()
                .map(|(t, q, n)| {
                    let (policy_id, asset_name) = names(*t, *n);
                    TransactionAsset { policy_id, asset_name, fingerprint: token(*t), quantity: val(q) }
                })
                .collect(),
            metadata: Arc::new(deps::serde_json::Value::from(self.salt)),
            extra: if self.salt % 3 == 0 { Some(format!("x{}", self.salt)) } else { None },
        }
    }
}

#[derive(Clone, Default)]
struct Model {
    outs: BTreeMap<Ptr, Out>,
    first: BTreeMap<u64, u64>,
}

struct Gen {
    txs: u64,
    tokens: u64,
    per: usize,
}

fn amount(r: &mut Rng) -> Dec {
    match r.below(8) {
        0 => Dec { digits: 0.into(), scale: 0 },
        1 | 2 => {
            // few amounts, written in several ways
            let k = r.below(3) as i64;
            Dec { digits: dec::pow10(k) * r.below(4), scale: k }
        }
        3 => dec::gen(r, 18),
        _ => Dec { digits: r.skewed(50).into(), scale: 0 },
    }
}

fn output(r: &mut Rng, g: &Gen) -> Out {
    let mut ts: Vec<u64> = (0..g.tokens).collect();
    if g.tokens > 40 {
        ts = (0..g.per).map(|_| r.below(g.tokens as usize) as u64).collect::<BTreeSet<_>>().into_iter().collect();
    }
    r.shuffle(&mut ts);
    ts.truncate(r.below(g.per + 1));
    if g.tokens > 40 && r.chance(1, 100) {
        ts = (0..g.tokens).filter(|_| r.chance(1, 2)).collect();
        r.shuffle(&mut ts);
    }
    Out {
        ptr: (r.below(g.txs as usize) as u64, r.below(3) as u64),
        value: amount(r),
        assets: ts.into_iter().map(|t| (t, amount(r), r.below(3) as u64)).collect(),
        salt: r.next(),
    }
}

fn insert(c: &mut Case, s: &mut UTxOStoreMut, m: &mut Model, o: &Out) -> R {
    let held = m.outs.contains_key(&o.ptr);
    c.t(format!("insert {:?}{} {} {:?}", o.ptr, if held { " (held)" } else { "" }, o.value.plain(), o.assets.iter().map(|(t, q, n)| (*t, q.plain(), *n)).collect::<Vec<_>>()));
    let d = o.details();
    let res = if o.salt % 2 == 0 { guard("insert", || s.insert(d))? } else { guard("insert", || s.insert_compat(d))? };
    match res {
        Ok(()) => {
            ensure!(!held, "inserting the held output {:?} again succeeded", o.ptr);
            for (t, _, n) in &o.assets {
                m.first.entry(*t).or_insert(*n);
            }
            m.outs.insert(o.ptr, o.clone());
            c.count("insertions", 1);
        }
        Err(e) => {
            ensure!(held, "inserting {:?} was refused: {e}", o.ptr);
            c.count("refused_insertions", 1);
        }
    }
    Ok(())
}

fn remove(c: &mut Case, s: &mut UTxOStoreMut, m: &mut Model, p: Ptr) -> R {
    let held = m.outs.contains_key(&p);
    c.t(format!("remove {p:?}{}", if held { "" } else { " (not held)" }));
    match guard("remove", || s.remove(&pointer(p)))? {
        Ok(()) => {
            ensure!(held, "removing the unknown output {p:?} succeeded");
            let o = m.outs.remove(&p).unwrap();
            for (t, _, _) in &o.assets {
                if !m.outs.values().any(|x| x.assets.iter().any(|a| a.0 == *t)) {
                    c.count("tokens_vanished", 1);
                }
            }
            c.count("removals", 1);
        }
        Err(e) => {
            ensure!(!held, "removing {p:?} was refused: {e}");
            c.count("refused_removals", 1);
        }
    }
    Ok(())
}

fn mutable_balances(c: &mut Case, s: &UTxOStoreMut, m: &Model, g: &Gen) -> R {
    let total = m.outs.values().fold(Dec::zero(), |a, o| a.add(&o.value));
    same("main balance of the mutable store", &s.balance(), &total)?;
    let t = c.rng.below(g.tokens as usize + 1) as u64;
    let want = carrying(m, t);
    match s.token_balance(&token(t)) {
        None => ensure!(want.is_empty(), "token {t} has no balance in the mutable store though {} outputs carry it", want.len()),
        Some(b) => {
            ensure!(!want.is_empty(), "token {t} has a balance in the mutable store though nothing carries it");
            same("token balance of the mutable store", &b, &want.iter().fold(Dec::zero(), |a, (_, q)| a.add(q)))?;
        }
    }
    Ok(())
}

fn carrying(m: &Model, t: u64) -> Vec<(Ptr, Dec)> {
    m.outs.values().filter_map(|o| o.assets.iter().find(|a| a.0 == t).map(|a| (o.ptr, a.1.clone()))).collect()
}

/// a list of outputs is each expected one once, in the given direction of its amount
fn ordered<'a>(what: &str, it: impl Iterator<Item = &'a UTxODetails>, want: &[(Ptr, Dec)], m: &Model, dir: Ordering) -> R {
    let amounts: BTreeMap<Ptr, &Dec> = want.iter().map(|(p, d)| (*p, d)).collect();
    let mut seen = BTreeSet::new();
    let mut last: Option<&Dec> = None;
    for d in it {
        let p = unpointer(&d.pointer).ok_or("a pointer that was never inserted")?;
        let Some(a) = amounts.get(&p) else { return Err(format!("{what} lists {p:?} which does not belong there")) };
        ensure!(seen.insert(p), "{what} lists {p:?} twice");
        ensure!(*d == m.outs[&p].details(), "{what} lists another output under {p:?}");
        if let Some(l) = last {
            ensure!(l.cmp(a) != dir.reverse(), "{what} goes from {} to {}", l.plain(), a.plain());
        }
        last = Some(a);
    }
    ensure_eq!(seen.len(), want.len(), "{what}: number of outputs");
    Ok(())
}

fn compare(c: &mut Case, s: &UTxOStore, m: &Model, g: &Gen, tokens: &[u64]) -> R {
    ensure_eq!(s.len(), m.outs.len(), "number of outputs");
    ensure_eq!(s.is_empty(), m.outs.is_empty(), "emptiness");
    let mut seen = BTreeSet::new();
    for (p, d) in s.iter() {
        let k = unpointer(p).ok_or("a pointer that was never inserted")?;
        ensure!(seen.insert(k), "iteration lists {k:?} twice");
        ensure!(m.outs.get(&k).is_some_and(|o| o.details() == **d), "iteration lists {k:?} which is not held or differs");
    }
    ensure_eq!(seen.len(), m.outs.len(), "outputs iterated");
    let probes = if g.txs > 100 { 40 } else { g.txs * 3 };
    for i in 0..probes {
        let p = if g.txs > 100 { (c.rng.below(g.txs as usize) as u64, c.rng.below(3) as u64) } else { (i / 3, i % 3) };
        ensure_eq!(s.contains(&pointer(p)), m.outs.contains_key(&p), "presence of {p:?}");
        match (s.get(&pointer(p)), m.outs.get(&p)) {
            (None, None) => {}
            (Some(d), Some(o)) => ensure!(*d == o.details(), "output {p:?} differs: {d:?}"),
            (a, b) => return Err(format!("output {p:?}: returned {}, held {}", a.is_some(), b.is_some())),
        }
    }
    // the main token
    let main: Vec<(Ptr, Dec)> = m.outs.values().map(|o| (o.ptr, o.value.clone())).collect();
    let total = main.iter().fold(Dec::zero(), |a, (_, v)| a.add(v));
    ordered("main iteration", s.iter_ordered_by_wmain(), &main, m, Ordering::Less)?;
    ordered("iteration by main token", s.iter_token_ordered_by_value(&TokenId::MAIN), &main, m, Ordering::Less)?;
    ordered("reversed iteration by main token", s.iter_token_ordered_by_value_rev(&TokenId::MAIN), &main, m, Ordering::Greater)?;
    ensure_eq!(s.number_utxos_for_token(&TokenId::MAIN), main.len(), "number of outputs with the main token");
    ensure_eq!(s.iter_token(&TokenId::MAIN).count(), main.len(), "outputs with the main token");
    match s.get_balance_of(&TokenId::MAIN) {
        None => ensure!(main.is_empty(), "no main balance"),
        Some(b) => same("main balance", &b, &total)?,
    }
    for &t in tokens {
        let id = token(t);
        let want = carrying(m, t);
        ensure_eq!(s.number_utxos_for_token(&id), want.len(), "number of outputs with token {t}");
        ensure_eq!(s.contains_token(&id), !want.is_empty(), "presence of token {t}");
        match s.get_balance_of(&id) {
            None => ensure!(want.is_empty(), "no balance of token {t} though {} outputs carry it", want.len()),
            Some(b) => {
                ensure!(!want.is_empty(), "a balance of token {t} though nothing carries it");
                same(&format!("balance of token {t}"), &b, &want.iter().fold(Dec::zero(), |a, (_, q)| a.add(q)))?;
            }
        }
        let got: BTreeSet<Option<Ptr>> = s.iter_token(&id).map(|(p, d)| if *p == d.pointer { unpointer(p) } else { None }).collect();
        let exp: BTreeSet<Option<Ptr>> = want.iter().map(|(p, _)| Some(*p)).collect();
        ensure_eq!(got, exp, "outputs with token {t}");
        ensure_eq!(s.iter_token(&id).count(), want.len(), "outputs iterated for token {t}");
        ordered(&format!("iteration by token {t}"), s.iter_token_ordered_by_value(&id), &want, m, Ordering::Less)?;
        ordered(&format!("reversed iteration by token {t}"), s.iter_token_ordered_by_value_rev(&id), &want, m, Ordering::Greater)?;
        ensure_eq!(s.get_asset_ids(&id).cloned(), m.first.get(&t).map(|n| names(t, *n)), "names of token {t}");
        c.count("token_queries", 1);
    }
    c.count("states_compared", 1);
    c.max("max_outputs", m.outs.len() as u64);
    Ok(())
}

fn pick_tokens(r: &mut Rng, g: &Gen) -> Vec<u64> {
    if g.tokens <= 12 {
        (0..=g.tokens).collect()
    } else {
        (0..14).map(|_| r.below(g.tokens as usize + 1) as u64).collect()
    }
}

fn step(c: &mut Case, s: &mut UTxOStoreMut, m: &mut Model, g: &Gen) -> R {
    if c.rng.chance(3, 5) || m.outs.is_empty() {
        let mut o = output(&mut c.rng, g);
        if !m.outs.is_empty() && c.rng.chance(1, 10) {
            let k: Vec<&Ptr> = m.outs.keys().collect();
            o.ptr = **c.rng.pick(&k); // an output that is held already
        }
        insert(c, s, m, &o)
    } else {
        let k: Vec<Ptr> = m.outs.keys().copied().collect();
        let p = if c.rng.chance(1, 8) { (c.rng.below(g.txs as usize) as u64, c.rng.below(4) as u64) } else { *c.rng.pick(&k) };
        remove(c, s, m, p)
    }
}

pub fn c30(c: &mut Case, large: bool) -> R {
    let g = if large {
        Gen { txs: 4000, tokens: 200, per: 8 }
    } else {
        Gen { txs: c.rng.range(1, 14) as u64, tokens: c.rng.range(1, 8) as u64, per: c.rng.below(6) }
    };
    let mut m = Model::default();
    let mut s = UTxOStore::new().thaw();
    let n = if large { 3000 } else { c.rng.range(5, 80) };
    for i in 0..n {
        step(c, &mut s, &mut m, &g)?;
        if !large || i % 50 == 0 {
            mutable_balances(c, &s, &m, &g)?;
        }
        if (!large && c.rng.chance(1, 3)) || (large && i % 500 == 499) {
            let f = s.freeze();
            let t = pick_tokens(&mut c.rng, &g);
            compare(c, &f, &m, &g, &t)?;
            s = f.thaw();
        }
        if large && i == 2400 {
            // spend most of it
            let ks: Vec<Ptr> = m.outs.keys().copied().filter(|k| mix(k.0) % 10 != 0).collect();
            for k in ks {
                guard("remove", || s.remove(&pointer(k)))?.map_err(|e| format!("removing {k:?}: {e}"))?;
                m.outs.remove(&k);
                c.count("removals", 1);
            }
        }
        c.beat();
    }
    if c.rng.chance(1, 2) {
        let ks: Vec<Ptr> = m.outs.keys().copied().collect();
        for k in ks {
            remove(c, &mut s, &mut m, k)?;
        }
    }
    let f = s.freeze();
    let t = pick_tokens(&mut c.rng, &g);
    compare(c, &f, &m, &g, &t)?;
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().lines().take(8).collect::<Vec<_>>().join("; "));
    Ok(())
}

pub fn c31(c: &mut Case, threads: bool) -> R {
    let g = Gen { txs: c.rng.range(4, 40) as u64, tokens: c.rng.range(1, 6) as u64, per: 3 };
    let mut snaps: Vec<(UTxOStore, Model)> = vec![(UTxOStore::new(), Model::default())];
    let all: Vec<u64> = (0..=g.tokens).collect();
    if threads {
        // a common ancestor, then threads that thaw and change while others query the frozen ones
        let mut s = snaps[0].0.thaw();
        let mut m = Model::default();
        for i in 0..60 {
            step(c, &mut s, &mut m, &g)?;
            if i % 20 == 19 {
                let f = s.freeze();
                s = f.thaw();
                snaps.push((f, m.clone()));
            }
        }
        let stop = AtomicBool::new(false);
        let checks = AtomicUsize::new(0);
        let seeds: Vec<u64> = (0..8).map(|_| c.rng.next()).collect();
        let trace = c.trace_text();
        let (thor, idx) = (c.thorough, c.index);
        let res: Vec<Result<usize, String>> = std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..4usize {
                let (snaps, seeds, g, all) = (&snaps, &seeds, &g, &all);
                hs.push(sc.spawn(move || -> Result<usize, String> {
                    let mut k = sub(seeds[w], thor, idx);
                    for _ in 0..8 {
                        let i = k.rng.below(snaps.len());
                        let (f, m0) = &snaps[i];
                        let f = if k.rng.chance(1, 2) { f.clone() } else { f.thaw().freeze() };
                        let mut m = m0.clone();
                        let mut s = f.thaw();
                        for _ in 0..12 {
                            step(&mut k, &mut s, &mut m, g)?;
                        }
                        mutable_balances(&mut k, &s, &m, g)?;
                        let f2 = s.freeze();
                        compare(&mut k, &f2, &m, g, all)?;
                        compare(&mut k, &f, m0, g, all)?;
                    }
                    Ok(8)
                }));
            }
            let readers: Vec<_> = (0..2usize)
                .map(|w| {
                    let (snaps, seeds, g, all, stop, checks) = (&snaps, &seeds, &g, &all, &stop, &checks);
                    sc.spawn(move || -> Result<usize, String> {
                        let mut k = sub(seeds[4 + w], thor, idx);
                        let mut n = 0;
                        while !stop.load(SeqCst) || n == 0 {
                            for (f, m) in snaps.iter() {
                                compare(&mut k, f, m, g, all)?;
                                n += 1;
                                checks.fetch_add(1, SeqCst);
                            }
                        }
                        Ok(n)
                    })
                })
                .collect();
            let mut out: Vec<Result<usize, String>> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("a changing thread panicked: {}", common::last_panic())))).collect();
            stop.store(true, SeqCst);
            out.extend(readers.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a querying thread panicked".into()))));
            out
        });
        for r in res {
            r.map_err(|e| format!("{e} (frozen stores queried and changed copies made by other threads; first steps: {})", trace.lines().take(3).collect::<Vec<_>>().join("; ")))?;
        }
        c.count("checks_during_concurrent_changes", checks.load(SeqCst) as u64);
        c.count("snapshots", snaps.len() as u64);
    } else {
        let mut live: Vec<(UTxOStoreMut, Model)> = vec![];
        for _ in 0..c.rng.range(6, 50) {
            match c.rng.below(8) {
                0 | 1 => {
                    let (f, m) = c.rng.pick(&snaps);
                    live.push((f.thaw(), m.clone()));
                    c.count("thaws", 1);
                    c.t("thaw");
                }
                2 => {
                    let i = c.rng.below(snaps.len());
                    let x = (snaps[i].0.clone(), snaps[i].1.clone());
                    snaps.push(x);
                    c.count("clones", 1);
                }
                3 => {
                    // freezing an untouched thawed copy
                    let i = c.rng.below(snaps.len());
                    let f = snaps[i].0.thaw().freeze();
                    let m = snaps[i].1.clone();
                    compare(c, &f, &m, &g, &all)?;
                    snaps.push((f, m));
                }
                4 if !live.is_empty() => {
                    let i = c.rng.below(live.len());
                    let (s, m) = live.swap_remove(i);
                    c.t("freeze");
                    snaps.push((s.freeze(), m));
                    c.count("snapshots", 1);
                }
                5 if snaps.len() > 3 => {
                    let i = c.rng.below(snaps.len());
                    snaps.swap_remove(i); // dropping one leaves the others alone
                }
                _ => {
                    if live.is_empty() {
                        live.push((snaps[0].0.thaw(), snaps[0].1.clone()));
                        c.count("thaws", 1);
                    }
                    let i = c.rng.below(live.len());
                    let (mut s, mut m) = live.swap_remove(i);
                    for _ in 0..c.rng.range(1, 6) {
                        step(c, &mut s, &mut m, &g)?;
                    }
                    mutable_balances(c, &s, &m, &g)?;
                    live.push((s, m));
                }
            }
            for (s, m) in &live {
                mutable_balances(c, s, m, &g)?;
            }
            for (f, m) in &snaps {
                compare(c, f, m, &g, &all)?;
                c.count("snapshots_checked_again", 1);
            }
            if snaps.len() > 8 {
                snaps.remove(0);
            }
        }
        for (s, m) in live {
            let f = s.freeze();
            compare(c, &f, &m, &g, &all)?;
        }
    }
    c.distinct(mix(c.trace_hash() ^ if threads { c.seed } else { 0 }));
    Ok(())
}

fn sub(seed: u64, thorough: bool, index: usize) -> Case {
    Case::scratch(seed, thorough, index)
}
