//! rejected and failed appends
use crate::c02::kill_copy;
use crate::hooks::{self, Call, Handler};
use crate::model::*;
use common::{ensure, Case, Rng, Runner, Scratch, R};
use fraos::Database;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Default)]
struct Plan {
    on: bool,
    at: usize, // the at-th eligible call fails
    persistent: bool,
    errno: i32,
    calls: usize,
    failed: BTreeMap<String, u64>,
}

struct Inject(Rc<RefCell<Plan>>);

impl Handler for Inject {
    fn before(&mut self, c: &Call) -> Option<i32> {
        let mut p = self.0.borrow_mut();
        let eligible = matches!(c, Call::Mmap { .. } | Call::Msync { .. } | Call::Ftruncate { .. } | Call::Fsync { .. });
        if !p.on || !eligible {
            return None;
        }
        let k = p.calls;
        p.calls += 1;
        if k == p.at || (p.persistent && k > p.at) {
            *p.failed.entry(format!("failed_{}", c.name())).or_insert(0) += 1;
            Some(p.errno)
        } else {
            None
        }
    }
    fn after(&mut self, _c: &Call, _ret: isize) {}
}

struct Env {
    db: Database,
    other: Database,
    m: Model,
    plan: Rc<RefCell<Plan>>,
}

/// Appends with the k-th call failing. Ok(true): no call was left to fail.
fn attempt(c: &mut Case, e: &mut Env, rng: &mut Rng, lens: &[usize], at: usize) -> Result<bool, String> {
    let tags: Vec<u64> = lens.iter().map(|_| rng.next()).collect();
    let data: Vec<Vec<u8>> = tags.iter().zip(lens).map(|(t, l)| bytes(*t, *l)).collect();
    let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
    let errno = *rng.pick(&[libc::ENOSPC, libc::EIO, libc::ENOMEM, libc::EFBIG, libc::EDQUOT]);
    let persistent = rng.chance(1, 3);
    {
        let mut p = e.plan.borrow_mut();
        *p = Plan { on: true, at, persistent, errno, calls: 0, failed: std::mem::take(&mut p.failed) };
    }
    let it = e.db.iter_from_seqno(e.m.len());
    let r = common::guard(&format!("append of {} with call {at} failing", lens_text(lens)), || e.db.append_get_seqno(&refs))?;
    let fired = {
        let mut p = e.plan.borrow_mut();
        p.on = false;
        p.calls > p.at
    };
    c.t(format!("append {} failing call {at} errno {errno} persistent {persistent}: {}", lens_text(lens), if r.is_ok() { "ok" } else { "error" }));
    match r {
        Ok(n) => {
            ensure!(n == Some(e.m.len()), "append reported {n:?}, expected {}", e.m.len());
            for (t, l) in tags.iter().zip(lens) {
                e.m.push(*t, *l);
            }
            if fired {
                c.count("appends_ok_despite_failure", 1);
            }
        }
        Err(x) => {
            ensure!(fired, "append failed without any failing call: {x}");
            c.count("appends_failed", 1);
            if let Some(mut it) = it {
                ensure!(it.next().is_none(), "an iterator at the end yields something after a failed append");
            }
        }
    }
    for d in [&e.db, &e.other] {
        e.m.check_some(d, rng, 6).map_err(|x| format!("after an append with call {at} failing (errno {errno}, persistent {persistent}): {x}"))?;
        let n = e.m.len();
        for far in [n + lens.len() - 1, n + lens.len(), n + 1] {
            e.m.check_get(d, far)?;
        }
        e.m.check_iter(d, n)?;
    }
    Ok(!fired)
}

fn lens_for(c: &mut Case, rng: &mut Rng) -> Vec<usize> {
    let _ = c;
    let n = if rng.chance(1, 2) { 1 } else { rng.range(2, 5) };
    (0..n)
        .map(|_| match rng.below(8) {
            0 => rng.range(200_000, 400_000),
            1 => *rng.pick(&[MAP - 1, MAP, MAP + 1]),
            2 => rng.range(3000, 9000),
            _ => rng.range(1, 300),
        })
        .collect()
}

fn history(c: &mut Case, file: bool) -> R {
    let s = Scratch::new("c05");
    let mut dn = 0;
    let mut dir = s.join("d0");
    let mut rng = c.rng.fork();
    let plan = Rc::new(RefCell::new(Plan::default()));
    let open = |d: &std::path::Path| -> Result<Database, String> {
        if file { Database::file(d).map_err(err("open")) } else { Database::memory().map_err(err("open")) }
    };
    let p2 = plan.clone();
    hooks::with(Box::new(Inject(p2)), || -> R {
        let db = open(&dir)?;
        let mut e = Env { other: db.clone(), db, m: Model::default(), plan: plan.clone() };
        let steps = rng.range(4, 12);
        for _ in 0..steps {
            if e.m.bytes > 5 << 20 {
                break;
            }
            // an append that is tried with every one of its calls failing, until it goes through
            let mut lens = lens_for(c, &mut rng);
            let mut at = 0;
            loop {
                if attempt(c, &mut e, &mut rng, &lens, at)? {
                    break;
                }
                at += 1;
                ensure!(at < 60, "an append makes more than 60 calls");
                match rng.below(8) {
                    0 => {
                        // something else succeeds in between
                        let l = lens_for(c, &mut rng);
                        c.t(format!("append {}", lens_text(&l)));
                        e.m.append(&e.db, &mut rng, &l)?;
                        e.m.check_some(&e.other, &mut rng, 6)?;
                    }
                    1 => lens = lens_for(c, &mut rng),
                    2 if file => {
                        // killed right after the failure
                        dn += 1;
                        let k = s.join(&format!("k{dn}"));
                        kill_copy(&dir, &k)?;
                        let d = common::guard("open", || Database::file(&k))?.map_err(err("open after a failed append and a kill"))?;
                        e.m.check_some(&d, &mut rng, 20).map_err(|x| format!("after a failed append and a kill: {x}"))?;
                        let mut m2 = e.m.clone();
                        m2.append(&d, &mut rng, &[20, 3000])?;
                        m2.check_some(&d, &mut rng, 20)?;
                        drop(d);
                        let _ = std::fs::remove_dir_all(&k);
                        c.count("kills_after_failure", 1);
                    }
                    _ => {}
                }
            }
            e.m.check_some(&e.db, &mut rng, 12)?;
            if rng.chance(1, 4) {
                // the last thing before closing is a failure
                let l = lens_for(c, &mut rng);
                let at = rng.below(6);
                attempt(c, &mut e, &mut rng, &l, at)?;
            }
            if file && rng.chance(1, 3) {
                c.t("close or kill, reopen");
                let m = std::mem::take(&mut e.m);
                if rng.chance(1, 2) {
                    dn += 1;
                    let k = s.join(&format!("d{dn}"));
                    kill_copy(&dir, &k)?;
                    drop(e);
                    let _ = std::fs::remove_dir_all(&dir);
                    dir = k;
                } else {
                    drop(e);
                }
                let db = common::guard("open", || open(&dir))??;
                m.check_all(&db).map_err(|x| format!("after reopening: {x}"))?;
                e = Env { other: db.clone(), db, m, plan: plan.clone() };
                c.count("reopenings", 1);
            }
        }
        e.m.check_all(&e.db)?;
        let m = std::mem::take(&mut e.m);
        drop(e);
        if file {
            let db = open(&dir)?;
            m.check_all(&db).map_err(|x| format!("after the final reopening: {x}"))?;
        }
        Ok(())
    })?;
    for (k, v) in &plan.borrow().failed {
        c.count(k, *v);
    }
    c.distinct(c.trace_hash());
    if c.index < 2 {
        c.sample(c.trace_text().replace('\n', "; ").chars().take(400).collect::<String>());
    }
    Ok(())
}

/// empty records at every position of a batch, in every state of the storage
fn empties(c: &mut Case) -> R {
    let s = Scratch::new("c05e");
    let d = s.join("db");
    let file = c.rng.chance(2, 3);
    let mut rng = c.rng.fork();
    let open = || if file { Database::file(&d).map_err(err("open")) } else { Database::memory().map_err(err("open")) };
    let mut db = open()?;
    let mut m = Model::default();
    for _ in 0..rng.range(1, 6) {
        let n = rng.range(1, 7);
        for pos in 0..n {
            let data: Vec<Vec<u8>> = (0..n).map(|i| if i == pos || rng.chance(1, 10) { vec![] } else { bytes(rng.next(), rng.range(1, 2000)) }).collect();
            let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
            let r = common::guard("append with an empty record", || db.append_get_seqno(&refs))?;
            ensure!(r.is_err(), "a batch of {n} with an empty record at {pos} was accepted: {r:?}");
            m.check_all(&db).map_err(|e| format!("after a rejected batch of {n} (empty at {pos}): {e}"))?;
            m.check_get(&db, m.len())?;
            c.count("batches_rejected", 1);
        }
        let r = common::guard("put of nothing", || db.put_seqno(b""))?;
        ensure!(r.is_err(), "an empty record was accepted");
        m.check_all(&db)?;
        let l = batch(c, &m, false);
        c.t(format!("append {}", lens_text(&l)));
        m.append(&db, &mut rng, &l)?;
        m.check_all(&db)?;
        if file && rng.chance(1, 2) {
            drop(db);
            db = open()?;
            m.check_all(&db)?;
        }
    }
    c.distinct(c.trace_hash());
    Ok(())
}

/// failures while the mappings are being merged into one
fn merge(c: &mut Case) -> R {
    let s = Scratch::new("c05m");
    let d = s.join("db");
    let mut rng = c.rng.fork();
    let plan = Rc::new(RefCell::new(Plan::default()));
    hooks::with(Box::new(Inject(plan.clone())), || -> R {
        let db = Database::file(&d).map_err(err("open"))?;
        let mut e = Env { other: db.clone(), db, m: Model::default(), plan: plan.clone() };
        for i in 0..2046 {
            e.m.append(&e.db, &mut rng, &[if i % 2 == 0 { 1 } else { MAP }])?;
            if i % 100 == 0 {
                c.beat();
            }
        }
        for i in 0..8 {
            let lens = [if i % 2 == 0 { 1 } else { MAP }];
            let mut at = 0;
            while !attempt(c, &mut e, &mut rng, &lens, at)? {
                at += 1;
                ensure!(at < 60, "an append makes more than 60 calls");
            }
            e.m.check_some(&e.db, &mut rng, 40)?;
        }
        let m = std::mem::take(&mut e.m);
        drop(e);
        let db = Database::file(&d).map_err(err("reopen"))?;
        m.check_some(&db, &mut rng, 400)?;
        Ok(())
    })?;
    for (k, v) in &plan.borrow().failed {
        c.count(k, *v);
    }
    c.count("merge_boundary_runs", 1);
    c.distinct(c.trace_hash());
    Ok(())
}

pub fn run(r: &Runner) {
    r.phase("file", r.n(250, 5000), 8, r.n(20, 250) as f64, |c| history(c, true));
    r.phase("memory", r.n(120, 2500), 8, r.n(10, 120) as f64, |c| history(c, false));
    r.phase("empty", r.n(150, 2500), 8, r.n(10, 90) as f64, empties);
    r.phase("merge", r.n(1, 3), 1, 40.0, merge);
    r.assume("failing mprotect and munmap are not injected: memmap2 consumes the mapping when mprotect fails");
}
