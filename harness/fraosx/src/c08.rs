//! memory and race safety: the concurrent workloads plus handle churn and reopening, run (a) with
//! guard pages around every mapping and unmapped ranges made inaccessible, (b) under
//! AddressSanitizer, (c) under ThreadSanitizer
use crate::c04;
use crate::hooks;
use crate::model::*;
use common::{ensure, Case, Runner, Scratch, R};
use fraos::Database;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// many threads share handles, each reads, iterates, appends, clones and drops at random
fn churn(c: &mut Case) -> R {
    let s = Scratch::new("c08");
    let file = c.rng.chance(3, 4);
    let open = || if file { Database::file(s.join("db")) } else { Database::memory() };
    let rounds = if file { c.rng.range(1, 3) } else { 1 };
    let mut total = 0;
    for round in 0..rounds {
        let db = open().map_err(err("open"))?;
        ensure!(db.len() == total, "length {} after reopening, expected {total}", db.len());
        let pool: Mutex<Vec<Database>> = Mutex::new(vec![db.clone()]);
        let fails: Mutex<Vec<String>> = Mutex::default();
        let appended = AtomicUsize::new(0);
        let ops = AtomicUsize::new(0);
        drop(db);
        std::thread::scope(|sc| {
            for _ in 0..c.rng.range(2, 6) {
                let mut rng = c.rng.fork();
                let (pool, fails, appended, ops) = (&pool, &fails, &appended, &ops);
                sc.spawn(move || {
                    let r = common::guard("thread", || -> R {
                        let mut mine: Option<Database> = None;
                        let mut its = vec![];
                        for _ in 0..rng.range(20, 80) {
                            ops.fetch_add(1, SeqCst);
                            if mine.is_none() {
                                let p = pool.lock().unwrap();
                                mine = p.first().cloned();
                            }
                            let db = mine.as_ref().unwrap();
                            match rng.below(12) {
                                0..=2 => {
                                    let l: Vec<usize> = (0..rng.range(1, 4)).map(|_| if rng.chance(1, 15) { rng.range(100_000, 600_000) } else { rng.range(1, 5000) }).collect();
                                    let data: Vec<Vec<u8>> = l.iter().map(|l| bytes(7, *l)).collect();
                                    let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
                                    db.append(&refs).map_err(err("append"))?;
                                    appended.fetch_add(l.len(), SeqCst);
                                }
                                3..=5 => {
                                    let n = db.len();
                                    for _ in 0..6 {
                                        let i = rng.below(n + 3);
                                        let g = db.get_by_seqno(i).map_err(err("get"))?;
                                        if let Some(g) = g {
                                            ensure!(g == bytes(7, g.len()), "record {i} is torn");
                                        }
                                    }
                                }
                                6 => its.push(db.iter_from_seqno(rng.below(db.len() + 1)).ok_or("no iterator")?),
                                7 => {
                                    its.pop();
                                }
                                8 => {
                                    if let Some(it) = its.last_mut() {
                                        for x in it.take(20) {
                                            let x = x.map_err(err("iterator"))?;
                                            ensure!(x == bytes(7, x.len()), "an iterated record is torn");
                                        }
                                    }
                                }
                                9 => {
                                    db.last().map_err(err("last"))?;
                                }
                                10 => mine = None,
                                _ => {
                                    let k = db.clone();
                                    let mut p = pool.lock().unwrap();
                                    if p.len() < 4 {
                                        p.push(k);
                                    } else {
                                        let i = rng.below(p.len());
                                        let old = std::mem::replace(&mut p[i], k);
                                        drop(p);
                                        drop(old);
                                    }
                                }
                            }
                        }
                        drop(mine);
                        // iterators outlive handles
                        for it in its {
                            for x in it.take(50) {
                                let x = x.map_err(err("iterator"))?;
                                ensure!(x == bytes(7, x.len()), "an iterated record is torn");
                            }
                        }
                        Ok(())
                    });
                    if let Ok(Err(e)) | Err(e) = r {
                        fails.lock().unwrap().push(e);
                    }
                });
            }
        });
        if let Some(e) = fails.lock().unwrap().first() {
            return Err(e.clone());
        }
        total += appended.load(SeqCst);
        c.count("operations", ops.load(SeqCst) as u64);
        c.count("records_appended", appended.load(SeqCst) as u64);
        let _ = round;
    }
    c.distinct(common::mix(c.seed ^ total as u64));
    if c.index == 0 {
        c.sample(format!("{rounds} rounds, {total} records, file={file}"));
    }
    Ok(())
}

fn copy_faults() -> R {
    match hooks::COPY_FAULT.swap(0, SeqCst) {
        0 => Ok(()),
        1 => Err("a mapping was unmapped while a record was copied out of it".into()),
        _ => Err("a copy into a mapping overlapped another copy under way".into()),
    }
}

/// enough mappings for the merge, with readers inside the old ones
fn merge(c: &mut Case) -> R {
    let s = Scratch::new("c08m");
    let db = Database::file(s.join("db")).map_err(err("open"))?;
    let fails: Mutex<Vec<String>> = Mutex::default();
    let stop = AtomicUsize::new(0);
    let reads = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..4 {
            let (db, stop, fails, reads) = (&db, &stop, &fails, &reads);
            let mut rng = c.rng.fork();
            sc.spawn(move || {
                let r = common::guard("reader", || -> R {
                    while stop.load(SeqCst) == 0 {
                        let n = db.len();
                        let i = rng.below(n + 1);
                        if let Some(g) = db.get_by_seqno(i).map_err(err("get"))? {
                            ensure!(g.len() > 100_000 || g == bytes(7, g.len()), "record {i} is torn");
                            ensure!(g[0] == bytes(7, 1)[0], "record {i} is torn");
                        }
                        reads.fetch_add(1, SeqCst);
                    }
                    Ok(())
                });
                if let Ok(Err(e)) | Err(e) = r {
                    fails.lock().unwrap().push(e);
                }
            });
        }
        let big = bytes(7, MAP);
        let small = bytes(7, 3);
        // copies pause half way around the time the mappings are merged
        let slow = hooks::QUARANTINE.load(SeqCst) && c.index % 3 != 2;
        for i in 0..2120 {
            if slow && i % 1030 == 1010 {
                hooks::SLOW_COPY.store(c.rng.range(30_000, 60_000) as u32, SeqCst);
            }
            if i % 1030 == 60 {
                hooks::SLOW_COPY.store(0, SeqCst);
            }
            if let Err(e) = db.append(&[if i % 2 == 0 { &small } else { &big }]) {
                fails.lock().unwrap().push(format!("append: {e}"));
                break;
            }
            if i % 100 == 0 {
                c.beat();
            }
        }
        hooks::SLOW_COPY.store(0, SeqCst);
        stop.store(1, SeqCst);
    });
    if let Some(e) = fails.lock().unwrap().first() {
        return Err(e.clone());
    }
    copy_faults()?;
    c.count("copies_paused_half_way", hooks::SLOW_COPIES.load(SeqCst));
    c.count("reads_during_a_merge_run", reads.load(SeqCst) as u64);
    Ok(())
}

pub fn run(r: &Runner) {
    let san = std::env::var("VERIF_SANITIZER").unwrap_or_default();
    let tsan = san == "tsan";
    hooks::QUARANTINE.store(san.is_empty(), SeqCst);
    let k = if tsan { 3 } else { 1 };
    r.phase("churn", r.n(160, 2500) / k, 3, r.n(12, 100) as f64, churn);
    r.phase("history", r.n(100, 1500) / k, 3, r.n(10, 80) as f64, |c| {
        let file = c.index % 3 != 0;
        let s = c04::setup(c, file, (4, 20));
        c04::one(c, &s)
    });
    if san.is_empty() {
        hooks::DELAY.store(100, SeqCst);
        r.phase("churn_delays", r.n(60, 800), 3, r.n(10, 80) as f64, churn);
        hooks::DELAY.store(0, SeqCst);
        hooks::SLOW_COPY.store(60, SeqCst);
        r.phase("churn_slow_copies", r.n(30, 400), 3, r.n(10, 80) as f64, |c| {
            churn(c)?;
            copy_faults()
        });
        hooks::SLOW_COPY.store(0, SeqCst);
    }
    if !tsan {
        r.phase("merge", r.n(1, 3), 1, 60.0, merge);
    }
    // reopening and single-threaded histories
    r.phase("reopen", r.n(60, 600) / k, 8, r.n(8, 60) as f64, |c| {
        let s = Scratch::new("c08r");
        let mut m = Model::default();
        let mut rng = c.rng.fork();
        for _ in 0..4 {
            let db = Database::file(s.join("db")).map_err(err("open"))?;
            m.check_all(&db)?;
            for _ in 0..4 {
                let l = batch(c, &m, m.bytes < 2 << 20);
                m.append(&db, &mut rng, &l)?;
            }
            m.check_far(&db, &mut rng)?;
            let it = db.iter_from_seqno(0);
            drop(db);
            if let Some(it) = it {
                for (i, x) in it.enumerate() {
                    same(Some(x.map_err(err("iterator"))?), &m.rec(i), i)?;
                }
            }
        }
        c.count("reopenings", 4);
        c.distinct(common::mix(m.bytes as u64));
        Ok(())
    });
    if san.is_empty() {
        r.extra("guarded_mappings", hooks::Q_MAPPED.load(SeqCst).to_string());
        r.extra("mappings_made_inaccessible_after_unmapping", hooks::Q_RETIRED.load(SeqCst).to_string());
        r.extra("copies_paused_half_way", hooks::SLOW_COPIES.load(SeqCst).to_string());
        r.extra("system_calls_observed", hooks::seen_total().to_string());
        if hooks::Q_MAPPED.load(SeqCst) == 0 {
            println!("INCONCLUSIVE property=C08: no mapping was seen");
            std::process::exit(3);
        }
    }
    r.assume("AddressSanitizer does not know the bounds of file mappings; those are watched by the guard pages of the plain run");
}
