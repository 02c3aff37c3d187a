//! handle lifecycle
use crate::model::*;
use common::{ensure, ensure_eq, Case, Runner, Scratch, R};
use fraos::Database;
use std::sync::{Arc, Mutex};

fn sizes(dir: &std::path::Path) -> (usize, usize) {
    let l = |n: &str| std::fs::metadata(dir.join(n)).map(|x| x.len() as usize).unwrap_or(0);
    (l("seqno"), l("data"))
}

fn trimmed(dir: &std::path::Path, m: &Model) -> R {
    ensure_eq!(sizes(dir), (m.len() * 16, m.bytes), "(index, data) file sizes after the last handle was dropped");
    Ok(())
}

fn handles(c: &mut Case, file: bool) -> R {
    let scratch = if file { Some(Scratch::new("c06")) } else { None };
    let dir = scratch.as_ref().map(|s| s.join("db"));
    let db = match &dir {
        Some(d) => Database::file(d).map_err(err("open"))?,
        None => Database::memory().map_err(err("open"))?,
    };
    let mut m = Model::default();
    let mut rng = c.rng.fork();
    let mut hs = vec![db];
    let mut its: Vec<(fraos::SeqNoIter, usize)> = vec![];
    let steps = rng.range(5, 45);
    for _ in 0..steps {
        let h = rng.below(hs.len());
        match rng.below(12) {
            0 | 1 => {
                let n = hs[h].clone();
                hs.push(n);
                c.t(format!("clone {h}"));
            }
            2 | 3 | 4 if hs.len() > 1 => {
                let d = hs.swap_remove(h);
                c.t(format!("drop {h} of {}", hs.len() + 1));
                c.count("handle_drops_with_survivors", 1);
                if rng.chance(1, 3) {
                    std::thread::spawn(move || drop(d)).join().map_err(|_| format!("drop panicked: {}", common::last_panic()))?;
                } else {
                    drop(d);
                }
            }
            5 => {
                let from = rng.below(m.len() + 1);
                c.t(format!("iterator from {from} through {h}"));
                its.push((hs[h].iter_from_seqno(from).ok_or("no iterator")?, from));
            }
            6 if !its.is_empty() => {
                let k = rng.below(its.len());
                c.t(format!("drop iterator {k}"));
                its.swap_remove(k);
            }
            7 if !its.is_empty() => {
                let k = rng.below(its.len());
                c.t(format!("advance iterator {k}"));
                for _ in 0..rng.range(1, 5) {
                    let (it, at) = &mut its[k];
                    match it.next() {
                        Some(x) => {
                            same(Some(x.map_err(err("iterator"))?), &m.rec(*at), *at)?;
                            *at += 1;
                        }
                        None => ensure!(*at == m.len(), "iterator stopped at {at} of {}", m.len()),
                    }
                }
            }
            _ => {
                let l = batch(c, &m, m.bytes < 3 << 20);
                c.t(format!("append {} through {h}", lens_text(&l)));
                m.append(&hs[h], &mut rng, &l)?;
                c.count("appends", 1);
            }
        }
        let k = rng.below(hs.len());
        m.check_some(&hs[k], &mut rng, 3)?;
    }
    for h in &hs {
        m.check_some(h, &mut rng, 20)?;
    }
    rng.shuffle(&mut hs);
    while let Some(h) = hs.pop() {
        drop(h);
        if let Some(h) = hs.last() {
            m.check_some(h, &mut rng, 5)?;
            if rng.chance(1, 2) {
                let l = [rng.range(1, 500)];
                m.append(h, &mut rng, &l)?;
            }
        }
    }
    c.t("all handles dropped");
    if let Some(d) = &dir {
        trimmed(d, &m)?;
        c.count("trims_checked", 1);
    }
    // iterators outlive every handle
    for (it, at) in &mut its {
        for x in it.by_ref() {
            same(Some(x.map_err(err("iterator after the last drop"))?), &m.rec(*at), *at)?;
            *at += 1;
        }
        ensure!(*at == m.len(), "iterator that outlived its handles stopped at {at} of {}", m.len());
        c.count("iterators_finished_after_all_drops", 1);
    }
    drop(its);
    if let Some(d) = &dir {
        trimmed(d, &m)?;
        let db = Database::file(d).map_err(err("reopen"))?;
        m.check_all(&db)?;
    }
    c.distinct(c.trace_hash());
    if c.index < 2 {
        c.sample(c.trace_text().replace('\n', "; ").chars().take(400).collect::<String>());
    }
    Ok(())
}

/// clones dropped concurrently with appends; the last drop may be on any thread
fn concurrent(c: &mut Case) -> R {
    let s = Scratch::new("c06t");
    let d = s.join("db");
    let db = Database::file(&d).map_err(err("open"))?;
    let log: Arc<Mutex<Vec<(usize, u64, usize)>>> = Arc::default();
    let fails: Arc<Mutex<Vec<String>>> = Arc::default();
    let n = c.rng.range(2, 6);
    let drops = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..n {
            let db = db.clone();
            let mut rng = c.rng.fork();
            let (log, fails, drops) = (log.clone(), fails.clone(), &drops);
            sc.spawn(move || {
                let mut mine = vec![];
                let r = common::guard("worker", move || -> R {
                    for _ in 0..rng.range(1, 30) {
                        let k = db.clone();
                        let l = if rng.chance(1, 20) { rng.range(1, 600000) } else { rng.range(1, 3000) };
                        let tag = rng.next();
                        let seq = k.append_get_seqno(&[&bytes(tag, l)]).map_err(err("append"))?.ok_or("no number")?;
                        mine.push((seq, tag, l));
                        if rng.chance(1, 2) {
                            drop(k);
                            drops.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        }
                        let p = rng.below(mine.len());
                        same(db.get_by_seqno(mine[p].0).map_err(err("get"))?, &bytes(mine[p].1, mine[p].2), mine[p].0)?;
                    }
                    log.lock().unwrap().extend(mine);
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    fails.lock().unwrap().push(format!("thread {t}: {e}"));
                }
            });
        }
        drop(db);
    });
    if let Some(e) = fails.lock().unwrap().first() {
        return Err(e.clone());
    }
    let mut l = log.lock().unwrap().clone();
    l.sort();
    let mut m = Model::default();
    for (i, (seq, tag, len)) in l.iter().enumerate() {
        ensure_eq!(*seq, i, "numbers handed out to threads, sorted");
        m.push(*tag, *len);
    }
    trimmed(&d, &m)?;
    let db = Database::file(&d).map_err(err("reopen"))?;
    m.check_all(&db)?;
    c.count("concurrent_drops", drops.into_inner() as u64);
    c.count("concurrent_appends", m.len() as u64);
    c.count("trims_checked", 1);
    c.distinct(common::hash_str(&format!("{:?}", l.iter().map(|x| x.1).collect::<Vec<_>>())));
    Ok(())
}

pub fn run(r: &Runner) {
    r.phase("file", r.n(500, 8000), 8, r.n(15, 240) as f64, |c| handles(c, true));
    r.phase("memory", r.n(300, 5000), 8, r.n(10, 120) as f64, |c| handles(c, false));
    r.phase("threads", r.n(120, 2500), 4, r.n(15, 200) as f64, concurrent);
}
