//! read-only opens and copies of a live log
use crate::c02::kill_copy;
use crate::model::*;
use common::{ensure, ensure_eq, Case, Rng, Runner, Scratch, R};
use fraos::Database;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

fn snapshot(d: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(d)
        .map(|x| x.flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn unchanged(d: &Path, before: &[(String, Vec<u8>)], what: &str) -> R {
    let after = snapshot(d);
    ensure_eq!(
        after.iter().map(|x| (x.0.clone(), x.1.len())).collect::<Vec<_>>(),
        before.iter().map(|x| (x.0.clone(), x.1.len())).collect::<Vec<_>>(),
        "files and sizes after {what}"
    );
    ensure!(after == before, "file bytes changed after {what}");
    Ok(())
}

/// a read-only session over a directory in some padding state
fn session(c: &mut Case, d: &Path, m: &Model, rng: &mut Rng) -> R {
    let before = snapshot(d);
    let db = common::guard("open read-only", || Database::file_readonly(d))?.map_err(err("open read-only"))?;
    unchanged(d, &before, "a read-only open")?;
    m.check_all(&db)?;
    m.check_far(&db, rng)?;
    if rng.chance(1, 2) {
        let l = [rng.range(1, 900000)];
        let r = common::guard("append on a read-only log", || db.append(&[&bytes(1, l[0])]))?;
        ensure!(r.is_err(), "append of {} bytes on a read-only log succeeded", l[0]);
        c.count("appends_refused", 1);
        unchanged(d, &before, "a refused append")?;
        m.check_all(&db)?;
        let r = common::guard("put on a read-only log", || db.put_seqno(b"x"))?;
        ensure!(r.is_err(), "put on a read-only log succeeded");
        m.check_all(&db)?;
    }
    let k = db.clone();
    drop(db);
    m.check_some(&k, rng, 5)?;
    let it = k.iter_from_seqno(0);
    drop(k);
    unchanged(d, &before, "closing a read-only log")?;
    drop(it);
    unchanged(d, &before, "dropping an iterator of a read-only log")?;
    c.count("readonly_sessions", 1);
    Ok(())
}

fn states(c: &mut Case) -> R {
    let s = Scratch::new("c07");
    let d = s.join("db");
    let mut m = Model::default();
    let mut rng = c.rng.fork();
    for _ in 0..rng.range(1, 4) {
        let db = Database::file(&d).map_err(err("open"))?;
        for _ in 0..rng.below(4) {
            let l = if rng.chance(1, 30) { (0..32768).map(|_| 1).collect() } else { batch(c, &m, m.bytes < 2 << 20) };
            c.t(format!("append {}", lens_text(&l)));
            m.append(&db, &mut rng, &l)?;
        }
        if rng.chance(1, 2) {
            // a second, read-only handle on the directory of an open writer
            session(c, &d, &m, &mut rng)?;
            m.check_some(&db, &mut rng, 5)?;
            m.append(&db, &mut rng, &[2, 3])?;
        }
        if rng.chance(1, 2) {
            let k = s.join("killed");
            kill_copy(&d, &k)?;
            c.t("padded image");
            session(c, &k, &m, &mut rng)?;
            c.count("padded_states", 1);
            // mixed padding: one file trimmed, the other not
            let f = std::fs::OpenOptions::new().write(true).open(k.join(*rng.pick(&["seqno", "data"]))).map_err(|e| e.to_string())?;
            let which_len = if f.metadata().map_err(|e| e.to_string())?.len() as usize == std::fs::metadata(k.join("seqno")).map(|x| x.len() as usize).unwrap_or(0)
                && std::fs::read_link(format!("/proc/self/fd/{}", std::os::fd::AsRawFd::as_raw_fd(&f))).map(|p| p.ends_with("seqno")).unwrap_or(false)
            {
                m.len() * 16
            } else {
                m.bytes
            };
            f.set_len(which_len as u64).map_err(|e| e.to_string())?;
            drop(f);
            if m.len() > 0 {
                session(c, &k, &m, &mut rng)?;
            }
            let _ = std::fs::remove_dir_all(&k);
        }
        drop(db);
        session(c, &d, &m, &mut rng)?;
    }
    // still a good log for a writer
    let db = Database::file(&d).map_err(err("open"))?;
    m.check_all(&db)?;
    m.append(&db, &mut rng, &[9])?;
    m.check_all(&db)?;
    c.distinct(c.trace_hash());
    if c.index < 2 {
        c.sample(c.trace_text().replace('\n', "; ").chars().take(400).collect::<String>());
    }
    Ok(())
}

/// copies (index first, then data) while a writer appends
fn live(c: &mut Case) -> R {
    let s = Scratch::new("c07l");
    let d = s.join("db");
    let db = Database::file(&d).map_err(err("open"))?;
    let full = Mutex::new(Model::default());
    let acked = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let mut wr = c.rng.fork();
    let mut rng = c.rng.fork();
    let limit = c.rng.range(60, 250);
    let result: Result<(u64, u64), String> = std::thread::scope(|sc| {
        let (full, acked, stop, wdb) = (&full, &acked, &stop, db.clone());
        let w = sc.spawn(move || -> R {
            let mut n = 0;
            while n < limit && !stop.load(SeqCst) {
                let k = wr.range(1, 5);
                let lens: Vec<usize> = (0..k).map(|_| if wr.chance(1, 40) { wr.range(1, 700000) } else { wr.range(1, 4000) }).collect();
                let tags: Vec<u64> = lens.iter().map(|_| wr.next()).collect();
                let data: Vec<Vec<u8>> = tags.iter().zip(&lens).map(|(t, l)| bytes(*t, *l)).collect();
                {
                    let mut m = full.lock().unwrap();
                    for (t, l) in tags.iter().zip(&lens) {
                        m.push(*t, *l);
                    }
                }
                let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
                wdb.append(&refs).map_err(err("append"))?;
                n += k;
                acked.store(n, SeqCst);
            }
            stop.store(true, SeqCst);
            Ok(())
        });
        let mut copies = 0;
        let mut in_flight = 0;
        let mut k = 0;
        let r = loop {
            if stop.load(SeqCst) && k > 2 {
                break Ok(());
            }
            k += 1;
            let to = s.join(&format!("copy{k}"));
            let a0 = acked.load(SeqCst);
            if let Err(e) = kill_copy(&d, &to) {
                break Err(e);
            }
            let m = full.lock().unwrap().clone();
            let ro = rng.chance(1, 2);
            let r = (|| -> R {
                let cp = common::guard("open a copy", || if ro { Database::file_readonly(&to) } else { Database::file(&to) })?
                    .map_err(|e| format!("a live copy does not open: {e}"))?;
                let n = cp.len();
                ensure!(n >= a0, "copy begun after {a0} acknowledged records has {n}");
                ensure!(n <= m.len(), "copy has {n} records, only {} appended", m.len());
                m.prefix(n).check_all(&cp).map_err(|e| format!("live copy: {e}"))?;
                if n > a0 {
                    in_flight += 1;
                }
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&to);
            if let Err(e) = r {
                break Err(e);
            }
            copies += 1;
        };
        stop.store(true, SeqCst);
        match w.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(e),
            Err(_) => return Err("writer panicked".into()),
        }
        r?;
        Ok((copies, in_flight))
    });
    let (copies, in_flight) = result?;
    c.count("live_copies", copies);
    c.count("live_copies_with_newer_records", in_flight);
    c.distinct(common::mix(c.seed ^ copies << 32 ^ in_flight));
    Ok(())
}

pub fn run(r: &Runner) {
    r.phase("states", r.n(200, 4000), 8, r.n(15, 200) as f64, states);
    crate::hooks::DELAY.store(300, SeqCst);
    r.phase("live", r.n(40, 800), 4, r.n(20, 250) as f64, live);
    crate::hooks::DELAY.store(0, SeqCst);
    r.assume("a live copy reads the index file completely before it starts reading the data file");
}
