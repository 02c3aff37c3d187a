//! damaged files
use crate::c02::kill_copy;
use crate::model::*;
use common::{ensure, Case, Runner, Scratch, R};
use fraos::Database;
use std::path::Path;

fn set_len(p: &Path, n: u64) -> R {
    std::fs::OpenOptions::new().write(true).open(p).and_then(|f| f.set_len(n)).map_err(|e| e.to_string())
}

fn reject(d: &Path, what: &str, ro: bool) -> R {
    let before: Vec<Vec<u8>> = ["seqno", "data"].iter().map(|n| std::fs::read(d.join(n)).unwrap_or_default()).collect();
    let r = common::guard(&format!("open with {what}"), || if ro { Database::file_readonly(d) } else { Database::file(d) })?;
    match r {
        Ok(db) => return Err(format!("{what}: opened without an error, {} records", db.len())),
        Err(e) => legible(what, e)?,
    }
    let after: Vec<Vec<u8>> = ["seqno", "data"].iter().map(|n| std::fs::read(d.join(n)).unwrap_or_default()).collect();
    ensure!(before == after, "{what}: the failed open changed the files");
    Ok(())
}

/// an error can be shown, and so can everything it came from
fn legible(what: &str, e: fraos::FraosError) -> R {
    let n = common::guard(&format!("showing the error of {what}"), || {
        let mut n = e.to_string().len().min(format!("{e:?}").len());
        let mut s = std::error::Error::source(&e);
        for _ in 0..20 {
            let Some(x) = s else { return Some(n) };
            n = n.min(x.to_string().len());
            s = x.source();
        }
        None
    })?;
    ensure!(n.is_some_and(|n| n > 0), "{what}: the error {e:?} cannot be shown ({n:?})");
    Ok(())
}

/// no log can be opened there: the place or one of its files is of the wrong kind
fn places(c: &mut Case, s: &Scratch, d: &Path, data: &[u8]) -> R {
    let ro = c.rng.chance(1, 2);
    let f = s.join("plain");
    std::fs::write(&f, data).map_err(|e| e.to_string())?;
    reject(&f, &format!("a file in place of the folder, ro={ro}"), ro)?;
    ensure!(std::fs::read(&f).map_err(|e| e.to_string())? == data, "opening a file as a log changed it");
    let below = f.join("log");
    reject(&below, &format!("a place below a file, ro={ro}"), ro)?;
    let missing = s.join("missing");
    reject(&missing.join("log"), &format!("a place in a missing folder, ro={ro}"), ro)?;
    ensure!(!missing.exists(), "the failed open made {missing:?}");
    for n in ["data", "seqno"] {
        let (p, away) = (d.join(n), d.join("away"));
        std::fs::rename(&p, &away).map_err(|e| e.to_string())?;
        std::fs::create_dir(&p).map_err(|e| e.to_string())?;
        reject(d, &format!("a folder in place of {n}, ro={ro}"), ro)?;
        std::fs::remove_dir(&p).map_err(|e| format!("the folder in place of {n} after the failed open: {e}"))?;
        std::fs::rename(&away, &p).map_err(|e| e.to_string())?;
    }
    c.count("impossible_places_rejected", 5);
    Ok(())
}

fn damage(c: &mut Case) -> R {
    let s = Scratch::new("c09");
    let src = s.join("src");
    let mut m = Model::default();
    let mut rng = c.rng.fork();
    let db = Database::file(&src).map_err(err("open"))?;
    for _ in 0..rng.range(1, 6) {
        let l = if rng.chance(1, 40) { (0..rng.range(30000, 33000)).map(|_| 1).collect() } else { batch(c, &m, m.bytes < 1 << 20) };
        c.t(format!("append {}", lens_text(&l)));
        m.append(&db, &mut rng, &l)?;
    }
    let padded = rng.chance(1, 2);
    let d = s.join("img");
    if padded {
        kill_copy(&src, &d)?;
        drop(db);
    } else {
        drop(db);
        kill_copy(&src, &d)?;
    }
    let data = std::fs::read(d.join("data")).map_err(|e| e.to_string())?;
    let index = std::fs::read(d.join("seqno")).map_err(|e| e.to_string())?;
    let full = m.bytes as u64;
    let restore = |what: &str| -> R {
        std::fs::write(d.join("data"), &data).map_err(|e| e.to_string())?;
        std::fs::write(d.join("seqno"), &index).map_err(|e| e.to_string())?;
        let db = common::guard("open restored", || Database::file_readonly(&d))?.map_err(err(&format!("open restored after {what}")))?;
        m.check_all(&db).map_err(|e| format!("restored after {what}: {e}"))
    };
    // data shorter than the index describes
    let lastlen = m.recs.last().unwrap().1 as u64;
    let mut cuts = vec![0, 1.min(full - 1), full - 1, full - lastlen, full / 2, (full - lastlen).saturating_sub(1)];
    for _ in 0..6 {
        cuts.push(rng.range64(0, full - 1));
    }
    for k in 0..m.len().min(5) {
        cuts.push(m.prefix(k).bytes as u64); // at a record boundary
    }
    cuts.sort();
    cuts.dedup();
    for cut in cuts {
        if cut >= full {
            continue;
        }
        set_len(&d.join("data"), cut)?;
        let ro = rng.chance(1, 2);
        reject(&d, &format!("data cut to {cut} of {full} bytes, {} records, padded={padded}, ro={ro}", m.len()), ro)?;
        c.count("data_cuts_rejected", 1);
        c.distinct(common::mix(cut ^ full << 24));
        if rng.chance(1, 4) {
            restore("cutting the data")?;
        } else {
            std::fs::write(d.join("data"), &data).map_err(|e| e.to_string())?;
        }
    }
    restore("data cuts")?;
    // index ending in the middle of a non-empty entry
    for _ in 0..8 {
        let k = rng.range(1, m.len()) as u64; // the k-th entry is cut, k-1 whole ones remain
        let part = *rng.pick(&[1u64, 4, 7, 8, 9, 12, 15]);
        if k == 1 && rng.chance(1, 2) {
            continue;
        }
        let cut = (k - 1) * 16 + part;
        set_len(&d.join("seqno"), cut)?;
        let ro = rng.chance(1, 2);
        reject(&d, &format!("index cut to {cut} bytes of {}, padded={padded}, ro={ro}", m.len() * 16), ro)?;
        c.count("index_cuts_rejected", 1);
        c.distinct(common::mix(cut ^ (m.len() as u64) << 40));
        if rng.chance(1, 3) {
            restore("cutting the index")?;
        } else {
            std::fs::write(d.join("seqno"), &index).map_err(|e| e.to_string())?;
        }
    }
    restore("index cuts")?;
    if c.rng.chance(1, 4) {
        places(c, &s, &d, &data)?;
        restore("impossible places")?;
    }
    // bytes beyond what the index describes are ignored
    for _ in 0..3 {
        let extra = rng.range(1, 600000);
        let mut v = data[..m.bytes].to_vec();
        v.extend(bytes(rng.next(), extra));
        std::fs::write(d.join("data"), &v).map_err(|e| e.to_string())?;
        let db = common::guard("open with extra data", || if rng.chance(1, 2) { Database::file_readonly(&d) } else { Database::file(&d) })?
            .map_err(err(&format!("open with {extra} extra data bytes")))?;
        m.check_all(&db)?;
        drop(db);
        let db = Database::file(&d).map_err(err("open with extra data"))?;
        let mut m2 = m.clone();
        m2.append(&db, &mut rng, &[5, 4000])?;
        m2.check_all(&db)?;
        drop(db);
        let db = Database::file(&d).map_err(err("reopen"))?;
        m2.check_all(&db)?;
        drop(db);
        c.count("extra_data_ignored", 1);
        restore("extra data")?;
    }
    if c.index < 2 {
        c.sample(format!("{} records, {} data bytes, padded={padded}; {}", m.len(), m.bytes, c.trace_text().replace('\n', "; ")).chars().take(300).collect::<String>());
    }
    Ok(())
}

pub fn run(r: &Runner) {
    r.phase("damage", r.n(250, 5000), 8, r.n(25, 300) as f64, damage);
}
