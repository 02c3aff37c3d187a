use crate::model::*;
use common::{ensure, Case, Runner, Scratch, R};
use fraos::Database;

fn history(c: &mut Case, file: bool) -> R {
    let scratch = if file { Some(Scratch::new("c01")) } else { None };
    let db = match &scratch {
        Some(s) => Database::file(s.join("db")).map_err(err("open"))?,
        None => Database::memory().map_err(err("open"))?,
    };
    let mut m = Model::default();
    let steps = c.rng.range(1, 40);
    m.check_all(&db)?;
    let mut rng = c.rng.fork();
    m.check_far(&db, &mut rng)?;
    for _ in 0..steps {
        let l = if c.rng.chance(1, 25) { vec![] } else { batch(c, &m, true) };
        if m.bytes > 6 << 20 {
            break;
        }
        c.t(format!("append {}", lens_text(&l)));
        m.append(&db, &mut rng, &l)?;
        c.count("records_appended", l.len() as u64);
        c.count("batches", 1);
        m.check_some(&db, &mut rng, 4)?;
        if rng.chance(1, 4) {
            let from = rng.below(m.len() + 3);
            m.check_iter(&db, from)?;
        }
    }
    m.check_all(&db)?;
    for _ in 0..3 {
        let from = rng.below(m.len() + 2);
        m.check_iter(&db, from)?;
    }
    m.check_far(&db, &mut rng)?;
    // an iterator created early sees later appends
    let from = rng.below(m.len() + 1);
    let mut it = db.iter_from_seqno(from).ok_or("no iterator")?;
    let mut seen = from;
    for _ in 0..3 {
        while let Some(x) = it.next() {
            same(Some(x.map_err(err("iterator"))?), &m.rec(seen), seen)?;
            seen += 1;
        }
        ensure!(seen == m.len(), "iterator stopped at {seen} of {}", m.len());
        m.append(&db, &mut rng, &[3, 900])?;
    }
    c.count("records_verified", m.len() as u64);
    c.count("bytes_appended", m.bytes as u64);
    c.distinct(c.trace_hash());
    if c.index < 2 {
        let s = c.trace_text().replace('\n', "; ");
        c.sample(s.chars().take(300).collect::<String>());
    }
    Ok(())
}

/// index mapping growth: 32768 entries fill one mapping
fn index_growth(c: &mut Case, file: bool) -> R {
    let scratch = if file { Some(Scratch::new("c01i")) } else { None };
    let db = match &scratch {
        Some(s) => Database::file(s.join("db")).map_err(err("open"))?,
        None => Database::memory().map_err(err("open"))?,
    };
    let mut m = Model::default();
    let mut rng = c.rng.fork();
    let first = *c.rng.pick(&[1usize, 32766, 32767, 32768, 32769, 40000]);
    let plan = [first, c.rng.range(1, 3), 32768usize.saturating_sub(first % 32768), c.rng.range(1, 33000), *c.rng.pick(&[1, 65535, 65536, 70000, 140000])];
    for n in plan {
        let lens: Vec<usize> = (0..n).map(|_| rng.range(1, 9)).collect();
        c.t(format!("append {n} short records"));
        m.append(&db, &mut rng, &lens)?;
        m.check_some(&db, &mut rng, 50)?;
        c.count("records_appended", n as u64);
    }
    m.check_all(&db)?;
    m.check_far(&db, &mut rng)?;
    c.distinct(c.trace_hash());
    c.count("index_mapping_growths", (m.len() / 32768) as u64);
    Ok(())
}

/// more mappings than the merge limit
fn many_maps(c: &mut Case, file: bool) -> R {
    let scratch = if file { Some(Scratch::new("c01m")) } else { None };
    let db = match &scratch {
        Some(s) => Database::file(s.join("db")).map_err(err("open"))?,
        None => Database::memory().map_err(err("open"))?,
    };
    let mut m = Model::default();
    let mut rng = c.rng.fork();
    let n = if file { 2 * 1070 } else { 6000 };
    let big = if file { MAP } else { 40 };
    let mut its = vec![];
    for i in 0..n {
        let l = if i % 2 == 0 { 1 } else { big };
        m.append(&db, &mut rng, &[l])?;
        if i % 97 == 0 || (2030..2060).contains(&i) {
            m.check_some(&db, &mut rng, 3)?;
            c.beat();
        }
        if i == 2040 {
            its.push((db.iter_from_seqno(2000).ok_or("no iterator")?, 2000));
        }
    }
    for (it, from) in its {
        let mut k = from;
        for x in it {
            same(Some(x.map_err(err("iterator"))?), &m.rec(k), k)?;
            k += 1;
        }
        ensure!(k == m.len(), "iterator opened before the merge stopped at {k} of {}", m.len());
    }
    m.check_head(&db)?;
    for i in 0..m.len() {
        if i % 3 == 0 || (2030..2080).contains(&i) {
            m.check_get(&db, i)?;
        }
    }
    for _ in 0..20 {
        m.append(&db, &mut rng, &[5, 70])?;
    }
    m.check_some(&db, &mut rng, 300)?;
    c.count("mappings_created_in_one_log", n as u64);
    c.t(format!("{n} alternating records of 1 and {big} bytes"));
    c.distinct(c.trace_hash());
    Ok(())
}

pub fn run(r: &Runner) {
    r.phase("file", r.n(500, 8000), 8, r.n(14, 180) as f64, |c| history(c, true));
    r.phase("memory", r.n(500, 8000), 8, r.n(10, 120) as f64, |c| history(c, false));
    r.phase("index_file", r.n(8, 64), 8, r.n(10, 90) as f64, |c| index_growth(c, true));
    r.phase("index_memory", r.n(8, 64), 8, r.n(10, 90) as f64, |c| index_growth(c, false));
    r.phase("maps_memory", r.n(2, 8), 4, 30.0, |c| many_maps(c, false));
    r.phase("maps_file", r.n(1, 3), 1, 60.0, |c| many_maps(c, true));
    r.assume("scratch files live on tmpfs (/dev/shm); the code sees ordinary files and mappings");
}
