//! reopening after clean closes and after kills between appends
use crate::model::*;
use common::{ensure, ensure_eq, Case, Rng, Runner, Scratch, R};
use fraos::Database;
use std::path::Path;

/// what a process killed now would leave: the files as the page cache has them
pub fn kill_copy(from: &Path, to: &Path) -> R {
    std::fs::create_dir_all(to).map_err(|e| e.to_string())?;
    for n in ["seqno", "data"] {
        if from.join(n).exists() {
            std::fs::copy(from.join(n), to.join(n)).map_err(|e| format!("copy {n}: {e}"))?;
        }
    }
    Ok(())
}

fn verify(c: &mut Case, db: &Database, m: &Model, rng: &mut Rng) -> R {
    if m.len() < 3000 {
        m.check_all(db)?;
    } else {
        m.check_some(db, rng, 400)?;
        m.check_iter(db, m.len() - 300)?;
        if rng.chance(1, 3) {
            m.check_iter(db, 0)?;
        }
    }
    m.check_far(db, rng)?;
    c.count("records_verified_after_reopen", m.len().min(3000) as u64);
    Ok(())
}

fn cycles(c: &mut Case, style: usize) -> R {
    let s = Scratch::new("c02");
    let mut dir_n = 0;
    let mut dir = s.join("d0");
    let mut m = Model::default();
    let mut rng = c.rng.fork();
    let cycles = rng.range(1, if style == 1 { 4 } else { 10 });
    // one of ours in three: same growth step boundaries hit again and again
    for k in 0..cycles {
        let db = common::guard("open", || Database::file(&dir))?.map_err(err("open"))?;
        verify(c, &db, &m, &mut rng)?;
        let appends = match rng.below(4) {
            0 => 0,
            1 => 1,
            _ => rng.range(1, 8),
        };
        for _ in 0..appends {
            let l = match style {
                1 => {
                    // many index entries: cross 32768-entry mappings
                    let n = *rng.pick(&[1usize, 2, 1000, 16384, 32767, 32768, 32769]);
                    (0..n).map(|_| rng.range(1, 4)).collect()
                }
                2 => (0..rng.range(1, 3)).map(|_| 1).collect(),
                _ => batch(c, &m, true),
            };
            c.t(format!("append {}", lens_text(&l)));
            m.append(&db, &mut rng, &l)?;
            c.count("records_appended", l.len() as u64);
            if m.bytes > 5 << 20 {
                break;
            }
        }
        m.check_some(&db, &mut rng, 10)?;
        match rng.below(3) {
            0 => {
                c.t("clean close");
                c.count("clean_closes", 1);
                drop(db);
            }
            1 => {
                c.t("kill");
                c.count("kills", 1);
                dir_n += 1;
                let to = s.join(&format!("d{dir_n}"));
                kill_copy(&dir, &to)?;
                drop(db);
                let _ = std::fs::remove_dir_all(&dir);
                dir = to;
            }
            _ => {
                // killed right after reopening, before anything else
                c.t("clean close, open, kill");
                c.count("kills", 1);
                drop(db);
                let db = common::guard("open", || Database::file(&dir))?.map_err(err("open"))?;
                m.check_head(&db)?;
                dir_n += 1;
                let to = s.join(&format!("d{dir_n}"));
                kill_copy(&dir, &to)?;
                drop(db);
                let _ = std::fs::remove_dir_all(&dir);
                dir = to;
            }
        }
        let _ = k;
    }
    let db = common::guard("open", || Database::file(&dir))?.map_err(err("open"))?;
    verify(c, &db, &m, &mut rng)?;
    drop(db);
    ensure_eq!(std::fs::metadata(dir.join("data")).map(|x| x.len() as usize).unwrap_or(0), m.bytes, "data bytes after a clean close");
    ensure_eq!(std::fs::metadata(dir.join("seqno")).map(|x| x.len() as usize).unwrap_or(0), m.len() * 16, "index bytes after a clean close");
    c.distinct(c.trace_hash());
    if c.index < 2 {
        c.sample(c.trace_text().replace('\n', "; ").chars().take(400).collect::<String>());
    }
    Ok(())
}

/// every log length from 0 to n killed with padding: the search for the end of the index
fn every_length(c: &mut Case) -> R {
    let s = Scratch::new("c02e");
    let src = s.join("src");
    let db = Database::file(&src).map_err(err("open"))?;
    let mut m = Model::default();
    let mut rng = c.rng.fork();
    let base = c.index * 40;
    if base > 0 {
        let lens: Vec<usize> = (0..base).map(|_| rng.range(1, 30)).collect();
        m.append(&db, &mut rng, &lens)?;
    }
    for k in 0..40 {
        let to = s.join("img");
        kill_copy(&src, &to)?;
        {
            let d = common::guard("open", || Database::file(&to))?.map_err(err(&format!("open after kill at length {}", m.len())))?;
            m.check_head(&d)?;
            m.check_some(&d, &mut rng, 3)?;
            let mut m2 = m.clone();
            m2.append(&d, &mut rng, &[7, 11])?;
            m2.check_some(&d, &mut rng, 3)?;
        }
        let _ = std::fs::remove_dir_all(&to);
        m.append(&db, &mut rng, &[1 + k])?;
        c.count("lengths_killed_and_reopened", 1);
        c.distinct(m.len() as u64);
    }
    ensure!(m.len() == base + 40, "harness");
    Ok(())
}

pub fn run(r: &Runner) {
    r.phase("mixed", r.n(500, 8000), 8, r.n(15, 240) as f64, |c| cycles(c, 0));
    r.phase("index", r.n(30, 300), 8, r.n(12, 120) as f64, |c| cycles(c, 1));
    r.phase("tiny", r.n(300, 5000), 8, r.n(10, 90) as f64, |c| cycles(c, 2));
    r.phase("lengths", r.n(16, 900), 8, r.n(10, 120) as f64, every_length);
    r.assume("a kill between appends leaves the files as the page cache shows them at that instant; the image is a byte copy of the open directory");
}
