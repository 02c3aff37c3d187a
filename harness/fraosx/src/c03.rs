//! crash points inside an append
//!
//! A recorder watches every system call the log makes while a history runs. Around each call it
//! takes the two files as a kill would leave them (page cache) and keeps, per file, the content
//! and size that were durable at the last completed sync. From these it builds the images a crash
//! could leave at that point - including in the middle of a copy into a mapping - and recovers
//! every distinct one with the real code.

use crate::c02::kill_copy;
use crate::hooks::{self, Call, Handler};
use crate::model::*;
use common::{ensure, hash_bytes, mix, Case, Rng, Runner, Scratch, R};
use fraos::Database;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::rc::Rc;

const FILES: [&str; 2] = ["seqno", "data"];

struct Rec {
    dir: PathBuf,
    work: PathBuf,
    durable: [Vec<u8>; 2],
    last: [Vec<u8>; 2],
    maps: BTreeMap<usize, (usize, usize, i64)>, // addr -> (len, file, offset)
    acked: Model,   // acknowledged
    attempt: Model, // acknowledged plus the batch being appended
    rng: Rng,
    error: Option<String>,
    seen: HashSet<u64>,
    images: u64,
    labels: HashMap<String, u64>,
    partial: u64,
    next: Option<([Vec<u8>; 2], Model)>,
    chosen_of: u64,
    events: u64,
    budget: u64,
    armed: bool,
}

fn file_of(fd: i32, dir: &Path) -> Option<usize> {
    let p = std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()?;
    FILES.iter().position(|f| dir.join(f) == p)
}

fn resized(v: &[u8], n: usize) -> Vec<u8> {
    let mut v = v.to_vec();
    v.resize(n, 0);
    v
}

impl Rec {
    fn current(&self) -> [Vec<u8>; 2] {
        let rd = |n: &str| {
            let mut v = vec![];
            if let Ok(mut f) = std::fs::File::open(self.dir.join(n)) {
                let _ = f.read_to_end(&mut v);
            }
            v
        };
        [rd("seqno"), rd("data")]
    }

    /// all crash images at this instant
    fn observe(&mut self, label: &str) {
        self.events += 1;
        if self.error.is_some() {
            return;
        }
        let cur = self.current();
        let last = std::mem::replace(&mut self.last, cur.clone());
        if self.images > self.budget {
            return;
        }
        self.image(&cur, &format!("kill {label}"));
        // mid-copy
        for f in 0..2 {
            let (old, new) = (&last[f], &cur[f]);
            let n = old.len().min(new.len());
            let Some((a, b)) = changed(old, new, n) else { continue };
            let mut cuts: Vec<usize> = vec![];
            if f == 0 {
                let all: Vec<usize> = (a / 8 * 8..b).step_by(8).filter(|x| *x > a).collect();
                if all.len() <= 8 {
                    cuts = all;
                } else {
                    for _ in 0..8 {
                        cuts.push(*self.rng.pick(&all));
                    }
                }
            } else {
                for _ in 0..3 {
                    cuts.push(a + self.rng.below(b - a));
                }
            }
            for cut in cuts {
                let mut part = new.clone();
                part[cut..n].copy_from_slice(&old[cut..n]);
                let tag = format!("mid-copy of {} at {cut} in {a}..{b} {label}", FILES[f]);
                if f == 0 {
                    self.image(&[part.clone(), cur[1].clone()], &format!("kill {tag}"));
                    let d = self.durable[1].clone();
                    self.image(&[part, d], &format!("power loss {tag}"));
                } else {
                    self.image(&[last[0].clone(), part], &format!("kill {tag}"));
                }
            }
        }
        // power loss: each file durable or current, in content and in size
        let variants = |f: usize| -> Vec<(Vec<u8>, u64, &'static str)> {
            let mut v: Vec<(Vec<u8>, u64, &'static str)> = vec![];
            for k in 0..4 {
                let content = if k & 1 == 0 { &self.durable[f] } else { &cur[f] };
                let size = if k & 2 == 0 { self.durable[f].len() } else { cur[f].len() };
                let x = resized(content, size);
                let h = hash_bytes(&x);
                if v.iter().all(|y| y.1 != h) {
                    v.push((x, h, name(k)));
                }
            }
            v
        };
        let (iv, dv) = (variants(0), variants(1));
        for i in &iv {
            for d in &dv {
                if self.seen.contains(&self.key(i.1, d.1)) {
                    continue;
                }
                self.image(&[i.0.clone(), d.0.clone()], &format!("power loss (index {}, data {}) {label}", i.2, d.2));
                if self.error.is_some() {
                    return;
                }
            }
        }
    }

    fn key(&self, index: u64, data: u64) -> u64 {
        mix(index ^ mix(data ^ (self.acked.len() as u64) << 32 ^ self.attempt.len() as u64))
    }

    fn image(&mut self, img: &[Vec<u8>; 2], label: &str) {
        if self.error.is_some() {
            return;
        }
        let h = self.key(hash_bytes(&img[0]), hash_bytes(&img[1]));
        if !self.seen.insert(h) {
            return;
        }
        self.images += 1;
        *self.labels.entry(label.split_whitespace().next().unwrap_or("").to_string()).or_insert(0) += 1;
        let r = common::guard("recovery", || self.recover(img)).unwrap_or_else(Err);
        if let Err(e) = r {
            self.error = Some(format!("crash image [{label}] after {} acknowledged records (+{} in flight), index {} bytes, data {} bytes: {e}",
                self.acked.len(), self.attempt.len() - self.acked.len(), img[0].len(), img[1].len()));
        }
    }

    fn write(&self, d: &Path, img: &[Vec<u8>; 2]) -> R {
        let _ = std::fs::remove_dir_all(d);
        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
        for (f, b) in FILES.iter().zip(img) {
            std::fs::write(d.join(f), b).map_err(|e| e.to_string())?;
        }
        Ok(())
    }

    fn recover(&mut self, img: &[Vec<u8>; 2]) -> R {
        let d = self.work.join("img");
        self.write(&d, img)?;
        let mut rng = self.rng.fork();
        let n;
        {
            let ro = if rng.chance(1, 6) {
                let ro = Database::file_readonly(&d).map_err(|e| format!("read-only open fails: {e}"))?;
                Some(ro.len())
            } else {
                None
            };
            let db = Database::file(&d).map_err(|e| format!("open fails: {e}"))?;
            n = db.len();
            ensure!(n >= self.acked.len(), "only {n} records recovered");
            ensure!(n <= self.attempt.len(), "{n} records recovered, {} were ever appended", self.attempt.len());
            if let Some(r) = ro {
                ensure!(r == n, "read-only open has {r} records, writable open {n}");
            }
            if n > self.acked.len() && n < self.attempt.len() {
                self.partial += 1;
            }
            let mut m = self.attempt.prefix(n);
            if n <= 200 {
                m.check_all(&db)?;
            } else {
                m.check_some(&db, &mut rng, 100)?;
            }
            let l: Vec<usize> = (0..rng.range(1, 3)).map(|_| rng.range(1, 200)).collect();
            m.append(&db, &mut rng, &l).map_err(|e| format!("append after recovery: {e}"))?;
            m.check_some(&db, &mut rng, 30)?;
            if rng.chance(1, 2) {
                let k = self.work.join("img2");
                let _ = std::fs::remove_dir_all(&k);
                kill_copy(&d, &k)?;
                let db = Database::file(&k).map_err(|e| format!("second open fails: {e}"))?;
                m.check_some(&db, &mut rng, 30).map_err(|e| format!("after recovery, append and kill: {e}"))?;
            }
            drop(db);
            let db = Database::file(&d).map_err(|e| format!("reopen after recovery fails: {e}"))?;
            m.check_some(&db, &mut rng, 30).map_err(|e| format!("after recovery, append and close: {e}"))?;
        }
        self.chosen_of += 1;
        if self.rng.below(self.chosen_of as usize) == 0 {
            self.next = Some((img.clone(), self.attempt.prefix(n)));
        }
        Ok(())
    }
}

/// first and last (exclusive) differing position
fn changed(x: &[u8], y: &[u8], n: usize) -> Option<(usize, usize)> {
    let p = (0..n).step_by(4096).filter(|p| x[*p..(*p + 4096).min(n)] != y[*p..(*p + 4096).min(n)]);
    let pages: Vec<usize> = p.collect();
    let (first, last) = (*pages.first()?, (pages.last()? + 4096).min(n));
    let a = (first..n).find(|i| x[*i] != y[*i])?;
    let b = (0..last).rev().find(|i| x[*i] != y[*i])? + 1;
    Some((a, b))
}

fn name(k: usize) -> &'static str {
    ["durable", "current content, durable size", "durable content, current size", "current"][k]
}

struct Watch(Rc<RefCell<Rec>>);

impl Handler for Watch {
    fn before(&mut self, c: &Call) -> Option<i32> {
        let mut r = self.0.borrow_mut();
        if r.armed {
            r.observe(&format!("before {}", c.name()));
        }
        None
    }
    fn after(&mut self, c: &Call, ret: isize) {
        let mut r = self.0.borrow_mut();
        if ret == -1 {
            return;
        }
        match *c {
            Call::Mmap { len, fd, off, .. } if fd >= 0 => {
                let dir = r.dir.clone();
                if let Some(f) = file_of(fd, &dir) {
                    r.maps.insert(ret as usize, (len, f, off));
                }
            }
            Call::Munmap { addr, .. } => {
                r.maps.remove(&addr);
            }
            Call::Msync { addr, len, sync: true } => {
                let hit = r.maps.range(..=addr).next_back().map(|(a, x)| (*a, *x));
                if let Some((base, (mlen, f, off))) = hit {
                    if addr < base + mlen {
                        let cur = r.current();
                        let from = (off as usize + (addr - base)).min(cur[f].len());
                        let to = (from + len.next_multiple_of(4096)).min(cur[f].len());
                        let size = cur[f].len();
                        r.durable[f].resize(size, 0);
                        r.durable[f][from..to].copy_from_slice(&cur[f][from..to]);
                    }
                }
            }
            Call::Fsync { fd } => {
                let dir = r.dir.clone();
                if let Some(f) = file_of(fd, &dir) {
                    let cur = r.current();
                    r.durable[f] = cur[f].clone();
                }
            }
            _ => {}
        }
        if r.armed {
            r.observe(&format!("after {}", c.name()));
        }
    }
}

fn sessions(c: &mut Case, style: usize) -> R {
    let s = Scratch::new("c03");
    let mut base: ([Vec<u8>; 2], Model) = ([vec![], vec![]], Model::default());
    let mut rng = c.rng.fork();
    let n_sessions = if style == 1 { 1 } else { rng.range(1, 4) };
    if style == 1 {
        // a long index: batches cross a mapping of index entries
        let d = s.join("pre");
        let mut m = Model::default();
        let db = Database::file(&d).map_err(err("open"))?;
        let lens: Vec<usize> = (0..32768 - rng.range(1, 4)).map(|_| 1 + rng.below(2)).collect();
        m.append(&db, &mut rng, &lens)?;
        let closed = rng.chance(1, 2);
        if closed {
            drop(db);
        }
        base = (FILES.map(|f| std::fs::read(d.join(f)).unwrap_or_default()), m);
    }
    for k in 0..n_sessions {
        let dir = s.join(&format!("s{k}"));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        for (f, b) in FILES.iter().zip(&base.0) {
            // a first session starts from nothing, or from files created and not written
            if !b.is_empty() || rng.chance(1, 2) || k > 0 {
                std::fs::write(dir.join(f), b).map_err(|e| e.to_string())?;
            }
        }
        let rec = Rc::new(RefCell::new(Rec {
            dir: std::fs::canonicalize(&dir).map_err(|e| e.to_string())?,
            work: s.0.clone(),
            durable: base.0.clone(),
            last: base.0.clone(),
            maps: BTreeMap::new(),
            acked: base.1.clone(),
            attempt: base.1.clone(),
            rng: rng.fork(),
            error: None,
            seen: HashSet::new(),
            images: 0,
            labels: HashMap::new(),
            partial: 0,
            next: None,
            chosen_of: 0,
            events: 0,
            budget: if c.thorough { 4000 } else { 600 },
            armed: true,
        }));
        let fail = |rec: &Rc<RefCell<Rec>>| -> R {
            match rec.borrow_mut().error.take() {
                Some(e) => Err(e),
                None => Ok(()),
            }
        };
        let r = hooks::with(Box::new(Watch(rec.clone())), || -> R {
            let db = common::guard("open", || Database::file(&dir))?.map_err(err("open"))?;
            fail(&rec)?;
            let appends = rng.range(1, 5);
            for a in 0..appends {
                let n = if rng.chance(1, 2) { 1 } else { rng.range(2, 6) };
                let lens: Vec<usize> = (0..n)
                    .map(|_| match rng.below(12) {
                        0 => rng.range(1, 9),
                        1 => rng.range(4000, 9000),
                        2 if a < 2 => rng.range(200_000, 530_000),
                        _ => rng.range(1, 600),
                    })
                    .collect();
                let tags: Vec<u64> = lens.iter().map(|_| rng.next()).collect();
                let data: Vec<Vec<u8>> = tags.iter().zip(&lens).map(|(t, l)| bytes(*t, *l)).collect();
                let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
                {
                    let mut r = rec.borrow_mut();
                    for (t, l) in tags.iter().zip(&lens) {
                        r.attempt.push(*t, *l);
                    }
                }
                c.t(format!("session {k}: append {}", lens_text(&lens)));
                db.append(&refs).map_err(err("append"))?;
                fail(&rec)?;
                {
                    let mut r = rec.borrow_mut();
                    r.acked = r.attempt.clone();
                    // the acknowledged records must survive a power loss from here on
                    hooks::quiet(|| r.observe("after the append returned"));
                }
                fail(&rec)?;
                c.count("appends_observed", 1);
            }
            c.t(format!("session {k}: drop"));
            drop(db);
            Ok(())
        });
        fail(&rec)?;
        r?;
        {
            let mut r = rec.borrow_mut();
            r.observe("after close");
        }
        fail(&rec)?;
        let r = rec.borrow();
        c.count("crash_images_recovered", r.images);
        c.count("system_call_boundaries", r.events);
        c.count("images_with_part_of_a_batch", r.partial);
        for (l, n) in &r.labels {
            c.count(&format!("images_{l}"), *n);
        }
        c.evals(r.images);
        for h in &r.seen {
            c.distinct(*h);
        }
        if let Some(n) = &r.next {
            base = n.clone();
        }
        drop(r);
        let _ = std::fs::remove_dir_all(&dir);
    }
    if c.index < 2 {
        c.sample(c.trace_text().replace('\n', "; ").chars().take(300).collect::<String>());
    }
    Ok(())
}

// ------------------------------------------------------------ real kills
fn tag_of(seed: u64, i: usize) -> (u64, usize) {
    let t = mix(seed ^ mix(i as u64));
    let l = match t % 40 {
        0 => 1 + (t >> 16) as usize % 300_000,
        1..=5 => 1 + (t >> 16) as usize % 9000,
        _ => 1 + (t >> 16) as usize % 500,
    };
    (t, l)
}

pub fn child(dir: &str, seed: u64) -> ! {
    use std::io::Write;
    let db = Database::file(dir).expect("open");
    let mut out = std::io::stdout().lock();
    loop {
        let n = db.len();
        let k = 1 + (mix(seed ^ n as u64 ^ 77) % 4) as usize;
        let data: Vec<Vec<u8>> = (n..n + k).map(|i| tag_of(seed, i)).map(|(t, l)| bytes(t, l)).collect();
        let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
        db.append(&refs).expect("append");
        if out.write_all(&((n + k) as u64).to_le_bytes()).is_err() || out.flush().is_err() {
            std::process::exit(0);
        }
    }
}

fn sigkill(c: &mut Case) -> R {
    use std::process::{Command, Stdio};
    let s = Scratch::new("c03k");
    let d = s.join("db");
    let seed = c.rng.next();
    let mut acked = 0usize;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    for round in 0..c.rng.range(2, 4) {
        let mut ch = Command::new(&exe)
            .args(["child-append", d.to_str().unwrap(), &seed.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut pipe = ch.stdout.take().unwrap();
        let wait = c.rng.range(1, 25) as u64;
        let pid = ch.id() as i32;
        let spin = c.rng.below(3000);
        let killer = std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(wait));
            for _ in 0..spin {
                std::hint::spin_loop();
            }
            unsafe { libc::kill(pid, libc::SIGKILL) };
        });
        let mut got = vec![];
        let _ = pipe.read_to_end(&mut got);
        killer.join().unwrap();
        let st = ch.wait().map_err(|e| e.to_string())?;
        {
            use std::os::unix::process::ExitStatusExt;
            if st.signal() != Some(libc::SIGKILL) {
                return Err(format!("the appending process ended by itself: {st}"));
            }
        }
        if let Some(x) = got.chunks_exact(8).last() {
            acked = u64::from_le_bytes(x.try_into().unwrap()) as usize;
        }
        if !d.exists() {
            continue;
        }
        let db = common::guard("open", || Database::file(&d))?.map_err(|e| format!("open after SIGKILL ({acked} acknowledged): {e}"))?;
        let n = db.len();
        ensure!(n >= acked && n <= acked + 4, "after SIGKILL: {acked} acknowledged, {n} recovered");
        let mut m = Model::default();
        for i in 0..n {
            let (t, l) = tag_of(seed, i);
            m.push(t, l);
        }
        m.check_all(&db)?;
        c.t(format!("round {round}: killed after {wait} ms, {acked} acknowledged, {n} recovered"));
        c.count("real_kills", 1);
        c.count("records_recovered_after_real_kills", n as u64);
        acked = n;
        drop(db);
    }
    c.distinct(c.trace_hash());
    Ok(())
}

pub fn run(r: &Runner) {
    r.phase("images", r.n(160, 4000), 8, r.n(30, 420) as f64, |c| sessions(c, 0));
    r.phase("long_index", r.n(6, 60), 6, r.n(12, 90) as f64, |c| sessions(c, 1));
    r.phase("sigkill", r.n(40, 600), 4, r.n(12, 90) as f64, sigkill);
    r.assume("unsynced content may survive, be lost per file, or be cut off at any point of the copy; images in which an arbitrary subset of the pages of one unsynced batch of index entries survives are not generated");
    r.assume("msync(MS_SYNC) makes the synced range and the file size durable, as Linux does");
}
