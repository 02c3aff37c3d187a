//! concurrent histories, recorded at the client boundary and checked offline
use crate::hooks;
use crate::model::*;
use common::{ensure, ensure_eq, mix, Case, Rng, Runner, Scratch, R};
use fraos::Database;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// record: tag (8 bytes: writer << 48 | batch << 16 | index in batch), batch size (4), length (4), fill
fn record(tag: u64, n: usize, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    v.extend_from_slice(&tag.to_le_bytes());
    v.extend_from_slice(&(n as u32).to_le_bytes());
    v.extend_from_slice(&(len as u32).to_le_bytes());
    v.extend_from_slice(&bytes(tag, len - 16));
    v
}

fn parse(b: &[u8]) -> Result<(u64, usize), String> {
    ensure!(b.len() >= 16, "a record of {} bytes was read, none is that short", b.len());
    let tag = u64::from_le_bytes(b[..8].try_into().unwrap());
    let n = u32::from_le_bytes(b[8..12].try_into().unwrap()) as usize;
    let len = u32::from_le_bytes(b[12..16].try_into().unwrap()) as usize;
    ensure!(len == b.len() && b[16..] == bytes(tag, len - 16)[..], "a torn or mixed record was read ({} bytes, header {tag:x}/{n}/{len})", b.len());
    Ok((tag, n))
}

#[derive(Clone, Debug)]
enum Ev {
    /// tag of the first record, batch size, number reported
    Append(u64, usize, usize),
    Get(usize, Option<u64>),
    Len(usize),
    Last(Option<u64>),
    Empty(bool),
}

#[derive(Clone, Debug)]
struct Op {
    call: u64,
    ret: u64,
    thread: usize,
    ev: Ev,
}

struct Clock(AtomicU64);
impl Clock {
    fn now(&self) -> u64 {
        self.0.fetch_add(1, SeqCst)
    }
}

pub struct Setup {
    pub writers: usize,
    pub readers: usize,
    pub batches: usize,
    pub file: bool,
    pub big: bool,
    pub churn: bool,
}

fn lens(rng: &mut Rng, big: bool) -> Vec<usize> {
    let n = if rng.chance(1, 2) { 1 } else { rng.range(2, 6) };
    (0..n)
        .map(|_| match rng.below(12) {
            0 if big => rng.range(100_000, 540_000),
            1 | 2 => rng.range(3000, 9000),
            _ => rng.range(16, 400),
        })
        .collect()
}

fn writer(db: &Database, t: usize, s: &Setup, mut rng: Rng, clock: &Clock, done: &AtomicUsize) -> Result<Vec<Op>, String> {
    let mut log = vec![];
    let mut h = db.clone();
    for b in 0..s.batches {
        let l = lens(&mut rng, s.big);
        let base = (t as u64) << 48 | (b as u64) << 16;
        let data: Vec<Vec<u8>> = l.iter().enumerate().map(|(i, len)| record(base | i as u64, l.len(), *len)).collect();
        let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
        let call = clock.now();
        let r = h.append_get_seqno(&refs);
        let ret = clock.now();
        let seq = r.map_err(err("append"))?.ok_or("append of records reports no number")?;
        log.push(Op { call, ret, thread: t, ev: Ev::Append(base, l.len(), seq) });
        if s.churn && rng.chance(1, 4) {
            h = db.clone();
        }
        if rng.chance(1, 3) {
            // read own write back
            let i = rng.below(l.len());
            let call = clock.now();
            let r = h.get_by_seqno(seq + i);
            let ret = clock.now();
            let got = r.map_err(err("get"))?;
            let got = got.map(|g| parse(&g)).transpose()?.map(|x| x.0);
            log.push(Op { call, ret, thread: t, ev: Ev::Get(seq + i, got) });
        }
        if rng.chance(1, 6) {
            std::thread::yield_now();
        }
    }
    done.fetch_add(1, SeqCst);
    Ok(log)
}

fn reader(db: &Database, t: usize, s: &Setup, mut rng: Rng, clock: &Clock, done: &AtomicUsize) -> Result<Vec<Op>, String> {
    let mut log = vec![];
    let mut h = db.clone();
    let mut it: Option<(fraos::SeqNoIter, usize)> = None;
    let cap = 400 * s.batches;
    let mut after = 0;
    let mut around = 0usize;
    while after < 20 && log.len() < cap {
        if done.load(SeqCst) == s.writers {
            after += 1;
        }
        match rng.below(10) {
            0..=3 => {
                // near the end, where appends are taking effect
                let i = (around + rng.below(6)).saturating_sub(2);
                let call = clock.now();
                let r = h.get_by_seqno(i);
                let ret = clock.now();
                let got = r.map_err(|e| format!("get {i}: unexpected error: {e}"))?;
                let got = got.map(|g| parse(&g)).transpose()?.map(|x| x.0);
                if got.is_some() {
                    around = around.max(i + 1);
                }
                log.push(Op { call, ret, thread: t, ev: Ev::Get(i, got) });
            }
            4 | 5 => {
                let call = clock.now();
                let n = h.len();
                let ret = clock.now();
                log.push(Op { call, ret, thread: t, ev: Ev::Len(n) });
                around = n;
                if n > 0 && rng.chance(1, 2) {
                    let call = clock.now();
                    let r = h.get_by_seqno(n - 1);
                    let ret = clock.now();
                    let got = r.map_err(|e| format!("get {}: unexpected error: {e}", n - 1))?;
                    let got = got.map(|g| parse(&g)).transpose()?.map(|x| x.0);
                    log.push(Op { call, ret, thread: t, ev: Ev::Get(n - 1, got) });
                }
            }
            6 => {
                let call = clock.now();
                let r = h.last();
                let ret = clock.now();
                let got = r.map_err(err("last"))?;
                let got = got.map(|g| parse(&g)).transpose()?.map(|x| x.0);
                log.push(Op { call, ret, thread: t, ev: Ev::Last(got) });
            }
            7 => {
                let call = clock.now();
                let e = h.is_empty();
                let ret = clock.now();
                log.push(Op { call, ret, thread: t, ev: Ev::Empty(e) });
            }
            _ => {
                // an iteration is a sequence of reads of consecutive numbers
                if it.is_none() {
                    let from = if rng.chance(1, 2) { around.saturating_sub(rng.below(20)) } else { rng.below(around + 2) };
                    it = Some((h.iter_from_seqno(from).ok_or("no iterator")?, from));
                }
                for _ in 0..rng.range(1, 12) {
                    let (i, at) = it.as_mut().unwrap();
                    let call = clock.now();
                    let r = i.next();
                    let ret = clock.now();
                    let r = r.transpose().map_err(|e| format!("iterator at {at}: unexpected error: {e}"))?;
                    let got = r.map(|g| parse(&g)).transpose()?.map(|x| x.0);
                    log.push(Op { call, ret, thread: t, ev: Ev::Get(*at, got) });
                    if got.is_none() {
                        if rng.chance(1, 2) {
                            it = None;
                        }
                        break;
                    }
                    *at += 1;
                }
                if rng.chance(1, 8) {
                    it = None;
                }
            }
        }
        if s.churn && rng.chance(1, 10) {
            h = db.clone();
        }
    }
    Ok(log)
}

/// Offline checker.
fn check(ops: &[Op], c: &mut Case) -> Result<Vec<u64>, String> {
    // numbers: dense, unique, batches contiguous
    let mut apps: Vec<&Op> = ops.iter().filter(|o| matches!(o.ev, Ev::Append(..))).collect();
    apps.sort_by_key(|o| match o.ev { Ev::Append(_, _, s) => s, _ => 0 });
    let mut content: Vec<u64> = vec![];
    let mut starts: Vec<(u64, u64)> = vec![]; // per number: (call, ret) of its append
    for o in &apps {
        if let Ev::Append(tag, n, seq) = o.ev {
            ensure_eq!(seq, content.len(), "numbers reported by appends, in order: the batch of {n} by thread {}", o.thread);
            for i in 0..n {
                content.push(tag | i as u64);
                starts.push((o.call, o.ret));
            }
        }
    }
    // real-time order of appends = number order
    let mut max_call = 0;
    for o in &apps {
        ensure!(o.ret > max_call, "an append that returned before another was called got the later number");
        max_call = max_call.max(o.call);
    }
    // acknowledged length over time, and the largest number an observation may involve
    let total = content.len();
    let mut by_ret: Vec<(u64, usize)> = vec![];
    let mut by_call: Vec<(u64, usize)> = vec![];
    for o in &apps {
        if let Ev::Append(_, n, s) = o.ev {
            by_ret.push((o.ret, s + n));
            by_call.push((o.call, s + n));
        }
    }
    let bound = |v: &mut Vec<(u64, usize)>| {
        v.sort();
        let mut m = 0;
        for x in v.iter_mut() {
            m = m.max(x.1);
            x.1 = m;
        }
    };
    bound(&mut by_ret);
    bound(&mut by_call);
    let at = |v: &Vec<(u64, usize)>, t: u64| -> usize {
        let k = v.partition_point(|x| x.0 < t);
        if k == 0 { 0 } else { v[k - 1].1 }
    };
    // numbers proven present by completed reads and lengths: (ret, number + 1), prefix max
    let mut proven: Vec<(u64, usize)> = vec![];
    let mut proven_len: Vec<(u64, usize)> = vec![];
    for o in ops {
        match o.ev {
            Ev::Get(i, Some(_)) => proven.push((o.ret, i + 1)),
            Ev::Len(n) => {
                proven.push((o.ret, n));
                proven_len.push((o.ret, n));
            }
            Ev::Last(Some(tag)) => {
                let i = content.iter().position(|x| *x == tag).ok_or_else(|| format!("last returned a record that was never appended ({tag:x})"))?;
                proven.push((o.ret, i + 1));
                proven_len.push((o.ret, i + 1));
            }
            _ => {}
        }
    }
    bound(&mut proven);
    bound(&mut proven_len);
    let (mut overlap, mut none_seen, mut early) = (0u64, 0u64, 0u64);
    for o in ops {
        let acked = at(&by_ret, o.call);
        let begun = at(&by_call, o.ret);
        let seen = at(&proven, o.call);
        match o.ev {
            Ev::Get(i, Some(tag)) => {
                ensure!(i < total, "read of number {i} returned a record although only {total} were appended");
                ensure!(content[i] == tag, "read of number {i} returned record {tag:x}, the append that got this number wrote {:x}", content[i]);
                ensure!(starts[i].0 < o.ret, "record {i} was read before its append began");
                if i >= acked {
                    early += 1;
                }
                if starts[i].1 > o.call {
                    overlap += 1;
                }
            }
            Ev::Get(i, None) => {
                none_seen += 1;
                ensure!(i >= acked, "number {i} read as absent by thread {} although {acked} records were acknowledged before the read began", o.thread);
                ensure!(i >= seen, "number {i} read as absent by thread {} after a completed read or length had shown {seen} records", o.thread);
            }
            Ev::Len(n) => {
                let prev = at(&proven_len, o.call);
                ensure!(n >= acked, "length {n} although {acked} records were acknowledged before the call");
                ensure!(n >= prev, "length went back from {prev} to {n}");
                ensure!(n <= begun, "length {n} although only {begun} records were being appended");
            }
            Ev::Last(x) => {
                let prev = at(&proven_len, o.call);
                let i = x.map(|t| content.iter().position(|y| *y == t).unwrap() + 1).unwrap_or(0);
                ensure!(i >= acked, "last is number {} although {acked} records were acknowledged before the call", i as i64 - 1);
                ensure!(i >= prev, "last went back from length {prev} to {i}");
                ensure!(i <= begun, "last record {} not yet being appended", i);
            }
            Ev::Empty(e) => {
                ensure!(!e || (acked == 0 && at(&proven_len, o.call) == 0), "reported empty after records were acknowledged");
                ensure!(e || begun > 0, "reported non-empty before any append");
            }
            Ev::Append(..) => {}
        }
    }
    c.count("events_checked", ops.len() as u64);
    c.count("reads_overlapping_the_append_of_their_record", overlap);
    c.count("reads_of_records_not_yet_acknowledged", early);
    c.count("reads_beyond_the_end", none_seen);
    Ok(content)
}

pub fn one(c: &mut Case, s: &Setup) -> R {
    let scratch = if s.file { Some(Scratch::new("c04")) } else { None };
    let db = match &scratch {
        Some(d) => Database::file(d.join("db")).map_err(err("open"))?,
        None => Database::memory().map_err(err("open"))?,
    };
    let clock = Clock(AtomicU64::new(1));
    let done = AtomicUsize::new(0);
    let all: Mutex<Vec<Op>> = Mutex::default();
    let fails: Mutex<Vec<String>> = Mutex::default();
    std::thread::scope(|sc| {
        for t in 0..s.writers + s.readers {
            let rng = c.rng.fork();
            let (db, clock, done, all, fails) = (&db, &clock, &done, &all, &fails);
            sc.spawn(move || {
                let r = common::guard("thread", || {
                    if t < s.writers { writer(db, t, s, rng, clock, done) } else { reader(db, t, s, rng, clock, done) }
                });
                match r {
                    Ok(Ok(l)) => all.lock().unwrap().extend(l),
                    Ok(Err(e)) | Err(e) => {
                        fails.lock().unwrap().push(e);
                        done.store(s.writers, SeqCst);
                    }
                }
            });
        }
    });
    if let Some(e) = fails.lock().unwrap().first() {
        return Err(e.clone());
    }
    let ops = all.into_inner().unwrap();
    let content = check(&ops, c)?;
    // final contents
    ensure_eq!(db.len(), content.len(), "final length");
    for (i, tag) in content.iter().enumerate() {
        let g = db.get_by_seqno(i).map_err(err("get"))?.ok_or_else(|| format!("record {i} absent at the end"))?;
        ensure!(parse(&g)?.0 == *tag, "final record {i} differs");
    }
    if let Some(d) = &scratch {
        drop(db);
        let db = Database::file(d.join("db")).map_err(err("reopen"))?;
        ensure_eq!(db.len(), content.len(), "length after reopening");
        for (i, r) in db.iter_from_seqno(0).ok_or("no iterator")?.enumerate() {
            let g = r.map_err(err("iterator"))?;
            ensure!(parse(&g)?.0 == content[i], "record {i} differs after reopening");
        }
    }
    let h = content.iter().fold(0, |h, t| mix(h ^ (t >> 48)));
    c.distinct(h);
    c.count("appends", s.writers as u64 * s.batches as u64);
    if c.index < 2 {
        let order: String = content.iter().take(60).map(|t| char::from(b'a' + (t >> 48) as u8)).collect();
        c.sample(format!("{} writers, {} readers, {} events; writer of each number: {order}...", s.writers, s.readers, ops.len()));
    }
    Ok(())
}

pub fn setup(c: &mut Case, file: bool, batches: (usize, usize)) -> Setup {
    let r = &mut c.rng;
    Setup {
        writers: r.range(1, 6),
        readers: r.range(1, 5),
        batches: r.range(batches.0, batches.1),
        file,
        big: r.chance(1, 2),
        churn: r.chance(1, 2),
    }
}

pub fn run(r: &Runner) {
    let go = |name: &str, n: usize, file: bool, cap: f64| {
        r.phase(name, n, 3, cap, |c| {
            let s = setup(c, file, (5, 40));
            one(c, &s)
        })
    };
    go("file", r.n(150, 3000), true, r.n(12, 120) as f64);
    go("memory", r.n(150, 3000), false, r.n(8, 90) as f64);
    hooks::DELAY.store(120, SeqCst);
    go("file_delays", r.n(120, 2500), true, r.n(15, 200) as f64);
    go("memory_delays", r.n(80, 2000), false, r.n(10, 120) as f64);
    hooks::DELAY.store(0, SeqCst);
    // many short histories with everybody at one place
    r.phase("contended", r.n(400, 10000), 2, r.n(10, 120) as f64, |c| {
        let s = Setup { writers: 4, readers: 4, batches: 6, file: c.index % 2 == 0, big: c.index % 4 == 0, churn: true };
        one(c, &s)
    });
    r.assume("delays are injected inside msync, mmap, ftruncate and mprotect calls only; other interleavings depend on the scheduler");
}
