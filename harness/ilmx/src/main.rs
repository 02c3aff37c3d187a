//! monitors of the indexed log map
use common::{ensure, ensure_eq, mix, Case, Rng, Runner, Scratch, R};
use indexed_log_map::config::IndexedLogMapConfig;
use indexed_log_map::storage::{get_next, IndexedLogMap};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::path::{Path, PathBuf};
use std::sync::{Barrier, Mutex};

fn err<E: Debug>(what: &str) -> impl Fn(E) -> String + '_ {
    move |e| format!("{what}: unexpected error: {e:?}")
}

fn config(path: Option<&Path>, index: bool, readonly: bool) -> IndexedLogMapConfig {
    IndexedLogMapConfig { storage_path: path.map(PathBuf::from), use_key_indexing: index, readonly }
}

/// The key index takes a file lock that a closing instance releases in the background.
fn open<K: Serialize + DeserializeOwned, V: Serialize + DeserializeOwned>(c: &IndexedLogMapConfig) -> Result<IndexedLogMap<K, V>, String> {
    let t = std::time::Instant::now();
    loop {
        match common::guard("open", || IndexedLogMap::new(c.clone()))? {
            Ok(m) => return Ok(m),
            Err(e) => {
                let text = format!("{e:?}");
                if !text.contains("lock") || t.elapsed().as_secs() > 20 {
                    return Err(format!("open {c:?}: {text}"));
                }
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
        }
    }
}

trait Gen: Serialize + DeserializeOwned + Clone + PartialEq + Debug {
    fn gen(r: &mut Rng, small: bool) -> Self;
}
impl Gen for u64 {
    fn gen(r: &mut Rng, small: bool) -> Self {
        if small { r.below(12) as u64 } else { r.skewed(64) }
    }
}
impl Gen for i64 {
    fn gen(r: &mut Rng, small: bool) -> Self {
        if small { r.below(12) as i64 - 6 } else { r.next() as i64 }
    }
}
impl Gen for String {
    fn gen(r: &mut Rng, small: bool) -> Self {
        let n = if small { r.below(3) } else { r.below(400) };
        (0..n).map(|_| *r.pick(&['a', 'b', 'ß', '\0', '"'])).collect()
    }
}
impl Gen for Vec<u8> {
    fn gen(r: &mut Rng, small: bool) -> Self {
        let n = if small { r.below(3) } else if r.chance(1, 60) { r.range(70_000, 400_000) } else { r.below(900) };
        (0..n).map(|_| if small { r.below(2) as u8 } else { r.next() as u8 }).collect()
    }
}
impl Gen for () {
    fn gen(_: &mut Rng, _: bool) -> Self {}
}
impl Gen for bool {
    fn gen(r: &mut Rng, _: bool) -> Self {
        r.chance(1, 2)
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng, small: bool) -> Self {
        if r.chance(1, 5) { None } else { Some(T::gen(r, small)) }
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen(r: &mut Rng, small: bool) -> Self {
        (A::gen(r, small), B::gen(r, small))
    }
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
enum Rich {
    A,
    B(u32, String),
    C { x: i64, y: Vec<u16> },
}
impl Gen for Rich {
    fn gen(r: &mut Rng, small: bool) -> Self {
        match r.below(3) {
            0 => Rich::A,
            1 => Rich::B(r.below(if small { 3 } else { 1 << 20 }) as u32, String::gen(r, small)),
            _ => Rich::C { x: i64::gen(r, small), y: (0..r.below(4)).map(|_| r.below(if small { 2 } else { 60000 }) as u16).collect() },
        }
    }
}

fn list<V>(it: impl Iterator<Item = Result<V, impl Debug>>) -> Result<Vec<V>, String> {
    it.map(|x| x.map_err(err("iteration"))).collect()
}

struct M<K, V> {
    all: Vec<(K, V)>,
}

impl<K: Gen, V: Gen> M<K, V> {
    fn last_of(&self, k: &K) -> Option<usize> {
        self.all.iter().rposition(|x| &x.0 == k)
    }
    fn values(&self, from: usize) -> Vec<V> {
        self.all[from..].iter().map(|x| x.1.clone()).collect()
    }
    fn check_log(&self, m: &IndexedLogMap<K, V>) -> R {
        let it = m.iter();
        let got = match it {
            None => vec![],
            Some(i) => list(i)?,
        };
        ensure!(got == self.values(0), "iteration yields {} values, expected {}: {}", got.len(), self.all.len(), diff(&got, &self.values(0)));
        ensure_eq!(m.last().map_err(err("last"))?, self.all.last().map(|x| x.1.clone()), "last");
        ensure_eq!(get_next(m, &None).map_err(err("get_next"))?, self.all.first().map(|x| x.1.clone()), "get_next without a key");
        Ok(())
    }
    fn check_key(&self, m: &IndexedLogMap<K, V>, k: &K) -> R {
        let p = self.last_of(k);
        let want = p.map(|p| self.all[p].1.clone());
        ensure_eq!(m.get(k).map_err(err("get"))?, want, "get {k:?}");
        ensure_eq!(m.contains(k).map_err(err("contains"))?, p.is_some(), "contains {k:?}");
        let it = m.iter_from(k).map_err(err("iter_from"))?;
        match (it, p) {
            (None, None) => {}
            (Some(i), Some(p)) => {
                let got = list(i)?;
                ensure!(got == self.values(p), "iter_from {k:?}: {} values, expected {}", got.len(), self.all.len() - p);
            }
            (a, b) => return Err(format!("iter_from {k:?} is {}, the key was {}", if a.is_some() { "present" } else { "absent" }, if b.is_some() { "appended" } else { "not appended" })),
        }
        let next = p.and_then(|p| self.all.get(p + 1)).map(|x| x.1.clone());
        ensure_eq!(get_next(m, &Some(k.clone())).map_err(err("get_next"))?, next, "get_next {k:?}");
        Ok(())
    }
    fn check_keys(&self, m: &IndexedLogMap<K, V>, rng: &mut Rng, n: usize) -> R {
        for _ in 0..n {
            let k = if self.all.is_empty() || rng.chance(1, 4) { K::gen(rng, true) } else { rng.pick(&self.all).0.clone() };
            self.check_key(m, &k)?;
        }
        Ok(())
    }
    fn no_index(&self, m: &IndexedLogMap<K, V>, rng: &mut Rng) -> R {
        let k = self.all.first().map(|x| x.0.clone()).unwrap_or_else(|| K::gen(rng, true));
        ensure!(m.get(&k).is_err(), "get works without a key index");
        ensure!(m.contains(&k).is_err(), "contains works without a key index");
        ensure!(m.iter_from(&k).is_err(), "iter_from works without a key index");
        ensure!(m.is_empty().is_err(), "is_empty works without a key index");
        ensure!(get_next(m, &Some(k.clone())).is_err(), "get_next works without a key index");
        let v = V::gen(rng, true);
        ensure!(m.append(k, v).is_err(), "append works without a key index");
        self.check_log(m)
    }
}

fn diff<V: Debug + PartialEq>(a: &[V], b: &[V]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("differs at {i}"),
        None => "one is a prefix of the other".into(),
    }
}

fn c10<K: Gen, V: Gen>(c: &mut Case) -> R {
    let s = Scratch::new("c10");
    let mut rng = c.rng.fork();
    let path = s.join("m");
    let p = if rng.chance(1, 2) { Some(path.as_path()) } else { None };
    let m: IndexedLogMap<K, V> = open(&config(p, true, false))?;
    let mut model = M { all: vec![] };
    ensure!(m.is_empty().map_err(err("is_empty"))?, "a new map is not empty");
    model.check_log(&m)?;
    model.check_keys(&m, &mut rng, 3)?;
    for i in 0..rng.range(1, 70) {
        let (k, v) = (K::gen(&mut rng, true), V::gen(&mut rng, false));
        c.t(format!("{k:?}").chars().take(40).collect::<String>());
        m.append(k.clone(), v.clone()).map_err(err("append"))?;
        model.all.push((k.clone(), v));
        model.check_key(&m, &k)?;
        if rng.chance(1, 6) {
            model.check_keys(&m, &mut rng, 2)?;
            model.check_log(&m)?;
        }
        ensure!(!m.is_empty().map_err(err("is_empty"))?, "empty after {} appends", i + 1);
        c.count("appends", 1);
    }
    model.check_log(&m)?;
    model.check_keys(&m, &mut rng, 15)?;
    // an iterator taken earlier goes on with later values
    let from = rng.below(model.all.len());
    let k = model.all[from].0.clone();
    let from = model.last_of(&k).unwrap();
    let it = m.iter_from(&k).map_err(err("iter_from"))?.ok_or("iter_from an appended key is absent")?;
    let (k2, v2) = (K::gen(&mut rng, false), V::gen(&mut rng, false));
    m.append(k2.clone(), v2.clone()).map_err(err("append"))?;
    model.all.push((k2, v2));
    let got = list(it)?;
    ensure!(got == model.values(from), "iterator taken before an append: {}", diff(&got, &model.values(from)));
    drop(m);
    // the same without a key index, in memory (nothing can be appended)
    let m: IndexedLogMap<K, V> = open(&config(None, false, false))?;
    M { all: vec![] }.no_index(&m, &mut rng)?;
    if p.is_some() {
        let m: IndexedLogMap<K, V> = open(&config(p, false, rng.chance(1, 2)))?;
        model.no_index(&m, &mut rng)?;
    }
    c.distinct(c.trace_hash());
    c.count("lookups_checked", 15);
    if c.index < 2 {
        c.sample(format!("keys appended: {}", c.trace_text().replace('\n', ", ")).chars().take(240).collect::<String>());
    }
    Ok(())
}

fn c12<K: Gen, V: Gen>(c: &mut Case) -> R {
    let s = Scratch::new("c12");
    let mut rng = c.rng.fork();
    let path = s.join("m");
    let mut model: M<K, V> = M { all: vec![] };
    for _ in 0..rng.range(2, 6) {
        {
            let m: IndexedLogMap<K, V> = open(&config(Some(&path), true, false))?;
            model.check_log(&m)?;
            model.check_keys(&m, &mut rng, 8)?;
            ensure_eq!(m.is_empty().map_err(err("is_empty"))?, model.all.is_empty(), "is_empty after opening");
            let n = if rng.chance(1, 5) { 0 } else { rng.range(1, 40) };
            for _ in 0..n {
                let (k, v) = (K::gen(&mut rng, true), V::gen(&mut rng, false));
                m.append(k.clone(), v.clone()).map_err(err("append"))?;
                model.all.push((k.clone(), v));
                if rng.chance(1, 5) {
                    model.check_key(&m, &k)?;
                }
            }
            c.t(format!("open, append {n}, close"));
            model.check_keys(&m, &mut rng, 4)?;
            c.count("appends", n as u64);
        }
        c.count("reopenings", 1);
        match rng.below(4) {
            0 => {
                c.t("open without the key index");
                let m: IndexedLogMap<K, V> = open(&config(Some(&path), false, false))?;
                model.no_index(&m, &mut rng)?;
                c.count("opened_without_index", 1);
            }
            1 => {
                c.t("open read-only");
                let index = rng.chance(1, 2);
                let m: IndexedLogMap<K, V> = open(&config(Some(&path), index, true))?;
                model.check_log(&m)?;
                if index {
                    model.check_keys(&m, &mut rng, 4)?;
                }
                c.count("opened_readonly", 1);
            }
            _ => {}
        }
    }
    let m: IndexedLogMap<K, V> = open(&config(Some(&path), true, false))?;
    model.check_log(&m)?;
    model.check_keys(&m, &mut rng, 30)?;
    c.distinct(mix(c.trace_hash() ^ c.seed));
    if c.index < 2 {
        c.sample(c.trace_text().replace('\n', "; "));
    }
    Ok(())
}

// ------------------------------------------------------------------ kills
type KV = (u64, u64, Vec<u8>); // key, number, filling

fn child(path: &str, seed: u64, from: u64) -> ! {
    use std::io::Write;
    let m: IndexedLogMap<u64, KV> = open(&config(Some(Path::new(path)), true, false)).expect("open");
    let mut out = std::io::stdout().lock();
    let mut i = from;
    loop {
        let (k, v) = entry(seed, i);
        m.append(k, v).expect("append");
        i += 1;
        if out.write_all(&i.to_le_bytes()).is_err() || out.flush().is_err() {
            std::process::exit(0);
        }
    }
}

fn entry(seed: u64, i: u64) -> (u64, KV) {
    let h = mix(seed ^ mix(i));
    let k = h % 9;
    let n = if h % 31 == 0 { 60_000 } else { (h >> 20) % 300 };
    (k, (k, i, vec![h as u8; n as usize]))
}

fn kills(c: &mut Case) -> R {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let s = Scratch::new("c12k");
    let path = s.join("m");
    let seed = c.rng.next();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut have = 0u64;
    for round in 0..c.rng.range(2, 4) {
        let mut ch = Command::new(&exe)
            .args(["child-append", path.to_str().unwrap(), &seed.to_string(), &have.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut pipe = ch.stdout.take().unwrap();
        let wait = if c.rng.chance(1, 6) { c.rng.range(500, 900) } else { c.rng.range(15, 120) } as u64;
        let pid = ch.id() as i32;
        let killer = std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(wait));
            unsafe { libc::kill(pid, libc::SIGKILL) };
        });
        let mut got = vec![];
        let _ = pipe.read_to_end(&mut got);
        killer.join().unwrap();
        let st = ch.wait().map_err(|e| e.to_string())?;
        {
            use std::os::unix::process::ExitStatusExt;
            ensure!(st.signal() == Some(libc::SIGKILL), "the appending process ended by itself: {st}");
        }
        let acked = got.chunks_exact(8).last().map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(have);
        if !path.exists() {
            continue;
        }
        let index = c.rng.chance(3, 4);
        let m: IndexedLogMap<u64, KV> = open(&config(Some(&path), index, false))?;
        let vals = match m.iter() {
            None => vec![],
            Some(i) => list(i)?,
        };
        let n = vals.len() as u64;
        ensure!(n >= acked && n <= acked + 1, "{acked} values acknowledged before the kill, {n} iterated after reopening");
        for (i, v) in vals.iter().enumerate() {
            ensure!(*v == entry(seed, i as u64).1, "value {i} differs after a kill");
        }
        if index {
            for k in 0..10u64 {
                if let Some(v) = m.get(&k).map_err(err("get"))? {
                    ensure!(v.0 == k, "key {k} resolves to a value of key {} after a kill", v.0);
                    ensure!(v.1 < n, "key {k} resolves to a value that is not in the log");
                    c.count("keys_resolved_after_kill", 1);
                }
                if let Some(mut i) = m.iter_from(&k).map_err(err("iter_from"))? {
                    if let Some(v) = i.next() {
                        ensure!(v.map_err(err("value"))?.0 == k, "iteration from key {k} starts at a value of another key");
                    }
                }
            }
        }
        drop(m);
        // the log goes on from the number of values in it
        c.t(format!("round {round}: killed after {wait} ms, {acked} acknowledged, {n} iterated"));
        have = n;
        c.count("real_kills", 1);
        c.count("values_iterated_after_kills", n);
    }
    c.distinct(c.trace_hash());
    Ok(())
}

// ------------------------------------------------------------------ concurrency
/// value: (key, thread, number within the thread)
type CV = (u32, u16, u32, Vec<u8>);

fn c11(c: &mut Case, rounds: usize, keys: usize, path: bool) -> R {
    let s = Scratch::new("c11");
    let p = s.join("m");
    let m: IndexedLogMap<u32, CV> = open(&config(if path { Some(&p) } else { None }, true, false))?;
    let threads = c.rng.range(2, 6);
    let readers = c.rng.range(0, 2);
    let per = c.rng.range(1, 6);
    let barrier = Barrier::new(threads + readers);
    let acked: Mutex<Vec<(u16, u32)>> = Mutex::default();
    let fails: Mutex<Vec<String>> = Mutex::default();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let reads = std::sync::atomic::AtomicU64::new(0);
    use std::sync::atomic::Ordering::SeqCst;
    std::thread::scope(|sc| {
        for t in 0..threads + readers {
            let mut rng = c.rng.fork();
            let (m, barrier, acked, fails, stop, reads) = (&m, &barrier, &acked, &fails, &stop, &reads);
            sc.spawn(move || {
                let mut mine = vec![];
                let mut failed = false;
                let mut n = 0u32;
                for round in 0..rounds {
                    barrier.wait();
                    if failed || stop.load(SeqCst) {
                        continue;
                    }
                    let r = common::guard("thread", || -> R {
                        for _ in 0..per {
                            let key = (round * keys + rng.below(keys)) as u32;
                            if t >= threads {
                                // a reader
                                if let Some(v) = m.get(&key).map_err(err("get"))? {
                                    ensure!(v.0 == key, "key {key} resolved to a value of key {}", v.0);
                                }
                                if let Some(mut i) = m.iter_from(&key).map_err(err("iter_from"))? {
                                    let v = i.next().ok_or("iteration from a present key is empty")?.map_err(err("iteration"))?;
                                    ensure!(v.0 == key, "iteration from key {key} started at a value of key {}", v.0);
                                }
                                reads.fetch_add(2, SeqCst);
                                continue;
                            }
                            let fill = if rng.chance(1, 50) { 200_000 } else { rng.below(60) };
                            let v: CV = (key, t as u16, n, vec![t as u8; fill]);
                            m.append(key, v.clone()).map_err(err("append"))?;
                            mine.push((t as u16, n));
                            n += 1;
                            let it = m.iter_from(&key).map_err(err("iter_from"))?.ok_or_else(|| format!("key {key} absent right after its append"))?;
                            // own value or a later one: no own append of this key may follow it
                            let mut first = true;
                            for x in it {
                                let x = x.map_err(err("iteration"))?;
                                if first {
                                    ensure!(x.0 == key, "key {key} resolved to a value of key {}", x.0);
                                    if x.1 == t as u16 && x.2 == n - 1 {
                                        break;
                                    }
                                    first = false;
                                    continue;
                                }
                                ensure!(!(x.1 == t as u16 && x.2 == n - 1), "thread {t} appended key {key}, then read an earlier append of it");
                            }
                            reads.fetch_add(1, SeqCst);
                        }
                        Ok(())
                    });
                    if let Ok(Err(e)) | Err(e) = r {
                        fails.lock().unwrap().push(e);
                        failed = true;
                        stop.store(true, SeqCst);
                    }
                }
                acked.lock().unwrap().extend(mine);
            });
        }
    });
    if let Some(e) = fails.lock().unwrap().first() {
        return Err(e.clone());
    }
    let mut acked = acked.into_inner().unwrap();
    let vals = match m.iter() {
        None => vec![],
        Some(i) => list(i)?,
    };
    let check = |m: &IndexedLogMap<u32, CV>| -> R {
        let mut last: BTreeMap<u32, (u16, u32)> = BTreeMap::new();
        for v in &vals {
            last.insert(v.0, (v.1, v.2));
        }
        for (k, want) in &last {
            let v = m.get(k).map_err(err("get"))?.ok_or_else(|| format!("key {k} is absent"))?;
            ensure!((v.1, v.2) == *want && v.0 == *k, "key {k} resolves to append {} of thread {}, the last one in the log is {} of thread {}", v.2, v.1, want.1, want.0);
        }
        Ok(())
    };
    let mut logged: Vec<(u16, u32)> = vals.iter().map(|v| (v.1, v.2)).collect();
    let order = logged.iter().fold(0, |h, x| mix(h ^ x.0 as u64));
    // each thread's values in its own order
    for t in 0..threads as u16 {
        let mine: Vec<u32> = logged.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
        ensure!(mine.windows(2).all(|w| w[0] < w[1]), "values of thread {t} are out of order in the log");
    }
    logged.sort();
    acked.sort();
    ensure!(logged == acked, "the log has {} values, {} were acknowledged: {}", logged.len(), acked.len(), diff(&logged, &acked));
    check(&m)?;
    c.count("concurrent_appends", acked.len() as u64);
    c.count("reads_after_or_during_appends", reads.load(SeqCst));
    c.count("contended_rounds", rounds as u64);
    if path {
        drop(m);
        let m: IndexedLogMap<u32, CV> = open(&config(Some(&p), true, false))?;
        check(&m).map_err(|e| format!("after reopening: {e}"))?;
    }
    c.distinct(order);
    if c.index < 2 {
        let o: String = vals.iter().take(60).map(|v| char::from(b'a' + v.1 as u8)).collect();
        c.sample(format!("{threads} appenders, {readers} readers, {} values; thread of each: {o}...", vals.len()));
    }
    Ok(())
}

fn kinds(c: &mut Case, which: fn(usize) -> fn(&mut Case) -> R) -> R {
    which(c.index)(c)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("child-append") {
        child(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
    }
    let id = a.get(1).cloned().unwrap_or_default();
    let rule = match id.as_str() {
        "C10" => "a case is a history of up to 70 appends with keys from a small range (so that they repeat) for one of eight key/value type pairs, every lookup compared with the list of appends; distinct = different key sequences",
        "C11" => "a case is many barrier-started rounds in which 2-6 threads append to the same few keys and read them back while others read; the log and the key index are compared afterwards; distinct = different orders of the threads' values in the log",
        "C12" => "a case is a series of open/append/close cycles under changing settings, or of processes killed (SIGKILL) while appending; distinct = different histories",
        _ => "",
    };
    let r = Runner::new(&id, rule);
    match id.as_str() {
        "C10" => {
            r.phase("history", r.n(2500, 40000), 8, r.n(25, 400) as f64, |c| {
                kinds(c, |i| match i % 8 {
                    0 => c10::<u64, u64>,
                    1 => c10::<String, Vec<u8>>,
                    2 => c10::<i64, Option<String>>,
                    3 => c10::<Rich, (u64, Rich)>,
                    4 => c10::<Vec<u8>, ()>,
                    5 => c10::<(bool, i64), String>,
                    6 => c10::<Option<u64>, Vec<u8>>,
                    _ => c10::<bool, Rich>,
                })
            });
            r.finish(&["appends", "lookups_checked"])
        }
        "C11" => {
            r.phase("one_key", r.n(24, 300), 2, r.n(12, 120) as f64, |c| c11(c, 120, 1, false));
            r.phase("few_keys", r.n(16, 200), 2, r.n(8, 90) as f64, |c| c11(c, 80, 3, false));
            r.phase("path", r.n(16, 200), 2, r.n(10, 90) as f64, |c| c11(c, 60, 2, true));
            r.finish(&["concurrent_appends", "reads_after_or_during_appends", "contended_rounds"])
        }
        "C12" => {
            r.phase("cycles", r.n(160, 3000), 8, r.n(20, 240) as f64, |c| {
                kinds(c, |i| match i % 6 {
                    0 => c12::<u64, u64>,
                    1 => c12::<String, Vec<u8>>,
                    2 => c12::<Rich, (u64, Rich)>,
                    3 => c12::<Vec<u8>, ()>,
                    4 => c12::<(bool, i64), String>,
                    _ => c12::<bool, Rich>,
                })
            });
            r.phase("kills", r.n(24, 400), 6, r.n(20, 150) as f64, kills);
            r.finish(&["appends", "reopenings", "opened_without_index", "opened_readonly", "real_kills", "keys_resolved_after_kill"])
        }
        _ => std::process::exit(2),
    }
}
