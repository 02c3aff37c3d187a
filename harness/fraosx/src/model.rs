//! Reference model of a log: record i is a pseudo-random byte string determined by
//! (tag of the append, i-th record, length), so any misplaced byte shows.

use common::{ensure, ensure_eq, mix, Case, Rng};
use fraos::Database;

pub fn bytes(tag: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut s = mix(tag);
    while v.len() < len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        // never zero, so that lost bytes differ from zero fill
        v.extend_from_slice(&((s ^ (s >> 29)) | 0x0101_0101_0101_0101).to_le_bytes());
    }
    v.truncate(len);
    v
}

#[derive(Clone, Default)]
pub struct Model {
    pub recs: Vec<(u64, usize)>,
    pub bytes: usize,
}

pub fn err<E: std::fmt::Display>(what: &str) -> impl Fn(E) -> String + '_ {
    move |e| format!("{what}: unexpected error: {e}")
}

impl Model {
    pub fn len(&self) -> usize {
        self.recs.len()
    }
    pub fn rec(&self, i: usize) -> Vec<u8> {
        bytes(self.recs[i].0, self.recs[i].1)
    }
    pub fn push(&mut self, tag: u64, len: usize) {
        self.recs.push((tag, len));
        self.bytes += len;
    }
    pub fn prefix(&self, n: usize) -> Model {
        let recs = self.recs[..n].to_vec();
        let bytes = recs.iter().map(|r| r.1).sum();
        Model { recs, bytes }
    }

    /// appends a batch with fresh contents and checks the reported number
    pub fn append(&mut self, db: &Database, rng: &mut Rng, lens: &[usize]) -> Result<(), String> {
        let batch: Vec<(u64, usize)> = lens.iter().map(|l| (rng.next(), *l)).collect();
        let data: Vec<Vec<u8>> = batch.iter().map(|(t, l)| bytes(*t, *l)).collect();
        let refs: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
        let expected = self.len();
        let got = match (lens.len(), rng.below(3)) {
            (1, 0) => Some(db.put_seqno(refs[0]).map_err(err("put_seqno"))?),
            (1, 1) => {
                db.put(refs[0]).map_err(err("put"))?;
                Some(expected)
            }
            _ => db.append_get_seqno(&refs).map_err(err("append"))?,
        };
        if lens.is_empty() {
            ensure_eq!(got, None, "number reported for an empty batch");
        } else {
            ensure_eq!(got, Some(expected), "number reported for a batch of {}", lens.len());
        }
        for (t, l) in batch {
            self.push(t, l);
        }
        Ok(())
    }

    pub fn check_get(&self, db: &Database, i: usize) -> Result<(), String> {
        let got = guarded(|| db.get_by_seqno(i)).map_err(|e| format!("get {i} of {}: {e}", self.len()))?;
        if i >= self.len() {
            ensure!(got.is_none(), "get {i} at or beyond length {} returned {} bytes", self.len(), got.unwrap().len());
        } else {
            same(got, &self.rec(i), i)?;
        }
        Ok(())
    }

    pub fn check_head(&self, db: &Database) -> Result<(), String> {
        ensure_eq!(db.len(), self.len(), "len");
        ensure_eq!(db.is_empty(), self.len() == 0, "is_empty");
        let last = db.last().map_err(err("last"))?;
        match self.len() {
            0 => ensure!(last.is_none(), "last of an empty log is not absent"),
            n => same(last, &self.rec(n - 1), n - 1)?,
        }
        Ok(())
    }

    pub fn check_iter(&self, db: &Database, from: usize) -> Result<(), String> {
        let it = guarded(|| Ok::<_, fraos::FraosError>(db.iter_from_seqno(from)))?;
        let Some(mut it) = it else {
            return if from >= self.len() { Ok(()) } else { Err(format!("iter_from_seqno({from}) of {} is absent", self.len())) };
        };
        let mut i = from;
        loop {
            let x = common::guard("iterator", || it.next())?;
            match x {
                None => break,
                Some(r) => {
                    let r = r.map_err(err("iterator"))?;
                    ensure!(i < self.len(), "iteration from {from} yields an item beyond the length {}", self.len());
                    same(Some(r), &self.rec(i), i)?;
                    i += 1;
                }
            }
        }
        ensure!(i >= self.len() || from >= self.len(), "iteration from {from} stopped at {i} of {}", self.len());
        // exhausted iterators stay exhausted while nothing is appended
        ensure!(it.next().is_none(), "exhausted iterator yielded again");
        Ok(())
    }

    /// numbers at or beyond the length read as absent
    pub fn check_far(&self, db: &Database, rng: &mut Rng) -> Result<(), String> {
        let n = self.len();
        let mut far = vec![n, n + 1, n + 2, n + 17, n + 32768, n * 2 + 3];
        for sh in [1u32, 2, 3, 4, 5, 8] {
            // numbers whose byte position wraps around to an existing one
            let base = 1usize << (64 - sh);
            far.push(base);
            far.push(base.wrapping_add(rng.below(n + 1)));
            far.push(base - 1);
        }
        far.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 16, usize::MAX / 16 + 1, (1usize << 60) + n / 2]);
        for _ in 0..6 {
            far.push(rng.skewed(64) as usize);
        }
        for f in far {
            if f >= n {
                self.check_get(db, f)?;
                self.check_iter(db, f)?;
            }
        }
        Ok(())
    }

    pub fn check_all(&self, db: &Database) -> Result<(), String> {
        self.check_head(db)?;
        for i in 0..self.len() {
            self.check_get(db, i)?;
        }
        self.check_iter(db, 0)
    }

    /// like check_all, with a sample of positions when the log is long
    pub fn check_some(&self, db: &Database, rng: &mut Rng, k: usize) -> Result<(), String> {
        self.check_head(db)?;
        if self.len() <= k {
            for i in 0..self.len() {
                self.check_get(db, i)?;
            }
        } else {
            for _ in 0..k {
                self.check_get(db, rng.below(self.len()))?;
            }
            self.check_get(db, 0)?;
            self.check_get(db, self.len() - 1)?;
        }
        self.check_get(db, self.len())
    }
}

fn guarded<T>(f: impl FnOnce() -> Result<T, fraos::FraosError>) -> Result<T, String> {
    common::guard("panic in a read", f)?.map_err(|e| e.to_string())
}

pub fn same(got: Option<Vec<u8>>, want: &[u8], i: usize) -> Result<(), String> {
    match got {
        None => Err(format!("record {i} is absent, expected {} bytes", want.len())),
        Some(g) if g == want => Ok(()),
        Some(g) if g.len() != want.len() => Err(format!("record {i} has {} bytes, expected {}", g.len(), want.len())),
        Some(g) => {
            let p = g.iter().zip(want).position(|(a, b)| a != b).unwrap();
            Err(format!("record {i} differs at byte {p} of {}: got {:02x}, expected {:02x}", want.len(), g[p], want[p]))
        }
    }
}

pub const MAP: usize = 524288;

/// Record lengths of one batch, biased to the places where storage changes shape.
pub fn batch(c: &mut Case, m: &Model, big: bool) -> Vec<usize> {
    let rng = &mut c.rng;
    let n = match rng.below(10) {
        0..=4 => 1,
        5..=7 => rng.range(2, 6),
        8 => rng.range(7, 60),
        _ => rng.range(60, 400),
    };
    (0..n)
        .map(|_| match rng.below(20) {
            0..=9 => rng.range(1, 40),
            10..=13 => rng.range(1, 3000),
            14 => *rng.pick(&[4095usize, 4096, 4097, 8192]),
            15 => rng.range(3000, 70000) / if n > 20 { 50 } else { 1 },
            16 | 17 if big && n <= 3 => {
                // fill the current 512 KiB mapping to within a byte or exactly
                let used = m.bytes % MAP;
                (MAP - used + rng.below(4)).saturating_sub(2).max(1)
            }
            18 if big && n <= 3 => *rng.pick(&[MAP - 1, MAP, MAP + 1, 2 * MAP, MAP / 2]),
            _ => rng.range(1, 300),
        })
        .collect()
}

pub fn lens_text(l: &[usize]) -> String {
    if l.len() <= 12 {
        format!("{l:?}")
    } else {
        format!("{} records, first {:?}", l.len(), &l[..8])
    }
}
