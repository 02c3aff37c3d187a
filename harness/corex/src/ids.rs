//! C43: numeric and text identifiers
use crate::dec::{self, Dec};
use crate::value::val;
use common::{ensure, ensure_eq, guard, Case, Rng, R};
use dcspark_core::tx::{Transaction, TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, BlockId, BlockNumber, OutputIndex, PolicyId, SlotNumber, Timestamp, TokenId};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn number(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => u64::MAX - r.below(3) as u64,
        1 => r.below(3) as u64,
        2 => (1u64 << 32).wrapping_add(r.below(5) as u64).wrapping_sub(2),
        3 => (1u64 << 63).wrapping_add(r.below(5) as u64).wrapping_sub(2),
        4 => (1u64 << 53).wrapping_add(r.below(5) as u64).wrapping_sub(2),
        _ => r.skewed(64),
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Wrap<T> {
    a: u32,
    v: T,
}

fn basics<T>(name: &str, n: u64, m: u64, strings: bool, c: &mut Case) -> R
where
    T: From<u64> + Into<u64> + Copy + Ord + Eq + Hash + Display + Debug + FromStr + Serialize + DeserializeOwned + Default,
{
    let (x, y) = (T::from(n), T::from(m));
    ensure_eq!(Into::<u64>::into(x), n, "{name}: wrapped number");
    ensure_eq!(Into::<u64>::into(T::default()), 0, "{name}: default");
    ensure!(x.cmp(&y) == n.cmp(&m) && (x == y) == (n == m) && (x < y) == (n < m) && x.partial_cmp(&y) == n.partial_cmp(&m), "{name}: comparison of {n} and {m}");
    ensure!(n != m || hash(&x) == hash(&y), "{name}: hash of {n}");
    ensure_eq!(x.to_string(), n.to_string(), "{name}: printed");
    ensure_eq!(format!("{x:>25}|{x:<25}|{x:025}|{x:+}"), format!("{n:>25}|{n:<25}|{n:025}|{n:+}"), "{name}: printed with width");
    match n.to_string().parse::<T>() {
        Ok(z) => ensure!(z == x, "{name}: {n} parses as {z}"),
        Err(_) => return Err(format!("{name}: {n} is refused")),
    }
    let big = n as u128 + (1u128 << 64);
    for bad in ["".to_string(), " 1".into(), "1 ".into(), "-1".into(), "1.0".into(), "1e3".into(), "0x1".into(), "abc".into(), big.to_string(), format!("{n}_"), "18446744073709551616".into()] {
        ensure!(guard("parse", || bad.parse::<T>())?.is_err(), "{name}: {bad:?} is accepted");
        c.count("texts_refused", 1);
    }
    // JSON
    let j = deps::serde_json::to_string(&x).map_err(|e| e.to_string())?;
    ensure_eq!(j, n.to_string(), "{name}: JSON");
    let back: T = deps::serde_json::from_str(&j).map_err(|e| format!("{name}: {j}: {e}"))?;
    ensure!(back == x, "{name}: JSON {j} reads back as {back}");
    let back: T = deps::serde_json::from_slice(j.as_bytes()).map_err(|e| format!("{name}: {j}: {e}"))?;
    ensure!(back == x, "{name}: JSON bytes {j} read back as {back}");
    let back: T = deps::serde_json::from_reader(j.as_bytes()).map_err(|e| format!("{name}: {j}: {e}"))?;
    ensure!(back == x, "{name}: JSON stream {j} reads back as {back}");
    let back: T = deps::serde_json::from_value(deps::serde_json::to_value(x).map_err(|e| e.to_string())?).map_err(|e| format!("{name}: {j}: {e}"))?;
    ensure!(back == x, "{name}: JSON value {j} reads back as {back}");
    let w = Wrap { a: 7, v: x };
    let back: Wrap<T> = deps::serde_json::from_str(&deps::serde_json::to_string(&w).map_err(|e| e.to_string())?).map_err(|e| format!("{name}: {e}"))?;
    ensure!(back == w, "{name}: {n} inside a structure reads back as {back:?}");
    if strings {
        let s = format!("\"{n}\"");
        let back: T = deps::serde_json::from_str(&s).map_err(|e| format!("{name}: JSON string {s}: {e}"))?;
        ensure!(back == x, "{name}: JSON string {s} reads as {back}");
        let back: T = deps::serde_json::from_reader(s.as_bytes()).map_err(|e| format!("{name}: JSON string {s}: {e}"))?;
        ensure!(back == x, "{name}: JSON string {s} reads as {back} from a stream");
        let back: T = deps::serde_json::from_value(deps::serde_json::Value::String(n.to_string())).map_err(|e| format!("{name}: JSON string {s}: {e}"))?;
        ensure!(back == x, "{name}: JSON string {s} reads as {back} from a value");
        let back: Wrap<T> = deps::serde_json::from_str(&format!("{{\"a\":7,\"v\":\"{n}\"}}")).map_err(|e| format!("{name}: {e}"))?;
        ensure!(back == w, "{name}: string {n} inside a structure reads as {back:?}");
    }
    for bad in ["-1", "1.5", "null", "true", "[1]", "{}", "\"\"", "\"abc\"", "\"-1\"", "\"1.5\"", "\"18446744073709551616\"", "18446744073709551616", "\" 1\""] {
        ensure!(guard("from JSON", || deps::serde_json::from_str::<T>(bad))?.is_err(), "{name}: JSON {bad} is accepted");
        c.count("texts_refused", 1);
    }
    c.count("numbers", 1);
    Ok(())
}

macro_rules! stepping {
    ($c:expr, $t:ty, $n:expr, $m:expr) => {{
        let (n, m) = ($n, $m);
        let x = <$t>::new(n);
        let name = stringify!($t);
        let get = |v: $t| Into::<u64>::into(v);
        ensure_eq!(guard("checked_next", || x.checked_next())?.map(get), n.checked_add(1), "{name}({n}).checked_next()");
        ensure_eq!(get(guard("saturating_next", || x.saturating_next())?), n.saturating_add(1), "{name}({n}).saturating_next()");
        ensure_eq!(guard("checked_add", || x.checked_add(m))?.map(get), n.checked_add(m), "{name}({n}).checked_add({m})");
        ensure_eq!(get(guard("saturating_add", || x.saturating_add(m))?), n.saturating_add(m), "{name}({n}).saturating_add({m})");
        ensure_eq!(get(<$t>::MAX), u64::MAX, "{name}::MAX");
        ensure_eq!(get(<$t>::MIN), 0, "{name}::MIN");
        ensure_eq!(
            format!("{x:b} {x:#b} {x:o} {x:#o} {x:x} {x:#x} {x:X} {x:#018X} {x:e} {x:E}"),
            format!("{n:b} {n:#b} {n:o} {n:#o} {n:x} {n:#x} {n:X} {n:#018X} {n:e} {n:E}"),
            "{name}: number formats"
        );
        if n.checked_add(m).is_none() {
            $c.count("bounds_hit", 1);
        }
    }};
}

fn text(r: &mut Rng) -> String {
    let n = if r.chance(1, 8) { r.below(300) } else { r.below(40) };
    (0..n).map(|_| *r.pick(&['a', 'f', '0', '9', 'Z', '_', '-', '.', '/', '"', '\\', '\n', '\0', 'é', '✓', '𝛼', ' '])).collect()
}

fn json_round<T: Serialize + DeserializeOwned + PartialEq + Debug>(what: &str, v: &T) -> R {
    let s = deps::serde_json::to_string(v).map_err(|e| format!("{what}: {e}"))?;
    let b: T = deps::serde_json::from_str(&s).map_err(|e| format!("{what}: {s}: {e}"))?;
    ensure!(b == *v, "{what}: {v:?} comes back from JSON as {b:?}");
    let b: T = deps::serde_json::from_value(deps::serde_json::to_value(v).map_err(|e| e.to_string())?).map_err(|e| format!("{what}: {s}: {e}"))?;
    ensure!(b == *v, "{what}: {v:?} comes back from a JSON value as {b:?}");
    let b: T = deps::serde_json::from_reader(deps::serde_json::to_vec_pretty(v).map_err(|e| e.to_string())?.as_slice()).map_err(|e| format!("{what}: {s}: {e}"))?;
    ensure!(b == *v, "{what}: {v:?} comes back from a JSON stream as {b:?}");
    Ok(())
}

macro_rules! text_id {
    ($r:expr, $t:ty) => {{
        let name = stringify!($t);
        let (s, o) = (text($r), text($r));
        let x = <$t>::new(s.clone());
        let y = <$t>::new(if $r.chance(1, 3) { s.clone() } else { o.clone() });
        let yr: &str = y.as_ref();
        let xr: &str = x.as_ref();
        ensure!(xr == s && x.to_string() == s, "{name}: {s:?} prints as {x}");
        ensure!((x == y) == (s == yr) && x.cmp(&y) == s.as_str().cmp(yr), "{name}: comparison of {s:?} and {yr:?}");
        ensure!(x != y || hash(&x) == hash(&y), "{name}: hash of {s:?}");
        ensure_eq!(deps::serde_json::to_value(&x).map_err(|e| e.to_string())?, deps::serde_json::Value::String(s.clone()), "{name}: JSON");
        json_round(name, &x)?;
        ensure!(<$t>::new_static("abc") == <$t>::new("abc".to_string()), "{name}: static and owned differ");
        (s, x)
    }};
}

macro_rules! prefixed {
    ($r:expr, $t:ty) => {{
        let (s, x) = text_id!($r, $t);
        let p: String = s.chars().take($r.below(5)).collect();
        let q = text($r);
        ensure!(x.starts_with(&p), "{s:?} does not start with {p:?}");
        ensure!(x.starts_with(&q) == s.starts_with(&q), "{s:?} starting with {q:?}");
    }};
}

pub fn asset(r: &mut Rng, name: &str, quantity: &Dec) -> TransactionAsset {
    let mut a = TransactionAsset::new(PolicyId::new(format!("p{name}")), AssetName::new(format!("n{}", r.below(3))), TokenId::new(name.to_string()));
    a.quantity = val(quantity);
    a
}

fn json_value(r: &mut Rng, depth: usize) -> deps::serde_json::Value {
    match r.below(if depth > 0 { 7 } else { 5 }) {
        0 => deps::serde_json::Value::Null,
        1 => deps::serde_json::Value::Bool(r.chance(1, 2)),
        2 => number(r).into(),
        3 => (-(r.below(1000) as i64)).into(),
        4 => text(r).into(),
        5 => (0..r.below(4)).map(|_| json_value(r, depth - 1)).collect::<Vec<_>>().into(),
        _ => deps::serde_json::Value::Object((0..r.below(4)).map(|_| (text(r), json_value(r, depth - 1))).collect()),
    }
}

fn pointer(r: &mut Rng) -> UtxoPointer {
    UtxoPointer { transaction_id: TransactionId::new(text(r)), output_index: OutputIndex::new(number(r)) }
}

fn details(r: &mut Rng) -> UTxODetails {
    UTxODetails {
        pointer: pointer(r),
        address: Address::new(text(r)),
        value: val(&dec::gen(r, 18)),
        assets: (0..r.below(4))
            .map(|_| {
                let q = dec::gen(r, 18);
                let n = text(r);
                asset(r, &n, &q)
            })
            .collect(),
        metadata: Arc::new(json_value(r, 3)),
        extra: if r.chance(1, 2) { Some(text(r)) } else { None },
    }
}

pub fn c43(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    for _ in 0..3 {
        let n = number(&mut r);
        let m = if r.chance(1, 4) { n } else if r.chance(1, 4) { u64::MAX - n + r.below(3) as u64 % 3 * u64::from(n > 3) } else { number(&mut r) };
        c.t(format!("{n} {m}"));
        basics::<BlockNumber>("BlockNumber", n, m, true, c)?;
        basics::<SlotNumber>("SlotNumber", n, m, true, c)?;
        basics::<Timestamp>("Timestamp", n, m, true, c)?;
        basics::<OutputIndex>("OutputIndex", n, m, false, c)?;
        stepping!(c, BlockNumber, n, m);
        stepping!(c, SlotNumber, n, m);
        stepping!(c, OutputIndex, n, m);
        ensure_eq!(BlockNumber::new(n).saturating_sub(m).into_inner(), n.saturating_sub(m), "BlockNumber({n}).saturating_sub({m})");
        ensure_eq!(BlockNumber::new(n).into_inner(), n, "BlockNumber");
        ensure_eq!(Timestamp::new(n).into_inner(), n, "Timestamp");
        ensure!(Timestamp::MAX.into_inner() == u64::MAX && Timestamp::MIN.into_inner() == 0, "bounds of Timestamp");
        let secs = n >> 2;
        let t = guard("into_unix_time", || Timestamp::new(secs).into_unix_time())?;
        ensure_eq!(t.duration_since(SystemTime::UNIX_EPOCH).map_err(|e| e.to_string())?, Duration::from_secs(secs), "time of Timestamp({secs})");
    }
    let r = &mut r;
    prefixed!(r, Address);
    prefixed!(r, BlockId);
    prefixed!(r, TransactionId);
    text_id!(r, AssetName);
    text_id!(r, PolicyId);
    let (s, t) = text_id!(r, TokenId);
    ensure!(s.parse::<TokenId>() == Ok(t), "TokenId parsed from {s:?}");
    let s = text(r);
    ensure!(s.parse::<Address>() == Ok(Address::new(s.clone())), "Address parsed from {s:?}");
    let b = BlockId::new(s.clone());
    let bytes: &[u8] = b.as_ref();
    ensure!(bytes == s.as_bytes(), "bytes of block id {s:?}");
    let x = TransactionId::new(s.clone());
    let bytes: &[u8] = x.as_ref();
    ensure!(bytes == s.as_bytes(), "bytes of transaction id {s:?}");
    let p = pointer(r);
    json_round("UtxoPointer", &p)?;
    ensure_eq!(p.to_string(), format!("{}@{}", p.transaction_id, p.output_index), "printed pointer");
    let d = details(r);
    json_round("TransactionAsset list", &d.assets)?;
    json_round("UTxODetails", &d)?;
    let b = UTxOBuilder { address: d.address.clone(), value: d.value.clone(), assets: d.assets.clone(), extra: d.extra.clone() };
    json_round("UTxOBuilder", &b)?;
    let mut n = UTxOBuilder::new(b.address.clone(), b.value.clone(), b.assets.clone());
    ensure!(n.extra.is_none(), "a new builder has extra data");
    n.extra = b.extra.clone();
    ensure!(n == b, "a new builder differs from its parts");
    let t = Transaction {
        transaction_id: TransactionId::new(text(r)),
        inputs: (0..r.below(5)).map(|_| pointer(r)).collect(),
        outputs: (0..r.below(4)).map(|_| details(r)).collect(),
        metadata: Arc::new(json_value(r, 3)),
    };
    json_round("Transaction", &t)?;
    let mut map = BTreeMap::new();
    map.insert(text(r), t);
    json_round("map of transactions", &map)?;
    c.count("transactions", 1);
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().replace('\n', "; "));
    Ok(())
}
