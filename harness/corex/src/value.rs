//! C40 (arithmetic, units), C41 (text, JSON, order, hash), C42 (balances)
use crate::dec::{gen, Dec};
use common::{ensure, guard, Case, R};
use dcspark_core::{algo, cardano, evm, Balance, Normalized, Regulated, Rule, TokenId, Value};
use deps::bigdecimal::ToPrimitive;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

pub trait Unit: 'static + Sized {
    const NAME: &'static str;
    const DECIMALS: i64;
}
macro_rules! unit {
    ($t:ty, $n:expr, $d:expr) => {
        impl Unit for $t {
            const NAME: &'static str = $n;
            const DECIMALS: i64 = $d;
        }
    };
}
unit!(Normalized, "Normalized", 18);
unit!(Regulated, "Regulated", 18);
unit!(cardano::Ada, "Ada", 6);
unit!(cardano::Lovelace, "Lovelace", 0);
unit!(evm::Ether, "Ether", 18);
unit!(evm::Wei, "Wei", 0);
unit!(algo::Algo, "Algo", 6);
unit!(algo::MicroAlgo, "MicroAlgo", 0);

pub fn val<U>(d: &Dec) -> Value<U> {
    Value::new(d.big())
}
fn dec<U>(v: &Value<U>) -> Dec {
    Dec::of(v.raw())
}
pub fn same<U>(what: &str, v: &Value<U>, d: &Dec) -> R {
    ensure!(dec(v).same(d), "{what}: got {}, expected {}", dec(v).plain(), d.plain());
    Ok(())
}

// ------------------------------------------------------------------ C40
fn arithmetic<U: Unit>(c: &mut Case) -> R {
    let a = gen(&mut c.rng, U::DECIMALS);
    let mut b = gen(&mut c.rng, U::DECIMALS);
    if c.rng.chance(1, 8) {
        b = Dec { digits: &a.digits * 10, scale: a.scale + 1 }; // the same number written otherwise
    }
    c.t(format!("{} {} {}", U::NAME, a.plain(), b.plain()));
    let (x, y) = (val::<U>(&a), val::<U>(&b));
    let sum = a.add(&b);
    same("a + b", &(x.clone() + y.clone()), &sum)?;
    same("&a + b", &(&x + y.clone()), &sum)?;
    same("a + &b", &(x.clone() + &y), &sum)?;
    same("&a + &b", &(&x + &y), &sum)?;
    let mut z = x.clone();
    z += y.clone();
    same("a += b", &z, &sum)?;
    let mut z = x.clone();
    z += &y;
    same("a += &b", &z, &sum)?;
    let diff = a.sub(&b);
    same("a - b", &(x.clone() - y.clone()), &diff)?;
    same("a - &b", &(x.clone() - &y), &diff)?;
    same("&a - &b", &(&x - &y), &diff)?;
    let mut z = x.clone();
    z -= y.clone();
    same("a -= b", &z, &diff)?;
    let mut z = x.clone();
    z -= &y;
    same("a -= &b", &z, &diff)?;
    same("a + b - b", &(&(&x + &y) - &y), &a)?;
    same("a + zero", &(&x + &Value::zero()), &a)?;
    same("a + one", &(&x + &Value::one()), &a.add(&Dec { digits: 1.into(), scale: 0 }))?;
    same("default", &Value::<U>::default(), &Dec::zero())?;
    same("operands", &x, &a)?;
    same("operands", &y, &b)?;
    let k = c.rng.skewed(32) as u32;
    same("a * u32", &(x.clone() * k), &a.times(k as u64))?;
    same("&a * u32", &(&x * k), &a.times(k as u64))?;
    let k = c.rng.skewed(64) as usize;
    same("a * usize", &(x.clone() * k), &a.times(k as u64))?;
    same("&a * usize", &(&x * k), &a.times(k as u64))?;
    // dividing a product by its factor gives back the other
    let k = c.rng.skewed(64).max(1) as usize;
    let product = val::<U>(&a.times(k as u64));
    same("a * k / k", &guard("division", || &product / k)?, &a)?;
    same("&(a * k) / k", &guard("division", || &(&x * k) / k)?, &a)?;
    same("(a * k) / k by value", &guard("division", || product.clone() / k)?, &a)?;
    let n = c.rng.skewed(64);
    same("from u64", &Value::<U>::from(n), &Dec { digits: n.into(), scale: 0 })?;
    // sums
    let many: Vec<Dec> = (0..c.rng.below(9)).map(|_| gen(&mut c.rng, U::DECIMALS)).collect();
    let vals: Vec<Value<U>> = many.iter().map(val).collect();
    let total = many.iter().fold(Dec::zero(), |s, d| s.add(d));
    same("sum of borrowed", &vals.iter().sum(), &total)?;
    same("sum of owned", &vals.clone().into_iter().sum(), &total)?;
    let mut acc = Value::<U>::zero();
    vals.iter().for_each(|v| acc += v);
    same("running sum", &acc, &total)?;
    // truncation
    same("truncate", &guard("truncate", || x.truncate())?, &a.integral())?;
    same("truncate of a sum", &guard("truncate", || acc.truncate())?, &total.integral())?;
    let below = a.neg();
    same("truncate of a negative value", &guard("truncate", || val::<U>(&below).truncate())?, &a.integral().neg())?;
    let t = x.truncate();
    ensure!(t <= x && &x - &t < Value::one(), "truncation of {} is {}", a.plain(), t);
    // whole numbers in and out of machine integers
    let i = a.integral();
    let fits: Option<u64> = i.digits.to_u64();
    ensure!(val::<U>(&i).to_u64() == fits, "to_u64 of {} is {:?}", i.plain(), val::<U>(&i).to_u64());
    let whole = if c.rng.chance(1, 4) { i.neg() } else { i };
    let fits: Option<i64> = whole.digits.to_i64();
    ensure!(val::<U>(&whole).to_i64() == fits, "to_i64 of {} is {:?}", whole.plain(), val::<U>(&whole).to_i64());
    c.count("operations_checked", 28 + many.len() as u64);
    c.max("max_digits", total.digits.to_string().len() as u64);
    Ok(())
}

/// a conversion forth and back, with the power of ten between the units
fn convert<A: Unit, B: Unit>(c: &mut Case, what: &str, n: i64, forth: impl Fn(&Value<A>) -> Value<B>, back: impl Fn(&Value<B>) -> Value<A>) -> R {
    let a = gen(&mut c.rng, A::DECIMALS);
    let b = gen(&mut c.rng, A::DECIMALS);
    c.t(format!("{what} {}", a.plain()));
    let x = val::<A>(&a);
    let y = guard(what, || forth(&x))?;
    same(what, &y, &a.shift(n))?;
    same(&format!("{what} and back"), &back(&y), &a)?;
    let d = gen(&mut c.rng, B::DECIMALS);
    let v = val::<B>(&d);
    same(&format!("back of {what}"), &back(&v), &d.shift(-n))?;
    same(&format!("back of {what} and forth"), &forth(&back(&v)), &d)?;
    let s = forth(&(val::<A>(&a) + val::<A>(&b)));
    ensure!(s == forth(&val(&a)) + forth(&val(&b)), "{what} of a sum");
    c.count("conversions_checked", 6);
    Ok(())
}

fn conversions(c: &mut Case) -> R {
    use cardano::{Ada, Lovelace};
    use evm::{Ether, Wei};
    use algo::{Algo, MicroAlgo};
    convert::<Ada, Normalized>(c, "Ada::normalize", 0, |v| v.normalize(), Value::<Ada>::from_normalized)?;
    convert::<Ada, Lovelace>(c, "Ada::to_lovelace", -6, |v| v.to_lovelace(), |v| v.to_ada())?;
    convert::<Lovelace, Normalized>(c, "Lovelace::normalize", 6, |v| v.normalize(), Value::<Lovelace>::from_normalized)?;
    convert::<Lovelace, Regulated>(c, "Lovelace::to_regulated", 0, |v| v.to_regulated(), Value::<Lovelace>::from_regulated)?;
    convert::<Ether, Normalized>(c, "Ether::normalize", 0, |v| v.normalize(), Value::<Ether>::from_normalized)?;
    convert::<Ether, Wei>(c, "Ether::to_wei", -18, |v| v.to_wei(), |v| v.to_ether())?;
    convert::<Wei, Normalized>(c, "Wei::normalize", 18, |v| v.normalize(), Value::<Wei>::from_normalized)?;
    convert::<Algo, Normalized>(c, "Algo::normalize", 0, |v| v.normalize(), Value::<Algo>::from_normalized)?;
    convert::<MicroAlgo, Normalized>(c, "MicroAlgo::normalize", 6, |v| v.normalize(), Value::<MicroAlgo>::from_normalized)?;
    // the From forms
    convert::<Ada, Normalized>(c, "Normalized from Ada", 0, |v| v.clone().into(), |v| v.clone().into())?;
    convert::<Lovelace, Normalized>(c, "Normalized from Lovelace", 6, |v| v.clone().into(), |v| v.clone().into())?;
    convert::<Ether, Normalized>(c, "Normalized from Ether", 0, |v| v.clone().into(), |v| v.clone().into())?;
    convert::<Wei, Normalized>(c, "Normalized from Wei", 18, |v| v.clone().into(), |v| v.clone().into())?;
    convert::<MicroAlgo, Normalized>(c, "Normalized from MicroAlgo", 6, |v| v.clone().into(), |v| v.clone().into())?;
    convert::<Algo, Normalized>(c, "Normalized from Algo", 0, |v| v.clone().into(), Value::<Algo>::from_normalized)?;
    convert::<Ada, Lovelace>(c, "Lovelace from Ada", -6, |v| v.clone().into(), |v| v.to_ada())?;
    // micro-algo
    let d = gen(&mut c.rng, 6);
    same("Algo::to_microalgo", &val::<Algo>(&d).to_microalgo(), &d.shift(-6))?;
    let d = gen(&mut c.rng, 0);
    let back = val::<MicroAlgo>(&d).to_algo();
    same("MicroAlgo::to_algo", &back, &d.shift(6))?;
    let (got, want) = (std::any::type_name_of_val(&back), std::any::type_name::<Value<Algo>>());
    ensure!(got == want, "MicroAlgo::to_algo gives a {got}");
    // through an intermediate unit
    let d = gen(&mut c.rng, 6);
    let ada = val::<Ada>(&d);
    ensure!(ada.to_lovelace().normalize() == ada.normalize(), "Ada by Lovelace to Normalized");
    ensure!(Value::<Lovelace>::from_normalized(&ada.normalize()) == ada.to_lovelace(), "Ada by Normalized to Lovelace");
    let d = gen(&mut c.rng, 18);
    let eth = val::<Ether>(&d);
    ensure!(eth.to_wei().normalize() == eth.normalize(), "Ether by Wei to Normalized");
    ensure!(Value::<Wei>::from_normalized(&eth.normalize()) == eth.to_wei(), "Ether by Normalized to Wei");
    let d = gen(&mut c.rng, 6);
    let al = val::<Algo>(&d);
    ensure!(al.to_microalgo().normalize() == al.normalize(), "Algo by MicroAlgo to Normalized");
    // rules
    let p = |c: &mut Case| if c.rng.chance(1, 4) { c.rng.below(40) as i64 } else { c.rng.below(20) as i64 };
    let rule = if c.rng.chance(1, 10) {
        Rule::default()
    } else {
        Rule { asset: TokenId::new("x"), mainchain_decimal_precision: p(c), sidechain_decimal_precision: p(c) }
    };
    let (m, s) = (rule.mainchain_decimal_precision, rule.sidechain_decimal_precision);
    c.t(format!("rule {m} {s}"));
    convert::<Regulated, Normalized>(c, "mainchain to Normalized", m, |v| v.normalize_from_mainchain(&rule), |v| Value::from_normalized_to_mainchain(v, &rule))?;
    convert::<Regulated, Normalized>(c, "sidechain to Normalized", s, |v| v.normalize_from_sidechain(&rule), |v| Value::from_normalized_to_sidechain(v, &rule))?;
    convert::<Regulated, Regulated>(c, "mainchain to sidechain", m - s,
        |v| Value::from_normalized_to_sidechain(&v.normalize_from_mainchain(&rule), &rule),
        |v| Value::from_normalized_to_mainchain(&v.normalize_from_sidechain(&rule), &rule))?;
    let d = gen(&mut c.rng, 18);
    let coerced: Value<Ada> = unsafe { val::<Regulated>(&d).coerce() };
    same("coerce", &coerced, &d)?;
    Ok(())
}

pub fn c40(c: &mut Case) -> R {
    for _ in 0..20 {
        match c.rng.below(8) {
            0 => arithmetic::<Normalized>(c)?,
            1 => arithmetic::<Regulated>(c)?,
            2 => arithmetic::<cardano::Ada>(c)?,
            3 => arithmetic::<cardano::Lovelace>(c)?,
            4 => arithmetic::<evm::Ether>(c)?,
            5 => arithmetic::<evm::Wei>(c)?,
            6 => arithmetic::<algo::Algo>(c)?,
            _ => arithmetic::<algo::MicroAlgo>(c)?,
        }
    }
    conversions(c)?;
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().lines().take(8).collect::<Vec<_>>().join("; "));
    Ok(())
}

// ------------------------------------------------------------------ C41
fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// a number as a user may write it, and its number of decimals
fn written(c: &mut Case, max: i64) -> (String, Dec) {
    let r = &mut c.rng;
    let mut d = gen(r, (max + 4).max(3));
    if r.chance(1, 8) {
        d = d.neg();
    }
    if d.scale >= 0 && d.scale < 30 || r.chance(1, 2) {
        let mut s = d.plain();
        if r.chance(1, 6) {
            s = if let Some(x) = s.strip_prefix('-') { format!("-00{x}") } else { format!("0{s}") };
        }
        let p = Dec::parse(&s).unwrap();
        return (s, p);
    }
    // exponent notation
    let m = Dec { digits: d.digits.clone(), scale: r.below(4) as i64 };
    let e = m.scale - d.scale;
    let s = format!("{}{}{}{}", m.plain(), if r.chance(1, 2) { "e" } else { "E" }, if e >= 0 && r.chance(1, 2) { "+" } else { "" }, e);
    let p = Dec::parse(&s).unwrap();
    (s, p)
}

fn text<U: Unit>(c: &mut Case) -> R
where
    Value<U>: FromStr,
    <Value<U> as FromStr>::Err: std::error::Error,
{
    let (s, d) = written(c, U::DECIMALS);
    c.t(format!("{} {s}", U::NAME));
    let want = d.scale <= U::DECIMALS && d.sign() >= 0;
    match guard("parse", || s.parse::<Value<U>>())? {
        Ok(v) => {
            ensure!(want, "{}: {s:?} was accepted though it has {} decimals (at most {}) or is negative", U::NAME, d.scale, U::DECIMALS);
            same("parsed value", &v, &d)?;
            c.count("texts_accepted", 1);
        }
        Err(_) => {
            ensure!(!want, "{}: {s:?} was refused", U::NAME);
            c.count("texts_refused", 1);
        }
    }
    let bad = ["", " ", "abc", "1,5", "1.2.3", "--1", "0x10", "1 2", "NaN", "inf", "e5", "-", ".", "1e", "１", "1.5x"];
    let b = *c.rng.pick(&bad);
    ensure!(guard("parse", || b.parse::<Value<U>>())?.is_err(), "{}: {b:?} was accepted", U::NAME);

    // a value the unit can hold, computed or written
    let a = gen(&mut c.rng, U::DECIMALS);
    let v = match c.rng.below(3) {
        0 => val::<U>(&a),
        1 => val::<U>(&a) + Value::<U>::zero(),
        _ => a.plain().parse::<Value<U>>().map_err(|e| format!("{}: {:?} refused: {e}", U::NAME, a.plain()))?,
    };
    let printed = v.to_string();
    let shown = Dec::parse(&printed);
    ensure!(shown.as_ref().is_some_and(|p| p.same(&a)), "{} is printed as {printed:?}", a.plain());
    let again = printed.parse::<Value<U>>().map_err(|e| format!("{}: printed text {printed:?} is refused: {e}", U::NAME))?;
    ensure!(again == v, "{printed:?} reads back as another value");
    let json = deps::serde_json::to_string(&v).map_err(|e| e.to_string())?;
    let back: Value<U> = deps::serde_json::from_str(&json).map_err(|e| format!("{json}: {e}"))?;
    ensure!(back == v, "{json} reads back as another value");
    same("value from JSON", &back, &a)?;
    let jv = deps::serde_json::to_value(&v).map_err(|e| e.to_string())?;
    let back: Value<U> = deps::serde_json::from_value(jv).map_err(|e| format!("{json}: {e}"))?;
    ensure!(back == v, "{json} reads back as another value");
    let back: Vec<Value<U>> = deps::serde_json::from_slice(&deps::serde_json::to_vec(&vec![v.clone(), again]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(back.iter().all(|b| *b == v), "values in a JSON list read back as others");
    let n = c.rng.skewed(64);
    let x: Value<U> = deps::serde_json::from_str(&n.to_string()).map_err(|e| format!("JSON number {n}: {e}"))?;
    let y: Value<U> = deps::serde_json::from_str(&format!("\"{n}\"")).map_err(|e| format!("JSON string {n}: {e}"))?;
    ensure!(x == y, "JSON number and string of {n} differ");
    same("JSON number", &x, &Dec { digits: n.into(), scale: 0 })?;
    for b in ["\"abc\"", "\"\"", "null", "[]", "{}", "true", "\"1.2.3\""] {
        ensure!(deps::serde_json::from_str::<Value<U>>(b).is_err(), "{}: JSON {b} was accepted", U::NAME);
    }
    c.count("values_printed_and_read_back", 1);

    // equality, order, hash
    let mut set: Vec<Dec> = vec![a.clone()];
    set.push(Dec { digits: &a.digits * 10, scale: a.scale + 1 });
    set.push(Dec { digits: &a.digits * crate::dec::pow10(5), scale: a.scale + 5 });
    set.push(a.add(&Dec { digits: 1.into(), scale: a.scale.max(0) }));
    set.push(gen(&mut c.rng, U::DECIMALS));
    set.push(gen(&mut c.rng, U::DECIMALS));
    set.push(Dec { digits: 0.into(), scale: c.rng.below(9) as i64 - 3 });
    set.push(a.neg());
    let vs: Vec<Value<U>> = set.iter().map(val).collect();
    for (i, x) in vs.iter().enumerate() {
        for (j, y) in vs.iter().enumerate() {
            let o = set[i].cmp(&set[j]);
            let what = || format!("{} (scale {}) and {} (scale {})", set[i].plain(), set[i].scale, set[j].plain(), set[j].scale);
            ensure!(x.cmp(y) == o, "order of {} is {:?}", what(), x.cmp(y));
            ensure!(x.partial_cmp(y) == Some(o), "partial order of {}", what());
            ensure!((x == y) == (o == Ordering::Equal), "equality of {}", what());
            ensure!((x < y) == (o == Ordering::Less) && (x >= y) == (o != Ordering::Less), "comparison of {}", what());
            if o == Ordering::Equal {
                ensure!(hash(x) == hash(y), "{} are equal but hash differently", what());
                if set[i].scale != set[j].scale {
                    c.count("equal_pairs_of_different_notation", 1);
                }
            }
        }
    }
    c.count("pairs_compared", (vs.len() * vs.len()) as u64);
    let mut sorted = vs.clone();
    sorted.sort();
    ensure!(sorted.windows(2).all(|w| dec(&w[0]).cmp(&dec(&w[1])) != Ordering::Greater), "sorting does not order the numbers");
    Ok(())
}

pub fn c41(c: &mut Case) -> R {
    for _ in 0..8 {
        match c.rng.below(8) {
            0 => text::<Normalized>(c)?,
            1 => text::<Regulated>(c)?,
            2 => text::<cardano::Ada>(c)?,
            3 => text::<cardano::Lovelace>(c)?,
            4 => text::<evm::Ether>(c)?,
            5 => text::<evm::Wei>(c)?,
            6 => text::<algo::Algo>(c)?,
            _ => text::<algo::MicroAlgo>(c)?,
        }
    }
    c.distinct(c.trace_hash());
    c.sample(c.trace_text());
    Ok(())
}

// ------------------------------------------------------------------ C42
fn check_balance<U>(what: &str, b: &Balance<U>, sum: &Dec) -> R {
    let s = sum.sign();
    ensure!(b.in_excess() == (s > 0) && b.balanced() == (s == 0) && b.in_debt() == (s < 0),
        "{what}: sum {} but balance {b} (excess {}, balanced {}, debt {})", sum.plain(), b.in_excess(), b.balanced(), b.in_debt());
    match b {
        Balance::Balanced => {}
        Balance::Excess(v) => same(what, v, sum)?,
        Balance::Debt(v) => same(what, v, &sum.neg())?,
    }
    let t = b.to_string();
    match s {
        0 => ensure!(t == "0", "{what}: a balanced balance prints {t:?}"),
        _ => {
            let (sign, rest) = t.split_at(1);
            ensure!(sign == if s > 0 { "+" } else { "-" } && Dec::parse(rest).is_some_and(|d| d.same(&if s > 0 { sum.clone() } else { sum.neg() })), "{what}: sum {} prints {t:?}", sum.plain());
        }
    }
    Ok(())
}

#[derive(Clone)]
enum Op {
    Credit(Dec),
    Debit(Dec),
    Merge(Vec<Op>),
}

fn op_sum(o: &Op) -> Dec {
    match o {
        Op::Credit(d) => d.clone(),
        Op::Debit(d) => d.neg(),
        Op::Merge(v) => v.iter().fold(Dec::zero(), |s, o| s.add(&op_sum(o))),
    }
}

fn run_ops(c: &mut Case, ops: &[Op], deep: bool) -> Result<(Balance<Regulated>, Dec), String> {
    let mut b: Balance<Regulated> = if c.rng.chance(1, 2) { Balance::zero() } else { Balance::default() };
    let mut sum = Dec::zero();
    for (i, o) in ops.iter().enumerate() {
        let before = sum.sign();
        match o {
            Op::Credit(d) => {
                let v: Value<Regulated> = val(d);
                b = match c.rng.below(4) {
                    0 => b + v,
                    1 => &b + &v,
                    2 => {
                        b += v;
                        b
                    }
                    _ => {
                        b += &v;
                        b
                    }
                };
            }
            Op::Debit(d) => {
                let v: Value<Regulated> = val(d);
                b = match c.rng.below(4) {
                    0 => b - v,
                    1 => &b - &v,
                    2 => {
                        b -= v;
                        b
                    }
                    _ => {
                        b -= &v;
                        b
                    }
                };
            }
            Op::Merge(v) => {
                let (x, _) = run_ops(c, v, deep)?;
                b = if c.rng.chance(1, 2) { b + x } else { x + b };
                c.count("balances_merged", 1);
            }
        }
        sum = sum.add(&op_sum(o));
        check_balance(&format!("after operation {i}"), &b, &sum)?;
        check_balance("clone", &b.clone(), &sum)?;
        if before != sum.sign() {
            c.count("sign_changes", 1);
        }
        c.count("operations", 1);
        if sum.sign() == 0 {
            c.count("exactly_balanced", 1);
        }
    }
    Ok((b, sum))
}

fn gen_ops(c: &mut Case, depth: usize) -> Vec<Op> {
    let n = c.rng.range(1, 14);
    let mut ops: Vec<Op> = vec![];
    let mut sum = Dec::zero();
    for _ in 0..n {
        let d = match c.rng.below(8) {
            0 => Dec { digits: 0.into(), scale: c.rng.below(4) as i64 },
            // exactly what balances it, possibly written with more decimals
            1 | 2 => {
                let k = c.rng.below(3) as i64;
                let s = if sum.sign() < 0 { sum.neg() } else { sum.clone() };
                Dec { digits: &s.digits * crate::dec::pow10(k), scale: s.scale + k }
            }
            3 => Dec { digits: c.rng.below(3).into(), scale: 0 },
            _ => gen(&mut c.rng, 18),
        };
        let o = match c.rng.below(9) {
            0 if depth > 0 => Op::Merge(gen_ops(c, depth - 1)),
            x if x % 2 == 1 => Op::Credit(d),
            _ => Op::Debit(d),
        };
        sum = sum.add(&op_sum(&o));
        ops.push(o);
    }
    ops
}

pub fn c42(c: &mut Case) -> R {
    let mut ops = gen_ops(c, 2);
    for o in &ops {
        c.t(format!("{}", op_sum(o).plain()));
    }
    let (b, sum) = run_ops(c, &ops, true)?;
    for _ in 0..2 {
        c.rng.shuffle(&mut ops);
        let (b2, s2) = run_ops(c, &ops, false)?;
        ensure!(s2.same(&sum) && b2 == b && b == b2, "another order of the operations gives {b2} instead of {b}");
    }
    let (x, xs) = {
        let o = gen_ops(c, 0);
        run_ops(c, &o, false)?
    };
    ensure!((x == b) == xs.same(&sum), "equality of balances {x} and {b}");
    let abs: Value<Regulated> = val(&if sum.sign() < 0 { sum.neg() } else { sum.clone() });
    let opposite = if sum.sign() < 0 { Balance::zero() + abs } else { Balance::zero() - abs };
    ensure!((b.clone() + opposite).balanced(), "a balance plus its opposite is not balanced");
    c.distinct(c.trace_hash());
    c.sample(c.trace_text().replace('\n', " "));
    Ok(())
}
