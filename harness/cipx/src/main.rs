//! monitor of asset fingerprints
mod blake;
use common::{ensure, ensure_eq, guard, Case, Runner, R};
use dcspark_core::{AssetName, PolicyId};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn cased(c: &mut Case, s: &str) -> String {
    match c.rng.below(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|x| if c.rng.chance(1, 2) { x.to_ascii_uppercase() } else { x }).collect(),
    }
}

fn spoil(c: &mut Case, s: &str, whole: bool) -> String {
    match c.rng.below(6) {
        0 => format!("{s}{}", if whole { "0" } else { "00" }),
        1 if !s.is_empty() => s[..s.len() - if whole { 1 } else { 2 - c.rng.below(2) }].to_string(),
        2 if !s.is_empty() => {
            let i = c.rng.below(s.len());
            let mut b = s.as_bytes().to_vec();
            b[i] = *c.rng.pick(b"ghz -_x/:@`G");
            String::from_utf8(b).unwrap()
        }
        3 if s.len() > 2 => {
            let i = c.rng.below(s.len() - 1);
            let mut t = s.to_string();
            t.replace_range(i..i + 2, "é");
            t
        }
        4 => format!("0x{s}"),
        _ => format!("{s}g"),
    }
}

fn one(c: &mut Case) -> R {
    let policy: Vec<u8> = (0..28).map(|_| if c.rng.chance(1, 6) { 0 } else { c.rng.next() as u8 }).collect();
    let n = match c.rng.below(6) {
        0 => 0,
        1 => 32,
        2 => *c.rng.pick(&[99, 100, 101, 128, 228, 356]), // around the hash's block boundaries
        3 => c.rng.below(400),
        _ => c.rng.below(33),
    };
    let name: Vec<u8> = (0..n).map(|_| if c.rng.chance(1, 6) { 0 } else { c.rng.next() as u8 }).collect();
    let (p, m) = (hex(&policy), hex(&name));
    let (p, m) = (cased(c, &p), cased(c, &m));
    let bad_p = c.rng.chance(1, 8);
    let bad_n = c.rng.chance(1, 8);
    let p = if bad_p { spoil(c, &p, false) } else { p };
    let m = if bad_n { spoil(c, &m, true) } else { m };
    c.t(format!("policy {p} name {m}"));
    c.distinct(common::hash_str(&format!("{p} {m}")));
    c.evals(1);
    let got = guard("fingerprint", || cardano_utils::fingerprint(&PolicyId::new(p.clone()), &AssetName::new(m.clone())))?;
    if bad_p || bad_n {
        ensure!(got.is_err(), "the fingerprint of policy {p:?} and name {m:?} is {got:?}");
        c.count("refusals", 1);
        return Ok(());
    }
    let got = got.map_err(|e| format!("policy {p:?} and name {m:?} refused: {e:#}"))?;
    let mut input = policy;
    input.extend(&name);
    let want = format!("{}{}", hex(&blake::blake2b(20, &input)), "0".repeat(24));
    let text: &str = got.as_ref();
    ensure_eq!(text, want.as_str(), "fingerprint of policy {p} and name {m}");
    c.count("fingerprints", 1);
    c.max("longest_name", n as u64);
    if n > 100 {
        c.count("names_beyond_one_hash_block", 1);
    }
    c.sample(format!("{p}.{m} -> {text}"));
    Ok(())
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let r = Runner::new(&id, "a case is a policy and a name, valid or spoilt; distinct = different pairs");
    blake::self_test();
    match id.as_str() {
        "C64" => {
            r.phase("pairs", r.n(300000, 6000000), 8, r.n(20, 120) as f64, one);
            r.finish(&["fingerprints", "refusals", "names_beyond_one_hash_block"])
        }
        _ => std::process::exit(2),
    }
}
