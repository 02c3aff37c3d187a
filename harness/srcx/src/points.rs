//! era arithmetic and chain points
use crate::chain::{poll_for, K, V};
use common::{ensure, ensure_eq, guard, Case, R};
use dcspark_blockchain_source::cardano::time::{epoch_slot_to_absolute_byron, Era};
use dcspark_blockchain_source::cardano::Point;
use dcspark_blockchain_source::Source;
use dcspark_core::{BlockId, SlotNumber};

/// (name, first slot, its epoch, its time, slot length, slots per epoch)
type Row = (&'static str, u64, u64, u64, u64, u64);
const PUBLISHED: [Row; 5] = [
    ("mainnet", 4492800, 208, 1596059091, 1, 432000),
    ("testnet", 1598400, 74, 1595967616, 1, 432000),
    ("preprod", 86400, 4, 1655769600, 1, 432000),
    ("preview", 0, 0, 1666656000, 1, 86400),
    ("sanchonet", 0, 0, 1686789000, 1, 86400),
];
const PRESETS: [Era; 5] = [Era::SHELLEY_MAINNET, Era::SHELLEY_TESTNET, Era::SHELLEY_PREPROD, Era::SHELLEY_PREVIEW, Era::SHELLEY_SANCHO];

fn slot(c: &mut Case, e: &Era, slot: u64) -> R {
    let epoch = guard("absolute_slot_to_epoch", || e.absolute_slot_to_epoch(slot))?;
    let rel = guard("absolute_slot_to_relative", || e.absolute_slot_to_relative(slot))?;
    c.evals(1);
    if slot < e.first_slot {
        ensure!(epoch.is_none() && rel.is_none(), "slot {slot} before {e:?} is in epoch {epoch:?} at {rel:?}");
        c.count("slots_before_the_era", 1);
        return Ok(());
    }
    c.count("slots", 1);
    // 128-bit arithmetic by repeated subtraction in powers of two, independent of / and %
    let gone = slot as u128 - e.first_slot as u128;
    let len = e.epoch_length_seconds as u128;
    let (mut q, mut rest) = (0u128, gone);
    let mut shift = 64;
    while shift > 0 {
        shift -= 1;
        if rest >= len << shift {
            rest -= len << shift;
            q += 1 << shift;
        }
    }
    if rest == 0 {
        c.count("epoch_boundaries", 1);
    }
    let want = e.start_epoch as u128 + q;
    ensure_eq!(epoch.map(|x| x as u128), Some(want), "epoch of slot {slot} in {e:?}");
    ensure_eq!(rel.map(|x| x as u128), Some(rest), "relative slot of slot {slot} in {e:?}");
    let at = e.known_time as u128 + gone * e.slot_length as u128;
    let time = guard("compute_timestamp", || e.compute_timestamp(slot))?;
    ensure_eq!(time as u128, at, "time of slot {slot} in {e:?}");
    Ok(())
}

pub fn presets(c: &mut Case) -> R {
    for (e, p) in PRESETS.iter().zip(PUBLISHED) {
        let have = (p.0, e.first_slot, e.start_epoch, e.known_time, e.slot_length, e.epoch_length_seconds);
        ensure_eq!(have, p, "parameters of the preset");
        c.count("preset_parameters", 5);
        for n in 0..2000u64 {
            let around = p.1 + (n / 5) * p.5 + n % 5;
            slot(c, e, around.saturating_sub(2))?;
            let r = c.rng.skewed(40);
            slot(c, e, r)?;
        }
    }
    c.distinct(1);
    Ok(())
}

pub fn eras(c: &mut Case) -> R {
    let r = &mut c.rng;
    let len = match r.below(4) {
        0 => 1 + r.below(10) as u64,
        1 => *r.pick(&[86400, 432000, 21600, 1 << 20]),
        _ => 1 + r.skewed(40),
    };
    let e = match r.below(6) {
        0 => r.pick(&PRESETS).clone(),
        _ => Era { first_slot: r.skewed(60), start_epoch: r.skewed(60), known_time: r.skewed(60), slot_length: 1, epoch_length_seconds: len },
    };
    let mut slots = vec![0, e.first_slot, e.first_slot + 1, e.first_slot.saturating_sub(1), e.first_slot / 2];
    for _ in 0..20 {
        let k = r.skewed(60) / e.epoch_length_seconds;
        let b = e.first_slot + k * e.epoch_length_seconds;
        slots.extend([b, b.saturating_sub(1), b + 1]);
        slots.push(e.first_slot + r.skewed(61));
        slots.push(r.skewed(61));
    }
    c.distinct(common::hash_str(&format!("{e:?}")));
    c.sample(format!("{e:?}"));
    for s in slots {
        slot(c, &e, s)?;
    }
    let (epoch, at) = (c.rng.skewed(45), c.rng.below(21600) as u64);
    let b = guard("epoch_slot_to_absolute_byron", || epoch_slot_to_absolute_byron(epoch, at))?;
    ensure_eq!(b, 21600 * epoch + at, "Byron slot {at} of epoch {epoch}");
    c.count("byron_slots", 1);
    // longer slots: the time still follows the slot length
    let longer = Era { slot_length: 1 + c.rng.skewed(5), ..e.clone() };
    let (s, gone) = { let g = c.rng.skewed(50); (longer.first_slot + g, g) };
    let t = guard("compute_timestamp", || longer.compute_timestamp(s))?;
    ensure_eq!(t as u128, longer.known_time as u128 + gone as u128 * longer.slot_length as u128, "time of slot {s} in {longer:?}");
    Ok(())
}

type Net = cardano_sdk::protocol::Point;

fn hex_text(c: &mut Case, n: usize, upper: bool) -> String {
    (0..n).map(|_| { let d = c.rng.below(16); let x = b"0123456789abcdef"[d] as char; if upper && c.rng.chance(1, 2) { x.to_ascii_uppercase() } else { x } }).collect()
}

pub fn points(c: &mut Case) -> R {
    let slot = if c.rng.chance(1, 10) { 0 } else { c.rng.skewed(64) };
    let valid = !c.rng.chance(1, 3);
    let upper = c.rng.chance(1, 4);
    let hash = if c.rng.chance(1, 12) { "0".repeat(64) } else { hex_text(c, 64, upper) };
    let hash = if valid {
        hash
    } else {
        match c.rng.below(8) {
            0 => hash[..c.rng.below(64)].into(),
            1 => { let extra = 1 + c.rng.below(4); format!("{hash}{}", hex_text(c, extra, false)) }
            2 => { let i = c.rng.below(64); let mut b = hash.into_bytes(); b[i] = *c.rng.pick(b"gz -x/:@`G\n"); String::from_utf8(b).unwrap() }
            3 => format!("0x{hash}"),
            4 => format!("0x{}", &hash[..62]),
            5 => { let i = c.rng.below(63); let mut s = hash; s.replace_range(i..i + 2, "é"); s }
            6 => String::new(),
            _ => format!(" {hash}"),
        }
    };
    c.t(format!("slot {slot} hash {hash:?}"));
    c.distinct(common::hash_str(&format!("{slot} {hash}")));
    c.evals(1);
    let p = Point::BlockHeader { slot_nb: SlotNumber::new(slot), hash: BlockId::new(hash.clone()) };
    let got = guard("conversion", || Net::try_from(p.clone()))?;
    let bytes = |h: &str| -> Vec<u8> { h.bytes().collect::<Vec<_>>().chunks(2).map(|x| x.iter().fold(0, |a, d| a * 16 + (*d as char).to_digit(16).unwrap() as u8)).collect() };
    match (valid, got) {
        (true, Ok(n)) => {
            let Net::BlockHeader { slot_nb, hash: h } = &n else { return Err("a block's point became the origin".into()) };
            ensure_eq!(*slot_nb, slot, "slot");
            ensure_eq!(h.0.to_vec(), bytes(&hash), "hash bytes");
            let back = guard("conversion back", || Point::from(n.clone()))?;
            let Point::BlockHeader { slot_nb, hash: h } = &back else { return Err(format!("{p:?} came back as {back:?}")) };
            let text: &str = h.as_ref();
            ensure!(u64::from(*slot_nb) == slot && text.eq_ignore_ascii_case(&hash), "{p:?} came back as {back:?}");
            if hash == hash.to_ascii_lowercase() {
                ensure_eq!(back, p, "round trip");
            }
            let again = guard("conversion", || Net::try_from(back.clone()))?.map_err(|e| format!("{e:#}"))?;
            ensure!(again == n, "{p:?} is {n} and then {again}");
            c.count("valid_hashes", 1);
        }
        (false, Err(_)) => c.count("invalid_hashes", 1),
        (true, Err(e)) => return Err(format!("{p:?} refused: {e:#}")),
        (false, Ok(n)) => return Err(format!("{p:?} taken for {n:?}")),
    }
    let text = deps::serde_json::to_string(&p).map_err(|e| e.to_string())?;
    let back: Point = deps::serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
    ensure_eq!(back, p, "from JSON {text}");
    c.count("json", 1);
    if c.rng.chance(1, 8) {
        let n = guard("conversion", || Net::try_from(Point::Origin))?.map_err(|e| format!("{e:#}"))?;
        ensure!(n == Net::Origin, "the origin became {n:?}");
        ensure_eq!(Point::from(n), Point::Origin, "the origin came back");
        let text = deps::serde_json::to_string(&Point::Origin).map_err(|e| e.to_string())?;
        ensure_eq!(deps::serde_json::from_str::<Point>(&text).map_err(|e| e.to_string())?, Point::Origin, "origin from JSON");
        // a point is never equal to the origin, whatever its numbers
        let zero = Point::BlockHeader { slot_nb: SlotNumber::new(0), hash: BlockId::new("0".repeat(64)) };
        let n = guard("conversion", || Net::try_from(zero.clone()))?.map_err(|e| format!("{e:#}"))?;
        ensure_eq!(Point::from(n), zero, "the point at slot 0 with the zero hash");
        c.count("origins", 1);
    }
    if c.rng.chance(1, 4) {
        let v = V { id: K(hash), parent: K("p".into()), number: slot, tip: c.rng.chance(1, 2), payload: "y".into() };
        let mut s = Some(v.clone());
        let first = poll_for(s.pull(&()), 1).ok_or("pull of an optional event was pending")?.map_err(|e| format!("{e:#}"))?;
        ensure!(first.as_ref() == Some(&v), "the optional event {v:?} was delivered as {first:?}");
        for _ in 0..2 {
            let more = poll_for(s.pull(&()), 1).ok_or("pull was pending")?.map_err(|e| format!("{e:#}"))?;
            ensure!(more.is_none(), "the optional event was delivered again: {more:?}");
        }
        c.count("one_shot_sources", 1);
    }
    Ok(())
}
