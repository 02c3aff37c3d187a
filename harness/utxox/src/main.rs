//! monitors of input selection and change balancing
mod check;
mod select;
mod world;
use check::*;
use common::{Case, Runner, R};
use select::*;
use world::*;

/// a history of selections on one selector, with failures and replacements of what is available
fn history(c: &mut Case, kinds: &[Kind], oracle: Oracle, shape: fn(&mut Case, &mut World, &Avail, &Fees) -> Setup) -> R {
    let kind = *c.rng.pick(kinds);
    let mut w = World::new(&mut c.rng, kind);
    w.crowd(&mut c.rng);
    c.t(format!("{kind:?} {}", w.cfg));
    let us = w.batch(&mut c.rng);
    let mut avail = avail_of(us.clone())?;
    listed(c, &avail)?;
    let via = c.rng.chance(1, 2);
    let cfg = w.cfg.clone();
    let mut sel = common::guard("construction", || Sel::new(kind, &cfg, us, via))?.map_err(|e| format!("construction: {e:#}"))?;
    for step in 0..c.rng.range(1, 7) {
        if step > 0 && c.rng.chance(1, 5) {
            let us = w.batch(&mut c.rng);
            avail = avail_of(us.clone())?;
            c.t("replaced by");
            listed(c, &avail)?;
            let via = c.rng.chance(1, 2);
            common::guard("replacement", || sel.replace(us, via))?.map_err(|e| format!("replacement: {e:#}"))?;
            c.count("replacements", 1);
            let now = avail_of(sel.available())?;
            common::ensure!(now == avail, "after replacing the available outputs by {} others {} are available", avail.len(), now.len());
        }
        let fees = w.fees(&mut c.rng);
        let setup = shape(c, &mut w, &avail, &fees);
        let fail = c.rng.chance(1, 12).then(|| c.rng.below(12) as u64);
        let seen = run(c, &cfg, &mut sel, &avail, setup, fees, fail)?;
        oracle(c, &seen, &mut sel)?;
        if let Ok(o) = &seen.outcome {
            avail = remaining(&seen.before, o);
        }
    }
    let h = c.trace_hash();
    let text: Vec<String> = c.trace_text().lines().filter(|l| !l.starts_with("available")).take(5).map(|l| l.chars().take(300).collect()).collect();
    c.sample(text.join(" | "));
    c.distinct(h);
    Ok(())
}

fn any_request(c: &mut Case, w: &mut World, a: &Avail, f: &Fees) -> Setup {
    match w.kind {
        Kind::Largest if c.rng.chance(1, 3) => raw_request(c, w, a, f),
        Kind::Single | Kind::Fee => balanced_request(c, w, f),
        _ => request(c, w, a, f),
    }
}

/// with plenty of everything the selection succeeds
fn plenty(c: &mut Case, kinds: &[Kind], oracle: Oracle) -> R {
    let kind = *c.rng.pick(kinds);
    let (w, us, setup, fees) = ample(c, kind)?;
    c.t(format!("{kind:?} {}", w.cfg));
    let avail = avail_of(us.clone())?;
    listed(c, &avail)?;
    let mut sel = common::guard("construction", || Sel::new(kind, &w.cfg, us, false))?.map_err(|e| format!("construction: {e:#}"))?;
    let seen = run(c, &w.cfg, &mut sel, &avail, setup, fees, None)?;
    if let Err(e) = &seen.outcome {
        return Err(format!("refused ({e}) with plenty of everything"));
    }
    c.count("plenty_sufficed", 1);
    oracle(c, &seen, &mut sel)?;
    let h = c.trace_hash();
    c.distinct(h);
    Ok(())
}

fn c54(c: &mut Case, s: &Seen, sel: &mut Sel) -> R {
    if matches!(sel, Sel::Single(_) | Sel::Fee(_)) {
        balancers(c, s, sel)?;
    }
    predicate(c, s)
}

fn main() {
    use Kind::*;
    let id = std::env::args().nth(1).unwrap_or_default();
    let r = Runner::new(&id, "a case is a history of up to 7 selections on one selector with random available outputs, requests, fee models, injected estimator failures and replacements; distinct = different histories");
    let cap = r.n(25, 280) as f64;
    macro_rules! phase {
        ($name:expr, $q:expr, $t:expr, $kinds:expr, $oracle:expr) => {
            r.phase($name, r.n($q, $t), 8, cap, |c| history(c, &$kinds, $oracle, any_request))
        };
    }
    match id.as_str() {
        "C50" => {
            phase!("largest-first", 72000, 2400000, [Largest], conserves);
            phase!("random-improve", 72000, 2400000, [Random], conserves);
            phase!("thermostat", 72000, 2400000, [Thermo], conserves);
            phase!("balancers", 36000, 600000, [Single, Fee], conserves);
            r.finish(&["results_reconciled", "refusals_left_inputs", "replacements", "estimator_faults", "inputs_chosen", "change_outputs"])
        }
        "C51" => {
            phase!("largest-first", 120000, 3000000, [Largest], covers);
            phase!("random-improve", 120000, 3000000, [Random], covers);
            phase!("thermostat", 72000, 1800000, [Thermo], covers);
            r.phase("plenty", r.n(72000, 1800000), 8, cap, |c| plenty(c, &[Largest, Random, Random, Thermo], covers));
            r.finish(&["coverages_checked", "coverages_with_assets", "refusals_justified", "plenty_sufficed"])
        }
        "C52" => {
            phase!("largest-first", 240000, 7200000, [Largest], largest_first);
            r.finish(&["choices_explained", "inputs_explained", "nothing_needed", "minimality_main", "minimality_asset"])
        }
        "C53" => {
            phase!("thermostat", 180000, 5400000, [Thermo], thermostat);
            r.phase("plenty", r.n(72000, 1800000), 8, cap, |c| plenty(c, &[Thermo], thermostat));
            r.finish(&["balanced_results", "changes_with_assets", "changes_compared_with_a_least_value", "results_with_several_changes", "results_without_change_address", "plenty_sufficed", "excess_split", "excess_kept_whole", "exact_fees", "spare_given_to_the_fee"])
        }
        "C54" => {
            phase!("balancers", 180000, 4800000, [Single, Fee], c54);
            phase!("predicate", 48000, 1200000, [Largest, Random, Thermo], c54);
            r.finish(&["fee_results", "fee_refusals", "change_results", "change_refusals_justified", "said_balanced", "said_unbalanced", "tampered_still_balanced", "tampered_told_apart", "tampered_assets_only"])
        }
        _ => panic!("unknown property {id}"),
    }
}
