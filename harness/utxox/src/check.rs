//! oracles over observed selections; amounts are recomputed in plain integers
use crate::select::*;
use crate::world::*;
use common::{ensure, guard, Case, R};
use std::collections::BTreeSet;

/// what one observed selection of a history is checked for
pub type Oracle = fn(&mut Case, &Seen, &mut Sel) -> R;

fn get(s: &Sums, k: &str) -> i128 {
    s.get(k).copied().unwrap_or(0)
}

/// C50: conservation
pub fn conserves(c: &mut Case, s: &Seen, sel: &mut Sel) -> R {
    let after = avail_of(guard("available_inputs", || sel.available())?)?;
    if let Some(st) = guard("get_available_utxos", || sel.stored())? {
        let st = st.map_err(|e| format!("get_available_utxos: {e:#}"))?;
        let st = avail_of(st.iter().map(|(_, u)| u.as_ref().clone()).collect())?;
        ensure!(st == after, "the store of available outputs differs from the list of them");
    }
    c.evals(1);
    let o = match &s.outcome {
        Err(e) => {
            ensure!(after == s.before, "the refused selection ({e}) changed what is available from {} to {} outputs", s.before.len(), after.len());
            c.count("refusals_left_inputs", 1);
            return Ok(());
        }
        Ok(o) => o,
    };
    let mut seen = BTreeSet::new();
    for u in &o.chosen_inputs {
        let k = key(&u.pointer);
        ensure!(s.before.get(&k) == Some(u), "chosen input {k} was not available");
        ensure!(seen.insert(k.clone()), "input {k} is chosen twice");
    }
    let want = remaining(&s.before, o);
    ensure!(
        after == want,
        "after choosing {} of {} outputs {} are available; lost {:?}, kept {:?}",
        seen.len(),
        s.before.len(),
        after.len(),
        want.keys().filter(|k| !after.contains_key(*k)).collect::<Vec<_>>(),
        after.keys().filter(|k| !want.contains_key(*k)).collect::<Vec<_>>()
    );
    ensure!(o.fixed_inputs == s.setup.fixed_inputs, "fixed inputs came back changed");
    ensure!(o.fixed_outputs == s.setup.fixed_outputs, "fixed outputs came back changed");
    let mut ins = sums_in(&s.setup)?;
    for u in &o.chosen_inputs {
        add(&mut ins, &u.value, &u.assets, 1)?;
    }
    let mut outs = sums_out(&s.setup)?;
    for u in &o.changes {
        add(&mut outs, &u.value, &u.assets, 1)?;
    }
    let got = sums_of(&o.input_balance, &o.input_asset_balance)?;
    ensure!(same(&got, &ins), "reported input balance {got:?}, the inputs amount to {ins:?}");
    let got = sums_of(&o.output_balance, &o.output_asset_balance)?;
    ensure!(same(&got, &outs), "reported output balance {got:?}, the outputs amount to {outs:?}");
    let least = least_fee(s, o)?;
    let fee = int(&o.fee)?;
    ensure!(fee >= least, "fee {fee} is below the minimum {least} of the chosen transaction");
    // a balancer that goes on with the same estimator must find it at this transaction
    let text = |v: &mut dyn Iterator<Item = String>| {
        let mut v: Vec<String> = v.collect();
        v.sort();
        v
    };
    let told = text(&mut s.told.0.iter().map(|u| format!("{u:?}")));
    let has = text(&mut o.fixed_inputs.iter().chain(&o.chosen_inputs).map(|u| format!("{u:?}")));
    ensure!(told == has, "the estimator was told of inputs {told:?}, the transaction has {has:?}");
    let told = text(&mut s.told.1.iter().map(|u| format!("{u:?}")));
    let has = text(&mut o.fixed_outputs.iter().chain(&o.changes).map(|u| format!("{u:?}")));
    // the thermostat goes on changing the outputs it has told
    let same = if matches!(sel, Sel::Thermo(_)) { told.len() == has.len() } else { told == has };
    ensure!(same, "the estimator was told of outputs {told:?}, the transaction has {has:?}");
    c.count("results_reconciled", 1);
    Ok(())
}

pub fn least_fee(s: &Seen, o: &Outcome) -> Result<i128, String> {
    s.fees.of_tx(o.fixed_inputs.iter().chain(&o.chosen_inputs), o.fixed_outputs.iter().chain(&o.changes))
}

/// C51: coverage
pub fn covers(c: &mut Case, s: &Seen, sel: &mut Sel) -> R {
    c.evals(1);
    let start = sums_in(&s.setup)?;
    let out = sums_out(&s.setup)?;
    match &s.outcome {
        Ok(o) => {
            let mut have = start;
            for u in &o.chosen_inputs {
                add(&mut have, &u.value, &u.assets, 1)?;
            }
            let mut need = out;
            for u in &o.changes {
                add(&mut need, &u.value, &u.assets, 1)?;
            }
            // the fee: the reported one, and no less than the estimator asks for this transaction
            *need.entry(MAIN.into()).or_default() += int(&o.fee)?.max(least_fee(s, o)?);
            for (k, n) in &need {
                ensure!(get(&have, k) >= *n, "success, but of {:?} the inputs have {} and the outputs{} need {n}", k, get(&have, k), if k.is_empty() { " and fee" } else { "" });
            }
            // and by the balances it reports
            let have = sums_of(&o.input_balance, &o.input_asset_balance)?;
            let mut need = sums_of(&o.output_balance, &o.output_asset_balance)?;
            *need.entry(MAIN.into()).or_default() += int(&o.fee)?;
            for (k, n) in &need {
                ensure!(get(&have, k) >= *n, "success, but the reported balance of {k:?} is {} for {n}", get(&have, k));
            }
            c.count("coverages_checked", 1);
            if need.len() > 1 {
                c.count("coverages_with_assets", 1);
            }
        }
        Err(e) => {
            if let (Sel::Largest(_), false) = (&*sel, s.injected) {
                // everything together must fall short of something
                let mut have = start;
                let mut fee = s.fees.of_tx(s.setup.fixed_inputs.iter(), s.setup.fixed_outputs.iter())?;
                for u in s.before.values() {
                    add(&mut have, &u.value, &u.assets, 1)?;
                    fee += s.fees.of_input(u);
                }
                let mut need = out;
                *need.entry(MAIN.into()).or_default() += fee;
                ensure!(
                    need.iter().any(|(k, n)| get(&have, k) < *n),
                    "refused ({e}) although all available inputs together, {have:?}, cover {need:?}"
                );
                c.count("refusals_justified", 1);
            }
        }
    }
    Ok(())
}

/// C52: order and number of the inputs largest-first takes
pub fn largest_first(c: &mut Case, s: &Seen, _sel: &mut Sel) -> R {
    c.evals(1);
    let o = match &s.outcome {
        Ok(o) => o,
        Err(_) => return Ok(()),
    };
    let start = sums_in(&s.setup)?;
    let out = sums_out(&s.setup)?;
    let assets: Vec<&String> = out.iter().filter(|(k, n)| !k.is_empty() && **n > get(&start, k)).map(|(k, _)| k).collect();
    // the order in which requested assets are served is not specified: some order must explain it
    let mut orders = vec![];
    permute(&mut assets.clone(), 0, &mut orders);
    let mut why = String::new();
    if !orders.iter().any(|order| match explains(s, o, order) {
        Ok(()) => true,
        Err(e) => {
            why = e;
            false
        }
    }) {
        return Err(format!("{why} (no order of the requested assets explains the choice)"));
    }
    c.count("choices_explained", 1);
    c.count("inputs_explained", o.chosen_inputs.len() as u64);
    if o.chosen_inputs.is_empty() {
        c.count("nothing_needed", 1);
    }
    // a single target: no smaller choice exists among all subsets
    let flat = s.fees.input_asset == 0;
    let n = o.chosen_inputs.len();
    if flat && assets.is_empty() && n > 0 && s.before.len() <= 9 {
        let base = s.fees.of_tx(s.setup.fixed_inputs.iter(), s.setup.fixed_outputs.iter())?;
        let vals: Vec<i128> = s.before.values().map(|u| int(&u.value)).collect::<Result<_, _>>()?;
        for mask in 0u32..1 << vals.len() {
            let k = mask.count_ones() as usize;
            if k < n {
                let sum: i128 = (0..vals.len()).filter(|i| mask >> i & 1 == 1).map(|i| vals[i]).sum();
                ensure!(
                    get(&start, MAIN) + sum < get(&out, MAIN) + base + k as i128 * s.fees.input,
                    "{n} inputs chosen for the main token where {k} suffice"
                );
            }
        }
        c.count("minimality_main", 1);
    }
    if assets.len() == 1 && n > 0 && s.before.len() <= 9 {
        let t = assets[0];
        let amounts: Vec<i128> = s.before.values().map(|u| amount(u, t)).collect::<Result<_, _>>()?;
        let mut need = get(&out, t) - get(&start, t);
        let mut used = 0;
        for u in &o.chosen_inputs {
            if need > 0 {
                used += 1;
                need -= amount(u, t)?;
            }
        }
        for mask in 0u32..1 << amounts.len() {
            if (mask.count_ones() as usize) < used {
                let sum: i128 = (0..amounts.len()).filter(|i| mask >> i & 1 == 1).map(|i| amounts[i]).sum();
                ensure!(sum < get(&out, t) - get(&start, t), "{used} inputs taken for {t} where {} suffice", mask.count_ones());
            }
        }
        c.count("minimality_asset", 1);
    }
    Ok(())
}

fn permute<'a>(v: &mut Vec<&'a String>, k: usize, out: &mut Vec<Vec<&'a String>>) {
    if k >= v.len() {
        out.push(v.clone());
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        permute(v, k + 1, out);
        v.swap(k, i);
    }
}

fn amount(u: &dcspark_core::tx::UTxODetails, t: &str) -> Result<i128, String> {
    if t.is_empty() {
        return int(&u.value);
    }
    let mut n = 0;
    for a in &u.assets {
        if a.fingerprint.as_ref() == t {
            n += int(&a.quantity)?;
        }
    }
    Ok(n)
}

fn explains(s: &Seen, o: &Outcome, order: &[&String]) -> R {
    let mut have = sums_in(&s.setup)?;
    let out = sums_out(&s.setup)?;
    let mut fee = s.fees.of_tx(s.setup.fixed_inputs.iter(), s.setup.fixed_outputs.iter())?;
    let mut left = s.before.clone();
    let mut chosen = o.chosen_inputs.iter();
    let mut taken = 0;
    for t in order.iter().map(|t| t.as_str()).chain([MAIN]) {
        loop {
            let need = get(&out, t) + if t.is_empty() { fee } else { 0 };
            if get(&have, t) >= need {
                break;
            }
            let u = chosen.next().ok_or_else(|| format!("stopped after {taken} inputs with {} of {t:?} for {need}", get(&have, t)))?;
            taken += 1;
            let mut most = 0;
            for v in left.values() {
                most = most.max(amount(v, t)?);
            }
            let got = amount(u, t)?;
            if got < most {
                return Err(format!("input {taken} for {t:?} has {got} of it, another available one has {most}"));
            }
            left.remove(&key(&u.pointer));
            add(&mut have, &u.value, &u.assets, 1)?;
            fee += s.fees.of_input(u);
        }
    }
    match chosen.next() {
        None => Ok(()),
        Some(u) => Err(format!("{} chosen although everything was covered", key(&u.pointer))),
    }
}

fn reconcile(s: &Seen, o: &Outcome) -> Result<Sums, String> {
    // the result's own inputs and outputs, nothing else
    let mut left = Sums::new();
    if s.setup.fixed_inputs.is_empty() && s.setup.fixed_outputs.is_empty() {
        left = sums_in(&s.setup)?;
        for (k, n) in sums_out(&s.setup)? {
            *left.entry(k).or_default() -= n;
        }
    }
    for u in o.fixed_inputs.iter().chain(&o.chosen_inputs) {
        add(&mut left, &u.value, &u.assets, 1)?;
    }
    for u in o.fixed_outputs.iter().chain(&o.changes) {
        add(&mut left, &u.value, &u.assets, -1)?;
    }
    *left.entry(MAIN.into()).or_default() -= int(&o.fee)?;
    Ok(left)
}

fn is_balanced(c: &mut Case, s: &Seen, o: &Outcome) -> R {
    let left = reconcile(s, o)?;
    ensure!(left.values().all(|n| *n == 0), "not balanced: left over {left:?}");
    let a = sums_of(&o.input_balance, &o.input_asset_balance)?;
    let mut b = sums_of(&o.output_balance, &o.output_asset_balance)?;
    *b.entry(MAIN.into()).or_default() += int(&o.fee)?;
    ensure!(same(&a, &b), "reported balances are not balanced: in {a:?}, out with fee {b:?}");
    c.count("balanced_results", 1);
    Ok(())
}

fn changes_sound(c: &mut Case, s: &Seen, o: &Outcome) -> R {
    for ch in &o.changes {
        let v = int(&ch.value)?;
        ensure!(v >= 0, "a change output has value {v}");
        for a in &ch.assets {
            ensure!(int(&a.quantity)? >= 0, "a change output has {} of {}", a.quantity.raw(), a.fingerprint);
        }
        ensure!(Some(&ch.address) == s.setup.change_address.as_ref(), "a change goes to {:?} instead of {:?}", ch.address, s.setup.change_address);
        c.count("changes_checked", 1);
        if !ch.assets.is_empty() {
            c.count("changes_with_assets", 1);
        }
    }
    Ok(())
}

/// C53: thermostat
pub fn thermostat(c: &mut Case, s: &Seen, sel: &mut Sel) -> R {
    c.evals(1);
    let o = match &s.outcome {
        Ok(o) => o,
        Err(_) => return Ok(()),
    };
    is_balanced(c, s, o)?;
    changes_sound(c, s, o)?;
    let (fee, least) = (int(&o.fee)?, least_fee(s, o)?);
    ensure!(fee >= least, "fee {fee} is below the minimum {least} of the transaction");
    // what goes to the fee beyond that is less than another change output takes
    let spare = fee - least;
    ensure!(
        spare == 0 || s.setup.change_address.is_some() && spare < s.fees.min_output + s.fees.output,
        "{spare} more than the minimum fee {least} is given away where a change output takes {} and costs {}",
        s.fees.min_output,
        s.fees.output
    );
    c.count(if spare > 0 { "spare_given_to_the_fee" } else { "exact_fees" }, 1);
    for ch in &o.changes {
        // the thermostat caps the main token beside an asset
        let min = if ch.assets.is_empty() { s.fees.min_output } else { s.fees.min_output.min(s.thermostat_max) };
        ensure!(int(&ch.value)? >= min, "a change output holds {} where an output needs {min} (assets: {})", ch.value.raw(), ch.assets.len());
        c.count(if min > 0 { "changes_compared_with_a_least_value" } else { "changes_without_a_least_value" }, 1);
    }
    distributed(c, s, o, sel)?;
    if s.setup.change_address.is_none() {
        c.count("results_without_change_address", 1);
        ensure!(o.changes.is_empty(), "changes without a change address");
    }
    let split = o.changes.len() > 1;
    c.count(if split { "results_with_several_changes" } else { "results_with_few_changes" }, 1);
    Ok(())
}

/// An excess larger than the share of one accumulator comes back in two parts of which none is
/// much larger than the other, a smaller one in one part.
fn distributed(c: &mut Case, s: &Seen, o: &Outcome, sel: &Sel) -> R {
    let Sel::Thermo(_) = sel else { return Ok(()) };
    let mut left = Sums::new();
    for u in remaining(&s.before, o).values() {
        add(&mut left, &u.value, &u.assets, 1)?;
    }
    let mut by: std::collections::BTreeMap<String, Vec<i128>> = Default::default();
    let mut mains: std::collections::BTreeMap<String, Vec<i128>> = Default::default();
    for ch in &o.changes {
        ensure!(ch.assets.len() <= 1, "a change output holds {} assets", ch.assets.len());
        let (k, q) = match ch.assets.first() {
            Some(a) => (a.fingerprint.as_ref().to_string(), int(&a.quantity)?),
            None => (MAIN.to_string(), int(&ch.value)?),
        };
        by.entry(k.clone()).or_default().push(q);
        mains.entry(k).or_default().push(int(&ch.value)?);
    }
    for (k, parts) in &by {
        ensure!(parts.len() <= 2, "the change of {k:?} comes in {} parts", parts.len());
        let Some(rest) = left.get(k).filter(|n| **n > 0) else { continue };
        let n = if k.is_empty() { s.accumulators.0 } else { s.accumulators.1 } as i128;
        let whole: i128 = parts.iter().sum::<i128>() + if k.is_empty() && parts.len() == 2 { s.fees.output } else { 0 };
        let main: i128 = mains[k].iter().sum::<i128>() + if parts.len() == 2 { s.fees.output } else { 0 };
        let compared = if k.is_empty() { whole - s.fees.output } else { whole };
        if compared * n > rest + whole {
            // two parts, if each can pay for itself and holds enough
            if main / 2 > s.fees.output && (main - s.fees.output) / 2 > s.fees.min_output + 1 {
                ensure!(parts.len() == 2, "a change of {whole} of {k:?}, with {rest} left and {n} accumulators, comes in one part");
                c.count("excess_split", 1);
            }
        } else {
            ensure!(parts.len() == 1, "a change of {whole} of {k:?}, with {rest} left and {n} accumulators, comes in parts {parts:?}");
            c.count("excess_kept_whole", 1);
        }
        if let [a, b] = parts[..] {
            ensure!((a - b).abs() <= 1 + if k.is_empty() { s.fees.output } else { 0 }, "the parts of the change of {k:?} are {parts:?}");
        }
    }
    Ok(())
}

/// C54: single change output, or everything into the fee
pub fn balancers(c: &mut Case, s: &Seen, sel: &mut Sel) -> R {
    c.evals(1);
    let start = sums_in(&s.setup)?;
    let mut left = start.clone();
    for (k, n) in sums_out(&s.setup)? {
        *left.entry(k).or_default() -= n;
    }
    let least = s.fees.of_tx(s.setup.fixed_inputs.iter(), s.setup.fixed_outputs.iter())?;
    let main = get(&left, MAIN);
    let assets: Vec<(&String, i128)> = left.iter().filter(|(k, n)| !k.is_empty() && **n != 0).map(|(k, n)| (k, *n)).collect();
    let short = assets.iter().any(|(_, n)| *n < 0);
    if s.injected {
        ensure!(s.outcome.is_err(), "succeeded although the fee estimator failed");
        return Ok(());
    }
    match sel {
        Sel::Fee(_) => {
            let can = assets.is_empty() && main >= least;
            ensure!(
                s.outcome.is_ok() == can,
                "balancing into the fee {}: main token {main} over, minimum fee {least}, assets {assets:?} over",
                if can { "refused" } else { "accepted" }
            );
            if let Ok(o) = &s.outcome {
                ensure!(int(&o.fee)? == main, "fee {} for a difference of {main}", o.fee.raw());
                ensure!(o.changes.is_empty() && o.chosen_inputs.is_empty(), "inputs or changes were added");
                is_balanced(c, s, o)?;
                c.count("fee_results", 1);
            } else {
                c.count("fee_refusals", 1);
            }
        }
        _ => {
            if let Ok(o) = &s.outcome {
                ensure!(!short, "accepted with assets short: {assets:?}");
                ensure!(s.setup.change_address.is_some(), "accepted without a change address");
                ensure!(o.chosen_inputs.is_empty(), "inputs were added");
                ensure!(o.changes.len() == 1, "{} change outputs", o.changes.len());
                let ch = &o.changes[0];
                ensure!(ch.extra == s.extra, "the change output carries {:?}, set is {:?}", ch.extra, s.extra);
                ensure!(int(&ch.value)? >= 0, "the change output has value {}", ch.value.raw());
                let fee = int(&o.fee)?;
                let all = s.fees.of_tx(s.setup.fixed_inputs.iter(), s.setup.fixed_outputs.iter().chain([ch]))?;
                ensure!(fee >= all, "fee {fee} is below the minimum {all} with the change output");
                if s.fees.digit == 0 {
                    ensure!(fee == all, "fee {fee}, the fee with the change output is {all}");
                }
                ensure!(int(&ch.value)? == main - fee, "change {} where {main} less the fee {fee} is over", ch.value.raw());
                let mut got = Sums::new();
                add(&mut got, &ch.value, &ch.assets, 1)?;
                got.remove(MAIN);
                let want: Sums = assets.iter().map(|(k, n)| (k.to_string(), *n)).collect();
                ensure!(same(&got, &want), "change assets {got:?}, in excess are {want:?}");
                changes_sound(c, s, o)?;
                is_balanced(c, s, o)?;
                c.count("change_results", 1);
            } else if s.setup.change_address.is_some() && !short && s.fees.digit == 0 {
                let cost = least + s.fees.output + s.fees.output_asset * assets.len() as i128;
                ensure!(main < cost, "refused although {main} is over, minimum fee with the change output {cost}");
                c.count("change_refusals_justified", 1);
            }
        }
    }
    Ok(())
}

/// part of C54: the result's own account of being balanced
pub fn predicate(c: &mut Case, s: &Seen) -> R {
    if let Ok(o) = &s.outcome {
        let a = sums_of(&o.input_balance, &o.input_asset_balance)?;
        let mut b = sums_of(&o.output_balance, &o.output_asset_balance)?;
        *b.entry(MAIN.into()).or_default() += int(&o.fee)?;
        let want = same(&a, &b);
        let got = guard("is_balanced", || o.is_balanced())?;
        ensure!(got == want, "is_balanced says {got}: in {a:?}, out with fee {b:?}");
        if !s.setup.fixed_inputs.is_empty() || !s.setup.fixed_outputs.is_empty() {
            let utxos = want && reconcile(s, o)?.values().all(|n| *n == 0);
            let got = guard("are_utxos_balanced", || o.are_utxos_balanced())?;
            ensure!(got == utxos, "are_utxos_balanced says {got}: in {a:?}, out with fee {b:?}");
        }
        c.count(if want { "said_balanced" } else { "said_unbalanced" }, 1);
        tampered(c, s, o)?;
    }
    Ok(())
}

/// the same result with something left out, altered or added in one place: the two
/// predicates have to follow what is listed
fn tampered(c: &mut Case, s: &Seen, o: &Outcome) -> R {
    if s.setup.fixed_inputs.is_empty() && s.setup.fixed_outputs.is_empty() {
        return Ok(());
    }
    let bump = |v: &dcspark_core::Value<dcspark_core::Regulated>, r: &mut common::Rng| match r.below(3) {
        0 => v + &val(1),
        1 => v + &val(r.range64(1, 5_000_000) as i128),
        _ => val(0),
    };
    for _ in 0..3 {
        let mut t = o.clone();
        let r = &mut c.rng;
        let what = r.below(8);
        match what {
            0 => {
                let l = if r.chance(1, 2) { &mut t.chosen_inputs } else { &mut t.fixed_inputs };
                if l.is_empty() {
                    continue;
                }
                l.remove(r.below(l.len()));
            }
            1 => {
                let l = if r.chance(1, 2) { &mut t.changes } else { &mut t.fixed_outputs };
                if l.is_empty() {
                    continue;
                }
                l.remove(r.below(l.len()));
            }
            2 | 3 => {
                let l = if r.chance(1, 2) { &mut t.chosen_inputs } else { &mut t.fixed_inputs };
                if l.is_empty() {
                    continue;
                }
                let k = r.below(l.len());
                if what == 3 && !l[k].assets.is_empty() {
                    let a = r.below(l[k].assets.len());
                    l[k].assets[a].quantity = bump(&l[k].assets[a].quantity, r);
                } else {
                    l[k].value = bump(&l[k].value, r);
                }
            }
            4 | 5 => {
                let l = if r.chance(1, 2) { &mut t.changes } else { &mut t.fixed_outputs };
                if l.is_empty() {
                    continue;
                }
                let k = r.below(l.len());
                if what == 5 && !l[k].assets.is_empty() {
                    let a = r.below(l[k].assets.len());
                    l[k].assets[a].quantity = bump(&l[k].assets[a].quantity, r);
                } else {
                    l[k].value = bump(&l[k].value, r);
                }
            }
            6 => {
                // the last place: two alterations that cancel, or do not
                let (Some(a), Some(b)) = (t.fixed_inputs.first_mut().or(t.chosen_inputs.first_mut()), t.changes.first_mut().or(t.fixed_outputs.first_mut())) else {
                    continue;
                };
                let n = r.range64(1, 1000);
                a.value = &a.value + &val(n as i128);
                b.value = &b.value + &val(if r.chance(1, 2) { n } else { n + 1 } as i128);
            }
            _ => t.fee = bump(&t.fee, r),
        }
        let a = sums_of(&t.input_balance, &t.input_asset_balance)?;
        let mut b = sums_of(&t.output_balance, &t.output_asset_balance)?;
        *b.entry(MAIN.into()).or_default() += int(&t.fee)?;
        let want = same(&a, &b);
        let got = guard("is_balanced", || t.is_balanced())?;
        ensure!(got == want, "tampered ({what}): is_balanced says {got}: in {a:?}, out with fee {b:?}");
        let left = reconcile(s, &t)?;
        let utxos = want && left.values().all(|n| *n == 0);
        let got = guard("are_utxos_balanced", || t.are_utxos_balanced())?;
        ensure!(got == utxos, "tampered ({what}): are_utxos_balanced says {got}; over {left:?}, in {a:?}, out with fee {b:?}");
        c.count(if utxos { "tampered_still_balanced" } else { "tampered_told_apart" }, 1);
        if want && !utxos {
            let only_assets = left.get(MAIN).copied().unwrap_or(0) == 0;
            c.count(if only_assets { "tampered_assets_only" } else { "tampered_listed_only" }, 1);
        }
    }
    Ok(())
}
