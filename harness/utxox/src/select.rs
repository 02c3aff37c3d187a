//! the five strategies behind one interface, requests, and what every property observes of them
use crate::world::*;
use common::{ensure, guard, Case, Rng, R};
use dcspark_core::tx::{UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, TokenId, UTxOStore};
use std::collections::BTreeMap;
use utxo_selection::algorithms::*;
use utxo_selection::{InputSelectionAlgorithm, InputSelectionResult, UTxOStoreSupport};

pub type Outcome = InputSelectionResult<UTxODetails, UTxOBuilder>;
pub type Avail = BTreeMap<String, UTxODetails>;

pub fn key(p: &UtxoPointer) -> String {
    format!("{}#{}", p.transaction_id, p.output_index)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Largest,
    Random,
    Thermo,
    Single,
    Fee,
}

pub enum Sel {
    Largest(LargestFirst),
    Random(RandomImprove),
    Thermo(Thermostat),
    Single(SingleOutputChangeBalancer),
    Fee(FeeChangeBalancer),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Sel::Largest($x) => $e,
            Sel::Random($x) => $e,
            Sel::Thermo($x) => $e,
            Sel::Single($x) => $e,
            Sel::Fee($x) => $e,
        }
    };
}

pub fn store(us: &[UTxODetails]) -> anyhow::Result<UTxOStore> {
    let mut s = UTxOStore::new().thaw();
    for u in us {
        s.insert(u.clone())?;
    }
    Ok(s.freeze())
}

pub fn config(r: &mut Rng, s: &Scale) -> serde_json::Value {
    let max = (s.amount(r) / r.range(1, 20) as i128).max(0);
    let min = match r.below(3) {
        0 => 0,
        1 => max / 4,
        _ => max,
    };
    serde_json::json!({
        "num_accumulators": r.range(1, 5),
        "num_accumulators_assets": r.range(1, 5),
        "native_utxo_thermostat_min": min.to_string(),
        "native_utxo_thermostat_max": max.to_string(),
        "main_token": TokenId::MAIN.as_ref(),
    })
}

use deps::serde_json;

impl Sel {
    pub fn new(kind: Kind, cfg: &serde_json::Value, us: Vec<UTxODetails>, via_store: bool) -> anyhow::Result<Sel> {
        Ok(match kind {
            Kind::Largest if via_store => Sel::Largest(LargestFirst::try_from(store(&us)?)?),
            Kind::Largest => Sel::Largest(LargestFirst::try_from(us)?),
            Kind::Random if via_store => Sel::Random(RandomImprove::try_from(store(&us)?)?),
            Kind::Random => Sel::Random(RandomImprove::try_from(us)?),
            Kind::Thermo => {
                let mut s = Sel::Thermo(Thermostat::new(serde_json::from_value(cfg.clone())?));
                s.replace(us, via_store)?;
                s
            }
            Kind::Single => {
                let mut b = SingleOutputChangeBalancer::default();
                if let Some(e) = cfg["extra"].as_str() {
                    b.set_extra(e.to_string());
                }
                let mut s = Sel::Single(b);
                s.replace(us, via_store)?;
                s
            }
            Kind::Fee => {
                let mut s = Sel::Fee(FeeChangeBalancer::default());
                s.replace(us, via_store)?;
                s
            }
        })
    }
    pub fn replace(&mut self, us: Vec<UTxODetails>, via_store: bool) -> anyhow::Result<()> {
        if via_store {
            let st = store(&us)?;
            match self {
                Sel::Largest(x) => return x.set_available_utxos(st),
                Sel::Thermo(x) => return x.set_available_utxos(st),
                Sel::Single(x) => return x.set_available_utxos(st),
                Sel::Fee(x) => return x.set_available_utxos(st),
                Sel::Random(_) => {}
            }
        }
        each!(self, x => x.set_available_inputs(us))
    }
    pub fn select(&mut self, m: &mut Meter, setup: Setup) -> anyhow::Result<Outcome> {
        each!(self, x => x.select_inputs(m, setup))
    }
    pub fn available(&self) -> Vec<UTxODetails> {
        each!(self, x => x.available_inputs())
    }
    /// the store view of what is available, for the strategies that have one
    pub fn stored(&mut self) -> Option<anyhow::Result<UTxOStore>> {
        match self {
            Sel::Largest(x) => Some(x.get_available_utxos()),
            Sel::Thermo(x) => Some(x.get_available_utxos()),
            Sel::Single(x) => Some(x.get_available_utxos()),
            Sel::Fee(x) => Some(x.get_available_utxos()),
            Sel::Random(_) => None,
        }
    }
}

pub struct World {
    pub kind: Kind,
    pub scale: Scale,
    pub tokens: Vec<Token>,
    pub cfg: serde_json::Value,
    next: u64,
}

impl World {
    pub fn new(r: &mut Rng, kind: Kind) -> World {
        let scale = Scale::pick(r);
        // the thermostat works on whole units
        set_decimals(if kind == Kind::Thermo { 0 } else { *r.pick(&[0, 0, 0, 1, 6, 18]) });
        let n = r.range(0, 4);
        let mut w = World { kind, scale, tokens: tokens(r, n), cfg: config(r, &scale), next: 0 };
        if kind == Kind::Single && r.chance(1, 3) {
            w.cfg["extra"] = "datum".into();
        }
        w
    }
    /// now and then there are very many tokens
    pub fn crowd(&mut self, r: &mut Rng) {
        if self.kind != Kind::Largest && r.chance(1, 150) {
            let n = r.range(66, 100);
            self.tokens = tokens(r, n);
        }
    }
    pub fn fresh(&mut self, r: &mut Rng, tag: &str, most: usize) -> UTxODetails {
        self.next += 1;
        let most = if self.tokens.len() > 10 && r.chance(1, 4) { self.tokens.len() } else { most };
        let assets = some_assets(r, &self.tokens, most, &self.scale);
        let v = self.scale.amount(r);
        // the same transaction often has several outputs
        utxo(&format!("{tag}{}", self.next / 3), self.next % 3, v, assets)
    }
    pub fn batch(&mut self, r: &mut Rng) -> Vec<UTxODetails> {
        let n = match r.below(8) {
            0 => r.below(3),
            1 => r.range(10, 60),
            _ => r.range(1, 14),
        };
        // the thermostat only takes outputs of a single asset
        let most = if self.kind == Kind::Thermo && !r.chance(1, 6) { 1 } else { 3 };
        let same = r.chance(1, 6).then(|| self.scale.amount(r));
        (0..n)
            .map(|_| {
                let mut u = self.fresh(r, "tx", most);
                if let Some(v) = same {
                    u.value = val(v);
                }
                u
            })
            .collect()
    }
    pub fn fees(&self, r: &mut Rng) -> Fees {
        let mut f = Fees::pick(r, &self.scale);
        if self.kind == Kind::Thermo {
            // the model of the thermostat: a fixed cost per input and output
            f.input_asset = 0;
            f.output_asset = 0;
            f.digit = 0;
            f.min_output = *r.pick(&[0, 1, f.output, self.scale.top / 20]);
            f.input_size = r.range(1, 5);
            f.output_size = r.range(1, 5);
            f.max_size = *r.pick(&[0, 20, 60, 200, 100_000]);
        }
        f
    }
}

fn split(r: &mut Rng, total: i128, n: usize, even: bool) -> Vec<i128> {
    let mut left = total.max(0);
    let mut v = vec![];
    for k in 0..n {
        let x = if k + 1 == n {
            left
        } else if even {
            total.max(0) / n as i128
        } else {
            left * r.below(101) as i128 / 100
        };
        v.push(x);
        left -= x;
    }
    v
}

/// a request whose balances are those of its fixed inputs and outputs; usually possible to cover
pub fn request(c: &mut Case, w: &mut World, avail: &Avail, fees: &Fees) -> Setup {
    let r = &mut c.rng;
    let fixed_n = if r.chance(1, 3) { r.range(1, 2) } else { 0 };
    let fixed: Vec<UTxODetails> = (0..fixed_n).map(|_| w.fresh(r, "fixed", 2)).collect();
    let mut budget = Sums::new();
    for u in fixed.iter() {
        add(&mut budget, &u.value, &u.assets, 1).unwrap();
    }
    let mut picks: Vec<&UTxODetails> = avail.values().collect();
    r.shuffle(&mut picks);
    let k = match r.below(6) {
        0 => picks.len(),
        1 => 0,
        _ => r.below(picks.len().min(6) + 1),
    };
    for u in &picks[..k] {
        add(&mut budget, &u.value, &u.assets, 1).unwrap();
        *budget.entry(MAIN.into()).or_default() -= fees.of_input(u);
    }
    let n = if r.chance(1, 40) { r.range(5, 40) } else { r.below(5).min(r.below(5) + 1) };
    *budget.entry(MAIN.into()).or_default() -= fees.base + n as i128 * fees.output;
    let (num, den) = *r.pick(&[(1, 1), (1, 1), (1, 2), (9, 10), (1, 10), (21, 20), (3, 1)]);
    let tight = r.chance(1, 8) as i128;
    let even = r.chance(1, 3);
    let main = split(r, budget[MAIN] * num / den + tight, n, even);
    let mut per: Vec<Vec<(usize, i128)>> = vec![vec![]; n];
    for (t, tok) in w.tokens.iter().enumerate() {
        let have = budget.get(&tok.fp).copied().unwrap_or(0);
        let (want, holders) = match r.below(6) {
            0 | 1 => (0, 0),
            2 => (have, n),
            3 => (have + 1, n),
            _ => (have * num / den, n),
        };
        if holders == 0 || (want == 0 && !r.chance(1, 6)) {
            continue;
        }
        let holders = if even { n } else { r.range(0, n) };
        for (o, q) in split(r, want, holders, even).into_iter().enumerate() {
            if q > 1 && r.chance(1, 12) {
                // the same asset in two entries of one output
                per[o].push((t, q / 3));
                per[o].push((t, q - q / 3));
                continue;
            }
            per[o].push((t, q));
        }
    }
    let one_address = r.chance(1, 2);
    let outputs: Vec<UTxOBuilder> = (0..n)
        .map(|o| {
            let a = if one_address { "addr_to".to_string() } else { format!("addr_to{o}") };
            UTxOBuilder::new(Address::new(a), val(main[o]), per[o].iter().map(|(t, q)| asset(&w.tokens[*t], *q)).collect())
        })
        .collect();
    let change = (!r.chance(1, 6)).then(|| Address::new("addr_change".to_string()));
    Setup::from_fixed_inputs_and_outputs(fixed, outputs, change)
}

/// a request of balances only, as some callers make it
pub fn raw_request(c: &mut Case, w: &mut World, avail: &Avail, fees: &Fees) -> Setup {
    let mut s = request(c, w, avail, fees);
    s.fixed_inputs.clear();
    s.fixed_outputs.clear();
    s
}

/// counterpart of a balance for a balancer: exact, short, or in excess by little or much
pub fn balanced_request(c: &mut Case, w: &mut World, fees: &Fees) -> Setup {
    let ins: Vec<UTxODetails> = (0..c.rng.range(0, 3)).map(|_| w.fresh(&mut c.rng, "in", 3)).collect();
    let r = &mut c.rng;
    let mut sums = Sums::new();
    for u in &ins {
        add(&mut sums, &u.value, &u.assets, 1).unwrap();
    }
    let n = r.range(1, 3);
    let fee = fees.base + fees.input * ins.len() as i128 + fees.output * n as i128;
    let room = match r.below(7) {
        0 => fee,
        1 => fee + fees.output,
        2 => fee + fees.output + r.below(4) as i128,
        3 => fee + r.below(fees.output as usize + 2) as i128,
        4 => fee - 1,
        5 => fee + w.scale.amount(r),
        _ => r.below(3) as i128,
    };
    let main = sums.get(MAIN).copied().unwrap_or(0) - room;
    let main = split(r, main, n, false);
    let exact_assets = r.chance(2, 3);
    let mut outs: Vec<UTxOBuilder> =
        main.iter().map(|v| UTxOBuilder::new(Address::new("addr_to".to_string()), val(*v), vec![])).collect();
    for tok in &w.tokens {
        let have = sums.get(&tok.fp).copied().unwrap_or(0);
        let want = if exact_assets {
            have
        } else {
            match r.below(5) {
                0 => 0,
                1 => have,
                2 => have / 2,
                3 => have - (have > 0) as i128,
                _ => have + (have == 0 || r.chance(1, 2)) as i128,
            }
        };
        if want > 0 {
            for (o, q) in split(r, want, n, false).into_iter().enumerate() {
                if q > 0 {
                    outs[o].assets.push(asset(tok, q));
                }
            }
        }
    }
    let change = (!r.chance(1, 8)).then(|| Address::new("addr_change".to_string()));
    let mut s = Setup::from_fixed_inputs_and_outputs(ins, outs, change);
    if r.chance(1, 4) {
        s.fixed_inputs.clear();
        s.fixed_outputs.clear();
    }
    s
}

/// one selection and what was seen of it
pub struct Seen {
    pub setup: Setup,
    pub fees: Fees,
    pub before: Avail,
    pub outcome: Result<Outcome, String>,
    pub injected: bool,
    /// of the main token and of assets, for the thermostat
    pub accumulators: (u64, u64),
    pub thermostat_max: i128,
    /// what change outputs must carry
    pub extra: Option<String>,
    /// the inputs and outputs the estimator was told of in the end
    pub told: (Vec<UTxODetails>, Vec<UTxOBuilder>),
}

pub fn avail_of(us: Vec<UTxODetails>) -> Result<Avail, String> {
    let n = us.len();
    let m: Avail = us.into_iter().map(|u| (key(&u.pointer), u)).collect();
    ensure!(m.len() == n, "an output is available twice");
    Ok(m)
}

/// runs one selection; a panic is neither success nor failure and breaks every property
pub fn run(c: &mut Case, cfg: &serde_json::Value, sel: &mut Sel, avail: &Avail, setup: Setup, fees: Fees, fail_at: Option<u64>) -> Result<Seen, String> {
    describe(c, &setup, &fees);
    if let Some(n) = fail_at {
        c.t(format!("the estimator fails at its call {n}"));
    }
    let mut meter = Meter::new(&fees, &setup, fail_at);
    let s2 = setup.clone();
    let out = guard("select_inputs", || sel.select(&mut meter, s2))?;
    let outcome = out.map_err(|e| format!("{e:#}"));
    let injected = meter.failed();
    let thermostat_max = cfg["native_utxo_thermostat_max"].as_str().unwrap().parse().unwrap();
    let accumulators = (cfg["num_accumulators"].as_u64().unwrap(), cfg["num_accumulators_assets"].as_u64().unwrap());
    match &outcome {
        Ok(o) => c.t(format!(
            "chosen {:?} fee {} changes {:?}",
            o.chosen_inputs.iter().map(|u| format!("{} {}", key(&u.pointer), u.value.raw())).collect::<Vec<_>>(),
            o.fee.raw(),
            o.changes.iter().map(show).collect::<Vec<_>>()
        )),
        Err(e) => c.t(format!("refused: {e}")),
    }
    c.count(if outcome.is_ok() { "selections" } else { "refusals" }, 1);
    if injected {
        c.count("estimator_faults", 1);
    }
    if let Ok(o) = &outcome {
        c.count("inputs_chosen", o.chosen_inputs.len() as u64);
        c.count("change_outputs", o.changes.len() as u64);
    }
    Ok(Seen { setup, fees, before: avail.clone(), outcome, injected, accumulators, thermostat_max, extra: cfg["extra"].as_str().map(|e| e.to_string()), told: (meter.inputs, meter.outputs) })
}

pub fn show(o: &UTxOBuilder) -> String {
    format!("{}{:?}", o.value.raw(), o.assets.iter().map(|a| (a.fingerprint.as_ref(), a.quantity.raw().to_string())).collect::<Vec<_>>())
}

/// the listing of available outputs without the chosen ones, for the model to go on with
pub fn remaining(before: &Avail, o: &Outcome) -> Avail {
    let mut a = before.clone();
    for u in &o.chosen_inputs {
        a.remove(&key(&u.pointer));
    }
    a
}

pub fn sums_in(setup: &Setup) -> Result<Sums, String> {
    sums_of(&setup.input_balance, &setup.input_asset_balance)
}
pub fn sums_out(setup: &Setup) -> Result<Sums, String> {
    sums_of(&setup.output_balance, &setup.output_asset_balance)
}

pub fn listed(c: &mut Case, us: &Avail) -> R {
    for u in us.values() {
        c.t(format!(
            "available {} {} {:?}",
            key(&u.pointer),
            u.value.raw(),
            u.assets.iter().map(|a| (a.fingerprint.as_ref(), a.quantity.raw().to_string())).collect::<Vec<_>>()
        ));
    }
    Ok(())
}

/// A request and available outputs of which each alone covers everything it is relevant for,
/// more of them than there are things to cover: no strategy has a reason to refuse.
pub fn ample(c: &mut Case, kind: Kind) -> Result<(World, Vec<UTxODetails>, Setup, Fees), String> {
    let mut w = World::new(&mut c.rng, kind);
    let fees = w.fees(&mut c.rng);
    let r = &mut c.rng;
    let n = r.range(1, 4);
    let mut total = Sums::new();
    let outputs: Vec<UTxOBuilder> = (0..n)
        .map(|o| {
            let o = UTxOBuilder::new(Address::new(format!("addr_to{o}")), val(w.scale.amount(r).max(1)), some_assets(r, &w.tokens, 3, &w.scale));
            add(&mut total, &o.value, &o.assets, 1).unwrap();
            o
        })
        .collect();
    let t = w.tokens.len() as i128;
    let held = w.cfg["native_utxo_thermostat_max"].as_str().unwrap().parse::<i128>().unwrap();
    let costs = fees.base + 60 * fees.input + 60 * fees.input_asset + 30 * (fees.output + fees.output_asset + 20 * fees.digit);
    let all = total[MAIN] + costs + (t + 2) * 2 * (fees.min_output + held) + 1;
    let mut us = vec![];
    let mut id = 0;
    let mut push = |r: &mut Rng, w: &World, with: &[usize], us: &mut Vec<UTxODetails>| {
        let assets = with
            .iter()
            .map(|i| {
                let tok = &w.tokens[*i];
                asset(tok, total.get(&tok.fp).copied().unwrap_or(0) + w.scale.amount(r) + 1)
            })
            .collect();
        id += 1;
        us.push(utxo(&format!("tx{}", id / 3), id % 3, all + w.scale.amount(r), assets));
    };
    let enough = n * (w.tokens.len() + 1) + 1;
    if kind == Kind::Thermo {
        for i in 0..w.tokens.len() {
            for _ in 0..r.range(1, 8) {
                push(r, &w, &[i], &mut us);
            }
        }
        for _ in 0..r.range(1, 12) {
            push(r, &w, &[], &mut us);
        }
    } else {
        for _ in 0..enough + r.below(6) {
            let every: Vec<usize> = (0..w.tokens.len()).collect();
            push(r, &w, &every, &mut us);
        }
        for _ in 0..r.below(6) {
            let some: Vec<usize> = (0..w.tokens.len()).filter(|_| r.chance(1, 2)).collect();
            push(r, &w, &some, &mut us);
        }
    }
    r.shuffle(&mut us);
    w.scale.top = all;
    let change = Some(Address::new("addr_change".to_string()));
    let setup = Setup::from_fixed_inputs_and_outputs(vec![], outputs, change);
    Ok((w, us, setup, fees))
}
