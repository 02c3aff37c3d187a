//! C67: what the fee estimators say of a transaction, against its size as the ledger has it
use crate::model::*;
use crate::translate::{extra, extra_text, ledger_output};
use cardano_multiplatform_lib::builders::tx_builder::{TransactionBuilder, TransactionBuilderConfigBuilder};
use cardano_multiplatform_lib::ledger::alonzo::fees::LinearFee;
use cardano_multiplatform_lib::ledger::common::value::BigNum;
use cardano_utils::multisig_plan::MultisigPlan;
use cardano_utils::network_id::NetworkInfo;
use cardano_utils::payment_credentials::CardanoPaymentCredentials as Creds;
use common::{ensure, ensure_eq, guard, Case, Rng, R};
use dcspark_core::tx::{UTxOBuilder, UTxODetails};
use dcspark_core::{Address, Regulated, UTxOStore, Value};
use deps::bigdecimal::ToPrimitive;
use deps::serde_json;
use std::collections::{BTreeMap, BTreeSet};
use utxo_selection::algorithms::*;
use utxo_selection::estimators::{CmlFeeEstimator, ThermostatFeeEstimator};
use utxo_selection::{InputOutputSetup, InputSelectionAlgorithm, InputSelectionResult, TransactionFeeEstimator};

type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
type Outcome = InputSelectionResult<UTxODetails, UTxOBuilder>;

fn num(v: &Value<Regulated>) -> Result<u128, String> {
    ensure!(v == &v.truncate(), "{v} is no whole amount");
    v.to_u128().ok_or(format!("{v} is no amount"))
}

fn say<T>(what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, String> {
    guard(what, f)?.map_err(|e| format!("{what} failed: {e:#}"))
}

struct Net {
    info: NetworkInfo,
    coefficient: u64,
    constant: u64,
    max_size: usize,
    id: u8,
    magic: u32,
    /// coins per byte of output, pool deposit, key deposit, largest value
    others: (u64, u64, u64, u32),
}

fn net(r: &mut Rng) -> Net {
    if r.chance(1, 2) {
        let (info, id, magic) = if r.chance(1, 2) { (NetworkInfo::Mainnet, 1, 764824073) } else { (NetworkInfo::Testnet, 0, 1097911063) };
        return Net { info, coefficient: 44, constant: 155381, max_size: 16384, id, magic, others: (4310, 500_000_000, 2_000_000, 5000) };
    }
    let coefficient = *r.pick(&[1, 2, 44, 300, 100_000]);
    let constant = *r.pick(&[0, 1, 155381, 10_000_000]);
    let max_size = *r.pick(&[2000, 4000, 16384, 80_000]);
    let (id, magic) = (r.below(2) as u8, r.skewed(32) as u32);
    let (word, pool, key, value) = (*r.pick(&[8, 800, 34480, 1 << 40]), r.skewed(64), r.skewed(64), *r.pick(&[1, 5000, 1 << 31]));
    let text = format!(
        "{{\"custom\":{{\"protocol_magic\":{magic},\"network_id\":{id},\"linear_fee_coefficient\":\"{coefficient}\",\"linear_fee_constant\":\"{constant}\",\"coins_per_utxo_word\":\"{word}\",\"pool_deposit\":\"{pool}\",\"key_deposit\":\"{key}\",\"max_value_size\":{value},\"max_tx_size\":{max_size}}}}}"
    );
    Net { info: serde_json::from_str(&text).unwrap(), coefficient, constant, max_size, id, magic, others: (word / 8, pool, key, value) }
}

impl Net {
    fn fee(&self, size: usize) -> u128 {
        self.coefficient as u128 * size as u128 + self.constant as u128
    }
}

fn plan(r: &mut Rng) -> (MultisigPlan, u64, Vec<Vec<u8>>) {
    let n = if r.chance(1, 40) { r.range(200, 400) } else { *r.pick(&[1, 2, 3, 5, 23, 24, 30]) };
    let keys: Vec<Vec<u8>> = (0..n).map(|_| bytes(r, 28)).collect();
    let quorum = r.range(1, n) as u64;
    let text = format!("{{\"quorum\":{quorum},\"keys\":[{}]}}", keys.iter().map(|k| format!("\"{}\"", hex::encode(k))).collect::<Vec<_>>().join(","));
    (serde_json::from_str(&text).unwrap(), quorum, keys)
}

/// an output as the assumed sizes allow: a base address and one asset at most
fn plain_out(r: &mut Rng, ps: &[Vec<u8>], ns: &[Vec<u8>]) -> Out {
    let assets = if r.chance(1, 2) { vec![asset(r, ps, ns)] } else { vec![] };
    Out { address: base_address(r), coin: r.skewed(64), assets }
}

/// what one more asset output of the ledger needs at least
fn least_value(o: &Out, per_byte: u64) -> u128 {
    let mut coin = 0u64;
    loop {
        let size = size_of_output(&Out { coin, assets: vec![], ..o.clone() });
        let min = (size as u64 + 160) * per_byte;
        if min <= coin {
            return min as u128;
        }
        coin = min;
    }
}

/// an output with a datum or a script for reference: what it needs at least, and what it costs
fn with_extra(c: &mut Case, e: &mut impl TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>, coefficient: Option<u64>, o: &Out, per_byte: u64) -> R {
    let x = extra(&mut c.rng);
    let mut b = to_builder(&mut c.rng, o);
    let without = num(&say("fee for output", || e.fee_for_output(&b))?)?;
    b.extra = Some(extra_text(&x));
    let mut coin = 0u64;
    let want = loop {
        let o = Out { coin, assets: vec![], ..o.clone() };
        let min = (ledger_output(&o, &x).to_bytes().len() as u64 + 160) * per_byte;
        if min <= coin {
            break min as u128;
        }
        coin = min;
    };
    ensure_eq!(num(&say("least value", || e.min_value_for_output(b.clone()))?)?, want, "least value of an output with {x:?}");
    if let Some(coefficient) = coefficient {
        let more = ledger_output(o, &x).to_bytes().len() - ledger_output(o, &(None, None)).to_bytes().len();
        let cost = num(&say("fee for output", || e.fee_for_output(&b))?)?;
        ensure!(cost == without + more as u128 * coefficient as u128, "an output costs {without}, and {cost} with {more} bytes more");
    }
    c.count("outputs_with_extra", 1);
    Ok(())
}

/// what is assumed beyond the real size, at most: in all, for an input, an output, and a signature
const SLACK: (usize, usize, usize, usize) = (150, 10, 110, 12);

fn within(c: &mut Case, n: &Net, fee: u128, size: usize, tx: &Tx) -> R {
    let real = tx.size();
    let least = n.fee(real);
    ensure!(fee >= least, "a fee of {fee} for a transaction of {real} bytes which needs {least}: {tx:?}");
    ensure!(size >= real, "a size of {size} for a transaction of {real} bytes: {tx:?}");
    let most = real + SLACK.0 + SLACK.1 * tx.inputs.len() + SLACK.2 * tx.outputs.len() + SLACK.3 * tx.signatures;
    ensure!(fee <= n.fee(most), "a fee of {fee} for a transaction of {real} bytes which needs {least}: {tx:?}");
    ensure!(size <= most, "a size of {size} for a transaction of {real} bytes: {tx:?}");
    c.count("fees_compared", 1);
    c.count("sizes_compared", 1);
    Ok(())
}

fn magic(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 8, 10, 23, 24, 40, 64]);
    let any = r.chance(1, 4);
    (0..n).map(|_| if any { *r.pick(&['a', 'é', 'ß', '語', '🦀', '🦀']) } else { (b'a' + r.below(26) as u8) as char }).collect()
}

/// the estimator of assumed costs
pub fn assumed(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (n, (p, quorum, keys)) = (net(r), plan(r));
    let per_byte = *r.pick(&[1, 4310, 34482]);
    let mut tx = Tx { signatures: quorum as usize, script: Some(script(quorum, &keys).len()), ..Tx::default() };
    let (ps, ns) = (policies(r), names(r));
    let steps = match r.below(10) {
        0 => r.range(200, 500),
        1 => 0,
        _ => r.range(1, 40),
    };
    let inputs_of = r.range(0, 10);
    let mut e = guard("new", || ThermostatFeeEstimator::new(n.info.clone(), &p, BigNum::from(per_byte)))?;
    c.t(format!("coefficient {} constant {} max {} quorum {quorum} of {} per byte {per_byte}", n.coefficient, n.constant, n.max_size, keys.len()));
    let parameters = (n.info.network_info().network_id(), n.info.network_info().protocol_magic(), u64::from(n.info.linear_fee().coefficient()), u64::from(n.info.linear_fee().constant()));
    ensure_eq!(parameters, (n.id, n.magic, n.coefficient, n.constant), "parameters of the network");
    let b = guard("transaction_builder", || n.info.transaction_builder())?;
    let coins = |x: &Option<BigNum>| x.map(u64::from);
    ensure_eq!((coins(&b.coins_per_utxo_byte), coins(&b.pool_deposit), coins(&b.key_deposit), b.max_value_size), (Some(n.others.0), Some(n.others.1), Some(n.others.2), Some(n.others.3)), "deposits and sizes of the network");
    ensure_eq!((b.fee_algo.as_ref().map(|f| (u64::from(f.coefficient()), u64::from(f.constant()))), b.max_tx_size), (Some((n.coefficient, n.constant)), Some(n.max_size as u32)), "fees and size of the network");
    let mut fee = num(&say("fee", || e.min_required_fee())?)?;
    let mut size = say("size", || e.current_size())?;
    tx.fee = u64::MAX;
    within(c, &n, fee, size, &tx)?;
    let with_magic = c.rng.below(3);
    for s in 0..=steps {
        ensure_eq!(say("max size", || e.max_size())?, n.max_size, "max size");
        let rate = |cost: u128, before: u128, after: u128| -> R {
            ensure!(before + cost == after, "said to cost {cost}, and the fee went from {before} to {after}");
            Ok(())
        };
        if with_magic > 0 && tx.magic.is_none() && (with_magic == 1 || s == steps || c.rng.chance(1, 5)) {
            let m = magic(&mut c.rng);
            c.t(format!("magic {m}"));
            guard("add_protocol_magic", || e.add_protocol_magic(&m))?;
            tx.magic = Some(m.len());
            c.count("with_metadata", 1);
        } else if s == steps {
            break;
        } else if c.rng.below(10) < inputs_of {
            let ix = *c.rng.pick(&[0, 1, 23, 24, 255]);
            let id = bytes(&mut c.rng, 32);
            let o = plain_out(&mut c.rng, &ps, &ns);
            let d = to_details(&mut c.rng, &id, ix, &o);
            c.t(format!("input {ix}"));
            let cost = num(&say("fee for input", || e.fee_for_input(&d))?)?;
            say("add input", || e.add_input(d))?;
            rate(cost, fee, num(&say("fee", || e.min_required_fee())?)?)?;
            tx.inputs.push(ix);
        } else if tx.outputs.len() < 250 {
            let o = plain_out(&mut c.rng, &ps, &ns);
            let b = to_builder(&mut c.rng, &o);
            c.t(format!("output {o:?}"));
            let cost = num(&say("fee for output", || e.fee_for_output(&b))?)?;
            let min = num(&say("least value", || e.min_value_for_output(b.clone()))?)?;
            ensure_eq!(min, least_value(&o, per_byte), "least value of an output");
            c.count("minimum_values", 1);
            if c.rng.chance(1, 8) {
                with_extra(c, &mut e, None, &o, per_byte)?;
            }
            say("add output", || e.add_output(b))?;
            rate(cost, fee, num(&say("fee", || e.min_required_fee())?)?)?;
            tx.outputs.push(o);
        }
        fee = num(&say("fee", || e.min_required_fee())?)?;
        size = say("size", || e.current_size())?;
        within(c, &n, fee, size, &tx)?;
        c.evals(1);
    }
    c.max("largest_transaction", tx.size() as u64);
    let h = c.trace_hash();
    c.distinct(h);
    if c.index < 2 {
        let text: String = c.trace_text().chars().take(600).collect();
        c.sample(text);
    }
    Ok(())
}

fn cml_estimator(n: &Net, per_byte: u64) -> Result<CmlFeeEstimator, String> {
    #[allow(deprecated)]
    let config = TransactionBuilderConfigBuilder::new()
        .fee_algo(&LinearFee::new(&BigNum::from(n.coefficient), &BigNum::from(n.constant)))
        .coins_per_utxo_byte(&BigNum::from(per_byte))
        .pool_deposit(&BigNum::from(500_000_000))
        .key_deposit(&BigNum::from(2_000_000))
        .max_value_size(5000)
        .max_tx_size(16384)
        .build()
        .unwrap();
    say("new", || CmlFeeEstimator::new(TransactionBuilder::new(&config), Creds::PaymentKey, true, BigNum::from(per_byte)))
}

fn out(r: &mut Rng, ps: &[Vec<u8>], ns: &[Vec<u8>], most: usize) -> Out {
    let mut assets = BTreeMap::new();
    for _ in 0..r.below(most + 1) {
        let a = asset(r, ps, ns);
        assets.insert((a.policy.clone(), a.name.clone()), a);
    }
    Out { address: address(r, true), coin: r.skewed(64), assets: assets.into_values().collect() }
}

/// the payment key of an address
fn payment(a: &[u8]) -> Vec<u8> {
    a[1..29].to_vec()
}

/// the estimator which assembles the transaction
pub fn cml(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = net(r);
    let per_byte = *r.pick(&[1, 4310, 34482]);
    let (ps, ns) = (policies(r), names(r));
    let mut e = cml_estimator(&n, per_byte)?;
    let mut tx = Tx { fee: u64::MAX, ..Tx::default() };
    let mut signers = BTreeSet::new();
    let owners: Vec<Vec<u8>> = (0..c.rng.range(1, 4)).map(|_| address(&mut c.rng, true)).collect();
    let mut used: Vec<UTxODetails> = vec![];
    let steps = if c.rng.chance(1, 300) { c.rng.range(150, 300) } else { c.rng.range(1, 40) };
    for _ in 0..steps {
        let fee = num(&say("fee", || e.min_required_fee())?)?;
        ensure_eq!(say("size", || e.current_size())?, tx.size(), "size");
        ensure_eq!(fee, n.fee(tx.size()), "fee");
        ensure_eq!(say("max size", || e.max_size())?, 16384, "max size");
        c.count("cml_steps", 1);
        c.evals(1);
        let mut o = out(&mut c.rng, &ps, &ns, 4);
        match c.rng.below(9) {
            0 => {
                // refused, and changes nothing
                let mut d = to_details(&mut c.rng, &[1; 32], 0, &o);
                if c.rng.chance(1, 3) && !used.is_empty() {
                    d = c.rng.pick(&used).clone();
                } else if c.rng.chance(1, 2) {
                    d.address = Address::new("nowhere".to_string());
                } else {
                    d.pointer.transaction_id = dcspark_core::tx::TransactionId::new("00".to_string());
                }
                c.t(format!("bad input {d:?}"));
                ensure!(guard("add input", || e.add_input(d))?.is_err(), "a bad input was added");
            }
            1 => {
                let mut b = to_builder(&mut c.rng, &o);
                b.address = Address::new("nowhere".to_string());
                ensure!(guard("add output", || e.add_output(b.clone()))?.is_err(), "a bad output was added");
                ensure!(guard("fee for output", || e.fee_for_output(&b))?.is_err(), "a fee for a bad output");
                ensure!(guard("least value", || e.min_value_for_output(b))?.is_err(), "a least value of a bad output");
            }
            2..=5 => {
                o.address = c.rng.pick(&owners).clone();
                let (id, ix) = (bytes(&mut c.rng, 32), *c.rng.pick(&[0, 1, 23, 24, 255, 256, 70_000]));
                let d = to_details(&mut c.rng, &id, ix, &o);
                c.t(format!("input {ix} {o:?}"));
                let cost = num(&say("fee for input", || e.fee_for_input(&d))?)?;
                say("add input", || e.add_input(d.clone()))?;
                used.push(d);
                signers.insert(payment(&o.address));
                tx.inputs.push(ix);
                tx.signatures = signers.len();
                ensure_eq!(fee + cost, n.fee(tx.size()), "fee with the one said for an input");
            }
            _ => {
                let b = to_builder(&mut c.rng, &o);
                c.t(format!("output {o:?}"));
                let cost = num(&say("fee for output", || e.fee_for_output(&b))?)?;
                ensure_eq!(num(&say("least value", || e.min_value_for_output(b.clone()))?)?, least_value(&o, per_byte), "least value of an output");
                c.count("minimum_values", 1);
                if c.rng.chance(1, 4) {
                    with_extra(c, &mut e, Some(n.coefficient), &o, per_byte)?;
                }
                say("add output", || e.add_output(b))?;
                tx.outputs.push(o);
                ensure_eq!(fee + cost, n.fee(tx.size()), "fee with the one said for an output");
            }
        }
    }
    c.max("largest_transaction", tx.size() as u64);
    let h = c.trace_hash();
    c.distinct(h);
    if c.index < 2 {
        let text: String = c.trace_text().chars().take(600).collect();
        c.sample(text);
    }
    Ok(())
}

/// an output as the ledger has it, its assets summed
fn ledger_out(address: &str, value: &Value<Regulated>, assets: &[dcspark_core::tx::TransactionAsset]) -> Result<Out, String> {
    use bech32::FromBase32;
    let (_, a, _) = bech32::decode(address).map_err(|e| format!("{e}: {address}"))?;
    let mut m: BTreeMap<(Vec<u8>, Vec<u8>), u128> = BTreeMap::new();
    for a in assets {
        let k = (hex::decode(a.policy_id.to_string()).map_err(|e| e.to_string())?, hex::decode(a.asset_name.as_ref()).map_err(|e| e.to_string())?);
        *m.entry(k).or_default() += num(&a.quantity)?;
    }
    let word = |n: u128| u64::try_from(n).map_err(|e| e.to_string());
    let mut v = vec![];
    for ((policy, name), q) in m {
        v.push(Asset { policy, name, q: word(q)? });
    }
    Ok(Out { address: Vec::<u8>::from_base32(&a).map_err(|e| e.to_string())?, coin: word(num(value)?)?, assets: v })
}

fn assembled(o: &Outcome) -> Result<(Tx, usize), String> {
    let mut tx = Tx { fee: u64::try_from(num(&o.fee)?).map_err(|e| e.to_string())?, ..Tx::default() };
    let mut signers = BTreeSet::new();
    for u in o.fixed_inputs.iter().chain(&o.chosen_inputs) {
        tx.inputs.push(u64::from(u.pointer.output_index));
        signers.insert(payment(&ledger_out(u.address.as_ref(), &u.value, &[])?.address));
    }
    for u in o.fixed_outputs.iter().chain(&o.changes) {
        tx.outputs.push(ledger_out(u.address.as_ref(), &u.value, &u.assets)?);
    }
    Ok((tx, signers.len()))
}

/// a base address of a key
fn key_address(r: &mut Rng) -> Vec<u8> {
    let mut a = base_address(r);
    a[0] &= 0x2f;
    a
}

/// every strategy with these estimators: the fee is enough for the transaction there is in the end
pub fn selections(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = net(r);
    let per_byte = *r.pick(&[1, 4310]);
    let (ps, ns) = (policies(r), names(r));
    let which = r.below(5);
    let thermostat = which == 2;
    let most = if thermostat { 1 } else { 4 };
    let owners: Vec<Vec<u8>> = (0..r.range(1, 4)).map(|_| key_address(r)).collect();
    let unit = n.fee(2000) as u64 + 2_000_000;
    let some = |r: &mut Rng, top: u64| {
        let mut o = out(r, &ps, &ns, most);
        o.address = base_address(r);
        o.coin = r.range64(0, top);
        for a in o.assets.iter_mut() {
            a.q = r.skewed(40);
        }
        o
    };
    let detail = |r: &mut Rng, top: u64| {
        let mut o = some(r, top);
        o.address = r.pick(&owners).clone();
        let (id, ix) = (bytes(r, 32), *r.pick(&[0, 1, 23, 24, 255]));
        to_details(r, &id, ix, &o)
    };
    let fixed: Vec<UTxODetails> = (0..r.below(3) + (which > 2) as usize).map(|_| detail(r, 4 * unit)).collect();
    let avail: Vec<UTxODetails> = (0..r.range(0, 25)).map(|_| detail(r, 2 * unit)).collect();
    let count = r.range(1, 4);
    let mut outs: Vec<Out> = (0..count).map(|_| some(r, unit)).collect();
    // assets out of those there are
    let mut pool: Vec<&dcspark_core::tx::TransactionAsset> = fixed.iter().chain(if which > 2 { &[] } else { &avail[..] }).flat_map(|u| &u.assets).collect();
    r.shuffle(&mut pool);
    for o in outs.iter_mut() {
        o.assets.clear();
        if !pool.is_empty() && r.chance(1, 2) {
            let a = r.pick(&pool);
            o.assets.push(Asset {
                policy: hex::decode(a.policy_id.to_string()).unwrap(),
                name: hex::decode(a.asset_name.as_ref()).unwrap(),
                q: r.range64(0, a.quantity.to_u64().unwrap()),
            });
        }
    }
    if which == 4 {
        // takes nothing but what balances
        let all = Setup::from_fixed_inputs_and_outputs(fixed.clone(), vec![], None).input_asset_balance;
        for o in outs.iter_mut() {
            o.assets.clear();
        }
        for a in all.values() {
            outs[0].assets.push(Asset { policy: hex::decode(a.policy_id.to_string()).unwrap(), name: hex::decode(a.asset_name.as_ref()).unwrap(), q: a.quantity.to_u64().unwrap() });
        }
    }
    let builders: Vec<UTxOBuilder> = outs.iter().map(|o| to_builder(r, o)).collect();
    let change = addr_text(r.pick(&owners));
    let setup = Setup::from_fixed_inputs_and_outputs(fixed.clone(), builders.clone(), Some(Address::new(change)));
    c.t(format!("strategy {which} {setup:?} {avail:?}"));
    let h = c.trace_hash();
    c.distinct(h);
    if c.index < 2 {
        let text: String = c.trace_text().chars().take(600).collect();
        c.sample(text);
    }

    macro_rules! run {
        ($e:expr, $s:expr) => {{
            let e = $e;
            for u in &fixed {
                say("add input", || e.add_input(u.clone()))?;
            }
            for b in &builders {
                say("add output", || e.add_output(b.clone()))?;
            }
            guard("select", || $s.select_inputs(e, setup))?
        }};
    }
    let mut store = UTxOStore::new().thaw();
    for u in &avail {
        store.insert(u.clone()).map_err(|e| format!("{e:#}"))?;
    }
    let store = store.freeze();
    if thermostat {
        let r = &mut c.rng;
        let (p, quorum, keys) = plan(r);
        let max = *r.pick(&[0, 2_000_000, 50_000_000]);
        let min = max / r.range64(1, 3);
        let cfg = serde_json::json!({"num_accumulators": r.range(1, 6), "num_accumulators_assets": r.range(1, 6), "native_utxo_thermostat_min": min.to_string(), "native_utxo_thermostat_max": max.to_string(), "main_token": dcspark_core::TokenId::MAIN.as_ref()});
        let mut e = guard("new", || ThermostatFeeEstimator::new(n.info.clone(), &p, BigNum::from(per_byte)))?;
        let m = r.chance(1, 3).then(|| magic(r));
        if let Some(m) = &m {
            guard("add_protocol_magic", || e.add_protocol_magic(m))?;
        }
        let mut s = Thermostat::new(serde_json::from_value(cfg).unwrap());
        say("set available", || s.set_available_inputs(avail.clone()))?;
        let Ok(o) = run!(&mut e, s) else {
            c.count("selections_refused", 1);
            return Ok(());
        };
        let (mut tx, _) = assembled(&o)?;
        tx.signatures = quorum as usize;
        tx.script = Some(script(quorum, &keys).len());
        tx.magic = m.map(|m| m.len());
        enough(c, &n, &tx, "thermostat")
    } else {
        let mut e = cml_estimator(&n, per_byte)?;
        let (name, o) = match which {
            0 => ("largest", run!(&mut e, LargestFirst::try_from(store).unwrap())),
            1 => ("random", run!(&mut e, RandomImprove::try_from(store).unwrap())),
            3 => ("single", run!(&mut e, SingleOutputChangeBalancer::default())),
            _ => ("fee", run!(&mut e, FeeChangeBalancer::default())),
        };
        let Ok(o) = o else {
            c.count("selections_refused", 1);
            return Ok(());
        };
        let (mut tx, signers) = assembled(&o)?;
        tx.signatures = signers;
        enough(c, &n, &tx, name)
    }
}

fn enough(c: &mut Case, n: &Net, tx: &Tx, name: &str) -> R {
    let least = n.fee(tx.size());
    ensure!(tx.fee as u128 >= least, "a fee of {} for a transaction of {} bytes which needs {least}: {tx:?}", tx.fee, tx.size());
    c.count("selected_transactions", 1);
    c.count(&format!("selected_{name}"), 1);
    if tx.outputs.len() > 4 {
        c.count("many_outputs", 1);
    }
    Ok(())
}
