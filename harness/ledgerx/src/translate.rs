//! C66: outputs to the ledger's types and back
use crate::model::*;
use cardano_multiplatform_lib as cml;
use cardano_multiplatform_lib::builders::input_builder::Witness;
use cardano_multiplatform_lib::builders::witness_builder::*;
use cardano_multiplatform_lib::ledger::common::value as cv;
use cardano_multiplatform_lib::plutus::{PlutusData, ScriptRef};
use cardano_multiplatform_lib::{Datum, MultiAsset, TransactionInput, TransactionOutput};
use cardano_utils::multisig_plan::MultisigPlan;
use cardano_utils::payment_credentials::CardanoPaymentCredentials as Creds;
use cardano_utils::utxo::*;
use common::{ensure, ensure_eq, guard, Case, Rng, R};
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails};
use dcspark_core::{AssetName, PolicyId, Regulated, Value};
use deps::bigdecimal::BigDecimal;
use deps::serde_json;
use std::collections::BTreeMap;

fn outline(r: &mut Rng, key: bool) -> Out {
    let (mut ps, mut ns) = (policies(r), names(r));
    let mut assets: BTreeMap<(Vec<u8>, Vec<u8>), Asset> = BTreeMap::new();
    // now and then many of them, of many policies or of few
    let n = if r.chance(1, 60) { r.range(9, 300) } else { r.below(5) };
    if n > 4 {
        ps.extend((0..r.below(n)).map(|_| bytes(r, 28)));
        ns = (0..n).map(|_| bytes(r, 12)).collect();
    }
    for _ in 0..n {
        let a = asset(r, &ps, &ns);
        assets.insert((a.policy.clone(), a.name.clone()), a);
    }
    Out { address: address(r, key), coin: r.skewed(64), assets: assets.into_values().collect() }
}

/// some of the assets in several entries, in any order
fn scatter(c: &mut Case, o: &Out) -> Vec<TransactionAsset> {
    let mut v = vec![];
    for a in &o.assets {
        if a.q > 1 && c.rng.chance(1, 4) {
            let part = c.rng.range64(0, a.q);
            v.push(to_asset(&mut c.rng, &Asset { q: part, ..a.clone() }));
            v.push(to_asset(&mut c.rng, &Asset { q: a.q - part, ..a.clone() }));
            c.count("repeated_assets", 1);
        } else {
            v.push(to_asset(&mut c.rng, a));
        }
    }
    c.rng.shuffle(&mut v);
    v
}

pub type Extra = (Option<ScriptRef>, Option<Datum>);

pub fn extra(r: &mut Rng) -> Extra {
    let s = r.chance(1, 2).then(|| ScriptRef(bytes(r, 20)));
    let d = match r.below(3) {
        0 => None,
        1 => Some(Datum::Hash(bytes(r, 32).try_into().unwrap())),
        _ => Some(Datum::Data(PlutusData(bytes(r, 9)))),
    };
    (s, d)
}

pub fn extra_text(e: &Extra) -> String {
    format!("{{\"script_ref\":{},\"datum\":{}}}", serde_json::to_string(&e.0).unwrap(), serde_json::to_string(&e.1).unwrap())
}

/// the ledger's output says what the plain one says
fn same_output(c: &mut Case, got: &TransactionOutput, o: &Out, e: &Extra) -> R {
    ensure_eq!(hex::encode(got.address().to_bytes()), hex::encode(&o.address), "address");
    ensure_eq!(u64::from(got.amount().coin()), o.coin, "coin");
    let mut have: Vec<Asset> = vec![];
    if let Some(m) = got.amount().multiasset() {
        for i in 0..m.keys().len() {
            let p = m.keys().get(i);
            let a = m.get(&p).unwrap();
            for j in 0..a.keys().len() {
                let n = a.keys().get(j);
                have.push(Asset { policy: p.to_bytes(), name: n.name(), q: u64::from(a.get(&n).unwrap()) });
            }
        }
    }
    let key = |a: &Asset| (a.policy.clone(), a.name.clone());
    have.sort_by_key(key);
    ensure!(have == o.assets, "assets of the ledger's output {have:?}, should be {:?}", o.assets);
    ensure_eq!((got.script_ref(), got.datum()), e.clone(), "script and datum");
    c.count("assets_compared", have.len() as u64);
    Ok(())
}

/// /repo's output says what the plain one says
fn same_assets(got: &[TransactionAsset], o: &Out) -> R {
    let mut have = vec![];
    for a in got {
        ensure_eq!(a.fingerprint, cardano_utils::fingerprint(&a.policy_id, &a.asset_name).map_err(|e| e.to_string())?, "fingerprint");
        have.push((a.policy_id.to_string(), a.asset_name.as_ref().to_string(), a.quantity.clone()));
    }
    have.sort_by_key(|a| (a.0.clone(), a.1.clone()));
    let want: Vec<_> = o.assets.iter().map(|a| (hex::encode(&a.policy), hex::encode(&a.name), val(a.q))).collect();
    ensure!(have == want, "assets {have:?}, should be {want:?}");
    Ok(())
}

pub fn ledger_output(o: &Out, e: &Extra) -> TransactionOutput {
    let mut v = cv::Value::new(&cv::Coin::from(o.coin));
    if !o.assets.is_empty() {
        let mut m = MultiAsset::new();
        for a in &o.assets {
            m.set_asset(&cml::PolicyID::from_bytes(a.policy.clone()).unwrap(), &cml::AssetName::new(a.name.clone()).unwrap(), &cv::BigNum::from(a.q));
        }
        v.set_multiasset(&m);
    }
    let mut t = TransactionOutput::new(&cml::address::Address::from_bytes(o.address.clone()).unwrap(), &v);
    if let Some(s) = &e.0 {
        t.set_script_ref(s);
    }
    if let Some(d) = &e.1 {
        t.set_datum(d);
    }
    t
}

fn plan_json(quorum: u64, keys: &[String]) -> String {
    format!("{{\"quorum\":{quorum},\"keys\":[{}]}}", keys.iter().map(|k| format!("\"{k}\"")).collect::<Vec<_>>().join(","))
}

pub fn inputs(c: &mut Case) -> R {
    let id = bytes(&mut c.rng, 32);
    let ix = c.rng.skewed(64);
    let which = c.rng.below(3);
    let mut o = outline(&mut c.rng, which == 0);
    let keys: Vec<String> = (0..c.rng.range(1, 4)).map(|_| hex::encode(bytes(&mut c.rng, 28))).collect();
    let plan: MultisigPlan = serde_json::from_str(&plan_json(1, &keys)).map_err(|e| e.to_string())?;
    let creds = match which {
        0 => Creds::PaymentKey,
        1 => Creds::PlutusScript { partial_witness: PartialPlutusWitness(vec![1]), required_signers: Default::default(), datum: PlutusData(vec![2]) },
        _ => {
            o.address = plan.address(c.rng.below(2) as u8).to_bytes();
            Creds::NativeScript { native_script: plan.to_script().get(0), witness_info: NativeScriptWitnessInfo::num_signatures(1) }
        }
    };
    let e: Extra = if c.rng.chance(1, 2) { extra(&mut c.rng) } else { (None, None) };
    let mut d = to_details(&mut c.rng, &id, ix, &o);
    d.assets = scatter(c, &o);
    d.pointer.transaction_id = TransactionId::new(case_of(&mut c.rng, hex::encode(&id)));
    if e != (None, None) || c.rng.chance(1, 2) {
        d.extra = Some(extra_text(&e));
        c.count("with_extra", 1);
    }
    c.t(format!("{d:?}"));
    let got = guard("to the ledger", || utxo_details_to_cml_input(&d, &creds))?.map_err(|e| format!("refused: {e:#}"))?;
    ensure_eq!(got.input.transaction_id().to_hex(), hex::encode(&id), "transaction id");
    ensure_eq!(u64::from(got.input.index()), ix, "output index");
    same_output(c, &got.utxo_info, &o, &e)?;
    ensure!(matches!((which, &got.witness), (0, Witness::Key) | (1, Witness::Plutus) | (2, Witness::Native(_, 1))), "witness {:?} for the credentials {creds:?}", got.witness);
    c.count("inputs_translated", 1);
    // and back
    let back = guard("from the ledger", || utxo_details_from_io((got.input.clone(), got.utxo_info.clone())))?.map_err(|e| format!("refused: {e:#}"))?;
    same_details(&back, &id, ix, &o, &e)?;
    c.count("round_trips", 1);
    // from the ledger's own
    let back = guard("from the ledger", || utxo_details_from_io((TransactionInput::new(&cml::crypto::TransactionHash::from_bytes(id.clone()).unwrap(), &cv::BigNum::from(ix)), ledger_output(&o, &e))))?
        .map_err(|e| format!("refused: {e:#}"))?;
    same_details(&back, &id, ix, &o, &e)?;
    let again = guard("to the ledger", || utxo_details_to_cml_input(&back, &creds))?.map_err(|e| format!("refused: {e:#}"))?;
    same_output(c, &again.utxo_info, &o, &e)?;
    c.count("round_trips", 1);
    c.evals(3);
    let h = c.trace_hash();
    c.distinct(h);
    if c.index < 2 {
        let text: String = c.trace_text().chars().take(600).collect();
        c.sample(text);
    }
    Ok(())
}

fn same_details(d: &UTxODetails, id: &[u8], ix: u64, o: &Out, e: &Extra) -> R {
    ensure_eq!(d.pointer.transaction_id.to_string(), hex::encode(id), "transaction id");
    ensure_eq!(u64::from(d.pointer.output_index), ix, "output index");
    ensure_eq!(d.address.as_ref(), addr_text(&o.address), "address");
    ensure_eq!(d.value, val(o.coin), "value");
    same_assets(&d.assets, o)?;
    same_extra(&d.extra, e)
}

fn same_extra(got: &Option<String>, e: &Extra) -> R {
    let got: serde_json::Value = serde_json::from_str(got.as_deref().unwrap_or("null")).map_err(|e| e.to_string())?;
    let want: serde_json::Value = serde_json::from_str(&extra_text(e)).unwrap();
    ensure_eq!(got, want, "extra");
    Ok(())
}

pub fn outputs(c: &mut Case) -> R {
    let o = outline(&mut c.rng, true);
    let e: Extra = if c.rng.chance(1, 2) { extra(&mut c.rng) } else { (None, None) };
    let mut b = to_builder(&mut c.rng, &o);
    b.assets = scatter(c, &o);
    if e != (None, None) {
        b.extra = Some(extra_text(&e));
    }
    c.t(format!("{b:?}"));
    let got = guard("to the ledger", || utxo_builder_to_cml_output(&b))?.map_err(|e| format!("refused: {e:#}"))?;
    same_output(c, &got, &o, &e)?;
    c.count("outputs_translated", 1);
    for t in [got, ledger_output(&o, &e)] {
        let back = guard("from the ledger", || utxo_builder_from_output(t))?.map_err(|e| format!("refused: {e:#}"))?;
        ensure_eq!(back.address.as_ref(), addr_text(&o.address), "address");
        ensure_eq!(back.value, val(o.coin), "value");
        same_assets(&back.assets, &o)?;
        same_extra(&back.extra, &e)?;
        let again = guard("to the ledger", || utxo_builder_to_cml_output(&back))?.map_err(|e| format!("refused: {e:#}"))?;
        same_output(c, &again, &o, &e)?;
        c.count("round_trips", 1);
    }
    c.evals(3);
    let h = c.trace_hash();
    c.distinct(h);
    if c.index < 2 {
        let text: String = c.trace_text().chars().take(600).collect();
        c.sample(text);
    }
    Ok(())
}

fn big(s: &str) -> Value<Regulated> {
    Value::new(s.parse::<BigDecimal>().unwrap())
}

/// what the ledger has no place for is refused
pub fn refusals(c: &mut Case) -> R {
    let mut o = outline(&mut c.rng, true);
    let spare = asset(&mut c.rng, &[vec![7; 28]], &[vec![8; 4]]);
    o.assets.push(spare);
    let id = bytes(&mut c.rng, 32);
    let mut d = to_details(&mut c.rng, &id, 1, &o);
    let last = d.assets.len() - 1;
    let too_much = ["-1", "18446744073709551616", "99999999999999999999999999"];
    let mut only_input = false;
    let why = match c.rng.below(9) {
        0 => {
            d.value = big(*c.rng.pick(&too_much));
            "value"
        }
        1 => {
            d.assets[last].quantity = big(*c.rng.pick(&too_much));
            "quantity"
        }
        2 => {
            // in two entries
            let mut a = d.assets[last].clone();
            a.quantity = big("18446744073709551615");
            d.assets[last].quantity = big(*c.rng.pick(&["1", "18446744073709551615"]));
            d.assets.push(a);
            "quantity of two entries"
        }
        3 => {
            let n = *c.rng.pick(&[0, 27, 29]);
            d.assets[last].policy_id = PolicyId::new(hex::encode(bytes(&mut c.rng, n)));
            "length of a policy"
        }
        4 => {
            d.assets[last].policy_id = PolicyId::new("zz".repeat(28));
            "policy"
        }
        5 => {
            let n = c.rng.range(33, 60);
            d.assets[last].asset_name = AssetName::new(hex::encode(bytes(&mut c.rng, n)));
            "length of an asset name"
        }
        6 => {
            d.assets[last].asset_name = AssetName::new("abc".to_string());
            "asset name"
        }
        7 => {
            let mut a = addr_text(&o.address);
            a.replace_range(9..10, if &a[9..10] == "q" { "p" } else { "q" });
            d.address = dcspark_core::Address::new(a);
            "address"
        }
        _ => {
            let n = *c.rng.pick(&[0, 31, 33]);
            d.pointer.transaction_id = TransactionId::new(hex::encode(bytes(&mut c.rng, n)));
            only_input = true;
            "transaction id"
        }
    };
    c.t(format!("{why}: {d:?}"));
    let r = guard("to the ledger", || utxo_details_to_cml_input(&d, &Creds::PaymentKey))?;
    ensure!(r.is_err(), "an input with a bad {why} was translated: {:?}", r.unwrap().utxo_info);
    if !only_input {
        let b = UTxOBuilder::new(d.address.clone(), d.value.clone(), d.assets.clone());
        let r = guard("to the ledger", || utxo_builder_to_cml_output(&b))?;
        ensure!(r.is_err(), "an output with a bad {why} was translated: {:?}", r.unwrap());
    }
    c.count("refused", 1);
    let h = c.trace_hash();
    c.distinct(h);
    if c.index < 2 {
        let text: String = c.trace_text().chars().take(600).collect();
        c.sample(text);
    }
    Ok(())
}

/// multisig plans: read, their script, hash and address
pub fn plans(c: &mut Case) -> R {
    let n = *c.rng.pick(&[0, 1, 2, 5, 23, 24, 40]);
    let mut keys: Vec<Vec<u8>> = (0..n).map(|_| bytes(&mut c.rng, 28)).collect();
    if n > 1 && c.rng.chance(1, 4) {
        // a key that has more than one say
        let (i, j) = (c.rng.below(n), c.rng.below(n));
        keys[i] = keys[j].clone();
    }
    let quorum = *c.rng.pick(&[0, 1, n as u64 / 2, n as u64, 300, 70_000]);
    let mut text: Vec<String> = keys.iter().map(|k| case_of(&mut c.rng, hex::encode(k))).collect();
    c.evals(1);
    if n > 0 && c.rng.chance(1, 5) {
        let i = c.rng.below(n);
        match c.rng.below(5) {
            0 => text[i].push_str("00"),
            3 => text[i].insert(0, ' '),
            4 => text[i].insert_str(0, "0x"),
            1 => {
                text[i].pop();
            }
            _ => text[i].replace_range(3..4, "g"),
        }
        let p = plan_json(quorum, &text);
        ensure!(serde_json::from_str::<MultisigPlan>(&p).is_err(), "a plan with a bad key was read: {p}");
        c.count("plans_refused", 1);
        return Ok(());
    }
    let p = plan_json(quorum, &text);
    c.t(p.clone());
    let plan: MultisigPlan = if c.rng.chance(1, 8) {
        let dir = common::Scratch::new("plan");
        let f = dir.join("plan.json");
        std::fs::write(&f, &p).map_err(|e| e.to_string())?;
        MultisigPlan::load(&f).map_err(|e| format!("{e:#}"))?
    } else {
        serde_json::from_str(&p).map_err(|e| e.to_string())?
    };
    ensure_eq!(plan.keys.iter().map(|k| k.0.to_hex()).collect::<Vec<_>>(), keys.iter().map(hex::encode).collect::<Vec<_>>(), "keys of the plan");
    ensure_eq!(plan.quorum as u64, quorum, "quorum of the plan");
    let s = script(quorum, &keys);
    let scripts = guard("script", || plan.to_script())?;
    ensure_eq!(scripts.len(), 1, "number of scripts");
    ensure_eq!(hex::encode(scripts.get(0).to_bytes()), hex::encode(&s), "script");
    let mut tagged = vec![0];
    tagged.extend(&s);
    let h = crate::blake::blake2b(28, &tagged);
    ensure_eq!(plan.hash().to_hex(), hex::encode(&h), "hash of the script");
    let net = c.rng.below(2) as u8;
    let mut want = vec![0x70 | net];
    want.extend(&h);
    ensure_eq!(hex::encode(plan.address(net).to_bytes()), hex::encode(&want), "address of the script");
    c.count("plans", 1);
    let h = c.trace_hash();
    c.distinct(h);
    if c.index < 2 {
        let text: String = c.trace_text().chars().take(600).collect();
        c.sample(text);
    }
    Ok(())
}
