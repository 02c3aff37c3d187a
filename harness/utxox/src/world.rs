//! Plain-integer model of outputs, assets, fee models and requests, and the values of the crate
//! made from it.
use anyhow::anyhow;
use common::{Case, Rng, R};
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, TokenId, Value};
use deps::bigdecimal::{BigDecimal, ToPrimitive};
use std::collections::{BTreeMap, HashMap};
use utxo_selection::{InputOutputSetup, TransactionFeeEstimator};

pub type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
pub type Sums = BTreeMap<String, i128>;
/// the main token's name in `Sums`
pub const MAIN: &str = "";

thread_local! {
    /// decimals of the smallest amount of the case under way
    static DECIMALS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

pub fn set_decimals(n: i64) {
    DECIMALS.with(|d| d.set(n))
}

/// `n` of the smallest amounts
pub fn val(n: i128) -> Value<Regulated> {
    Value::new(BigDecimal::new(n.into(), DECIMALS.with(|d| d.get())))
}

pub fn int(v: &Value<Regulated>) -> Result<i128, String> {
    let (digits, scale) = v.raw().as_bigint_and_exponent();
    let at = DECIMALS.with(|d| d.get());
    let n = BigDecimal::new(digits, scale - at);
    let n = n.to_i128().ok_or_else(|| format!("value {v:?} is not a number of units"))?;
    if &BigDecimal::new(n.into(), at) != v.raw() {
        return Err(format!("value {v:?} is not a whole number of its smallest units ({at} decimals)"));
    }
    Ok(n)
}

#[derive(Clone, Debug)]
pub struct Token {
    pub policy: String,
    pub name: String,
    pub fp: String,
}

pub fn tokens(r: &mut Rng, n: usize) -> Vec<Token> {
    (0..n)
        .map(|i| {
            let policy = format!("p{}", if r.chance(1, 3) { 0 } else { i });
            let name = format!("n{i}");
            let fp = match r.below(3) {
                0 => format!("{policy}:{name}"),
                1 => format!("asset1{}", i),
                _ => format!("{policy}{name}"),
            };
            Token { policy, name, fp }
        })
        .collect()
}

pub fn asset(t: &Token, q: i128) -> TransactionAsset {
    TransactionAsset {
        policy_id: PolicyId::new(t.policy.clone()),
        asset_name: AssetName::new(t.name.clone()),
        fingerprint: TokenId::new(t.fp.clone()),
        quantity: val(q),
    }
}

pub fn utxo(tx: &str, ix: u64, v: i128, assets: Vec<TransactionAsset>) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new(tx.to_string()), output_index: OutputIndex::new(ix) },
        address: Address::new("addr_owner".to_string()),
        value: val(v),
        assets,
        metadata: Default::default(),
        extra: None,
    }
}

/// how amounts are drawn in one case
#[derive(Clone, Copy, Debug)]
pub struct Scale {
    pub kind: usize,
    pub top: i128,
}

impl Scale {
    pub fn pick(r: &mut Rng) -> Scale {
        Scale { kind: r.below(4), top: *r.pick(&[3, 20, 1000, 5_000_000, 1_000_000_000, 40_000_000_000_000_000]) }
    }
    pub fn amount(&self, r: &mut Rng) -> i128 {
        let t = self.top as u64;
        (match self.kind {
            0 => r.range64(0, t),
            1 => r.range64(1, t.min(4)) * (t / 4).max(1),
            2 => r.skewed(63) % (t + 1),
            _ => {
                if r.chance(1, 4) {
                    r.range64(t / 2, t)
                } else {
                    r.range64(0, t / 10 + 1)
                }
            }
        }) as i128
    }
}

pub fn some_assets(r: &mut Rng, ts: &[Token], most: usize, s: &Scale) -> Vec<TransactionAsset> {
    let mut ix: Vec<usize> = (0..ts.len()).collect();
    r.shuffle(&mut ix);
    let n = r.below(most.min(ts.len()) + 1);
    ix[..n].iter().map(|i| asset(&ts[*i], s.amount(r).max(i128::from(!r.chance(1, 12))))).collect()
}

pub fn add(sums: &mut Sums, value: &Value<Regulated>, assets: &[TransactionAsset], sign: i128) -> R {
    *sums.entry(MAIN.into()).or_default() += sign * int(value)?;
    for a in assets {
        *sums.entry(a.fingerprint.as_ref().to_string()).or_default() += sign * int(&a.quantity)?;
    }
    Ok(())
}

pub fn sums_of(value: &Value<Regulated>, assets: &HashMap<TokenId, TransactionAsset>) -> Result<Sums, String> {
    let mut s = Sums::new();
    *s.entry(MAIN.into()).or_default() += int(value)?;
    for (t, a) in assets {
        if t != &a.fingerprint {
            return Err(format!("balance of {t} is filed as {a:?}"));
        }
        *s.entry(t.as_ref().to_string()).or_default() += int(&a.quantity)?;
    }
    Ok(s)
}

/// the same amounts, an absent token being zero
pub fn same(a: &Sums, b: &Sums) -> bool {
    a.keys().chain(b.keys()).all(|k| a.get(k).copied().unwrap_or(0) == b.get(k).copied().unwrap_or(0))
}

#[derive(Clone, Debug, Default)]
pub struct Fees {
    pub base: i128,
    pub input: i128,
    pub input_asset: i128,
    pub output: i128,
    pub output_asset: i128,
    /// per decimal digit of an output's value, as in a size that depends on the number
    pub digit: i128,
    pub min_output: i128,
    pub max_size: usize,
    pub input_size: usize,
    pub output_size: usize,
}

fn digits(n: i128) -> i128 {
    n.abs().to_string().len() as i128
}

impl Fees {
    pub fn of_input(&self, i: &UTxODetails) -> i128 {
        self.input + self.input_asset * i.assets.len() as i128
    }
    pub fn of_output(&self, o: &UTxOBuilder) -> Result<i128, String> {
        Ok(self.output + self.output_asset * o.assets.len() as i128 + self.digit * digits(int(&o.value)?))
    }
    pub fn of_tx<'a>(&self, ins: impl Iterator<Item = &'a UTxODetails>, outs: impl Iterator<Item = &'a UTxOBuilder>) -> Result<i128, String> {
        let mut fee = self.base;
        for i in ins {
            fee += self.of_input(i);
        }
        for o in outs {
            fee += self.of_output(o)?;
        }
        Ok(fee)
    }
    /// any model: flat, by content, by digits
    pub fn pick(r: &mut Rng, s: &Scale) -> Fees {
        let unit = *r.pick(&[0, 1, (s.top / 50).max(1), (s.top / 5).max(1)]);
        let mut f = |on: usize| if r.chance(on, 10) { r.range64(0, unit as u64 + 1) as i128 } else { 0 };
        Fees {
            base: f(8),
            input: f(8),
            input_asset: f(2),
            output: f(8),
            output_asset: f(2),
            digit: f(2),
            min_output: 0,
            max_size: usize::MAX / 4,
            input_size: 1,
            output_size: 1,
        }
    }
}

/// a fee estimator over `Fees` that can fail at a chosen call
pub struct Meter {
    pub fees: Fees,
    pub inputs: Vec<UTxODetails>,
    pub outputs: Vec<UTxOBuilder>,
    pub calls: std::cell::Cell<u64>,
    pub fail_at: Option<u64>,
}

impl Meter {
    pub fn new(fees: &Fees, setup: &Setup, fail_at: Option<u64>) -> Meter {
        Meter {
            fees: fees.clone(),
            inputs: setup.fixed_inputs.clone(),
            outputs: setup.fixed_outputs.clone(),
            calls: Default::default(),
            fail_at,
        }
    }
    fn tick(&self) -> anyhow::Result<()> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.fail_at == Some(n) {
            return Err(anyhow!("injected estimator failure at call {n}"));
        }
        Ok(())
    }
    pub fn failed(&self) -> bool {
        self.fail_at.is_some_and(|n| self.calls.get() > n)
    }
}

fn any(e: String) -> anyhow::Error {
    anyhow!("{e}")
}

impl TransactionFeeEstimator for Meter {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<Value<Regulated>> {
        self.tick()?;
        Ok(val(self.fees.of_tx(self.inputs.iter(), self.outputs.iter()).map_err(any)?))
    }
    fn fee_for_input(&self, i: &UTxODetails) -> anyhow::Result<Value<Regulated>> {
        self.tick()?;
        Ok(val(self.fees.of_input(i)))
    }
    fn add_input(&mut self, i: UTxODetails) -> anyhow::Result<()> {
        self.tick()?;
        self.inputs.push(i);
        Ok(())
    }
    fn fee_for_output(&self, o: &UTxOBuilder) -> anyhow::Result<Value<Regulated>> {
        self.tick()?;
        Ok(val(self.fees.of_output(o).map_err(any)?))
    }
    fn add_output(&mut self, o: UTxOBuilder) -> anyhow::Result<()> {
        self.tick()?;
        self.outputs.push(o);
        Ok(())
    }
    fn min_value_for_output(&mut self, _o: UTxOBuilder) -> anyhow::Result<Value<Regulated>> {
        self.tick()?;
        Ok(val(self.fees.min_output))
    }
    fn current_size(&self) -> anyhow::Result<usize> {
        self.tick()?;
        Ok(self.inputs.len() * self.fees.input_size + self.outputs.len() * self.fees.output_size)
    }
    fn max_size(&self) -> anyhow::Result<usize> {
        self.tick()?;
        Ok(self.fees.max_size)
    }
}

pub fn describe(c: &mut Case, setup: &Setup, fees: &Fees) {
    let f = |v: &Value<Regulated>, a: &[TransactionAsset]| {
        let mut s = format!("{}", v.raw());
        for x in a {
            s += &format!("+{}*{}", x.quantity.raw(), x.fingerprint);
        }
        s
    };
    let ins: Vec<String> = setup.fixed_inputs.iter().map(|i| f(&i.value, &i.assets)).collect();
    let outs: Vec<String> = setup.fixed_outputs.iter().map(|o| f(&o.value, &o.assets)).collect();
    c.t(format!(
        "request inputs {ins:?} outputs {outs:?} balances in {} {:?} out {} {:?} change {:?}",
        setup.input_balance.raw(),
        setup.input_asset_balance.values().map(|a| (a.fingerprint.as_ref(), a.quantity.raw().to_string())).collect::<BTreeMap<_, _>>(),
        setup.output_balance.raw(),
        setup.output_asset_balance.values().map(|a| (a.fingerprint.as_ref(), a.quantity.raw().to_string())).collect::<BTreeMap<_, _>>(),
        setup.change_address.as_ref().map(|a| a.as_ref().to_string())
    ));
    c.t(format!("fees {fees:?}"));
}
