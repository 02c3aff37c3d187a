//! A stand-in for the part of cardano-multiplatform-lib that /repo uses: the real crate comes from
//! a git repository and cannot be fetched here. Types, names and meaning follow the real ones;
//! what is serialised is CBOR in the ledger's format. A hidden `plain` module gives the monitors
//! access to the contents.
#![allow(clippy::all)]
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct JsError(pub String);
impl fmt::Display for JsError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for JsError {}
fn err<T>(s: impl Into<String>) -> Result<T, JsError> {
    Err(JsError(s.into()))
}

/// CBOR, as much as is needed
pub mod cbor {
    pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
        let m = major << 5;
        match n {
            0..=23 => out.push(m | n as u8),
            24..=0xff => out.extend([m | 24, n as u8]),
            0x100..=0xffff => {
                out.push(m | 25);
                out.extend((n as u16).to_be_bytes())
            }
            0x1_0000..=0xffff_ffff => {
                out.push(m | 26);
                out.extend((n as u32).to_be_bytes())
            }
            _ => {
                out.push(m | 27);
                out.extend(n.to_be_bytes())
            }
        }
    }
    pub fn bytes(out: &mut Vec<u8>, b: &[u8]) {
        head(out, 2, b.len() as u64);
        out.extend(b);
    }
}

macro_rules! hash {
    ($name:ident, $n:expr) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name(pub(crate) [u8; $n]);
        impl $name {
            pub fn from_bytes(b: Vec<u8>) -> Result<Self, crate::JsError> {
                b.try_into().map(Self).map_err(|b: Vec<u8>| crate::JsError(format!("{} bytes for {}", b.len(), stringify!($name))))
            }
            pub fn from_hex(s: &str) -> Result<Self, crate::JsError> {
                Self::from_bytes(hex::decode(s).map_err(|e| crate::JsError(e.to_string()))?)
            }
            pub fn to_bytes(&self) -> Vec<u8> {
                self.0.to_vec()
            }
            pub fn to_hex(&self) -> String {
                hex::encode(self.0)
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str(&self.to_hex())
            }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str(&self.to_hex())
            }
        }
    };
}

pub mod crypto {
    hash!(Ed25519KeyHash, 28);
    hash!(ScriptHash, 28);
    hash!(TransactionHash, 32);

    use super::{err, JsError};
    use cryptoxide::{blake2b::Blake2b, digest::Digest};
    use ed25519_bip32::{DerivationScheme, XPub};

    /// keys are derived by the crate that the real library uses
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Bip32PublicKey(XPub);
    impl Bip32PublicKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, JsError> {
            XPub::from_slice(b).map(Self).map_err(|e| JsError(e.to_string()))
        }
        pub fn as_bytes(&self) -> Vec<u8> {
            self.0.as_ref().to_vec()
        }
        pub fn chaincode(&self) -> Vec<u8> {
            self.0.chain_code_slice().to_vec()
        }
        pub fn derive(&self, index: u32) -> Result<Bip32PublicKey, JsError> {
            if index >= 0x8000_0000 {
                return err("expected a soft derivation");
            }
            self.0.derive(DerivationScheme::V2, index).map(Self).map_err(|e| JsError(e.to_string()))
        }
        pub fn to_raw_key(&self) -> PublicKey {
            PublicKey(self.0.public_key())
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PublicKey([u8; 32]);
    impl PublicKey {
        pub fn as_bytes(&self) -> Vec<u8> {
            self.0.to_vec()
        }
        pub fn hash(&self) -> Ed25519KeyHash {
            let mut h = Blake2b::new(28);
            h.input(&self.0);
            let mut out = [0; 28];
            h.result(&mut out);
            Ed25519KeyHash(out)
        }
    }
}
use crypto::*;
pub type PolicyID = ScriptHash;

pub mod address {
    use super::*;
    use bech32::{FromBase32, ToBase32};

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct NetworkInfo {
        id: u8,
        magic: u32,
    }
    impl NetworkInfo {
        pub fn new(id: u8, magic: u32) -> Self {
            NetworkInfo { id, magic }
        }
        pub fn mainnet() -> Self {
            NetworkInfo { id: 1, magic: 764824073 }
        }
        pub fn testnet() -> Self {
            NetworkInfo { id: 0, magic: 1097911063 }
        }
        pub fn network_id(&self) -> u8 {
            self.id
        }
        pub fn protocol_magic(&self) -> u32 {
            self.magic
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum StakeCredential {
        Key(Ed25519KeyHash),
        Script(ScriptHash),
    }
    impl StakeCredential {
        pub fn from_scripthash(h: &ScriptHash) -> Self {
            StakeCredential::Script(h.clone())
        }
        pub fn from_keyhash(h: &Ed25519KeyHash) -> Self {
            StakeCredential::Key(h.clone())
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Address(pub(crate) Vec<u8>);
    impl Address {
        pub fn from_bytes(b: Vec<u8>) -> Result<Address, JsError> {
            let len = match b.first().map(|h| h >> 4) {
                Some(0..=3) => 57,
                Some(6..=7) => 29,
                _ => return err("address of an unknown type"),
            };
            if b.len() != len {
                return err(format!("address of {} bytes", b.len()));
            }
            Ok(Address(b))
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            self.0.clone()
        }
        pub fn from_bech32(s: &str) -> Result<Address, JsError> {
            let (_, data, _) = bech32::decode(s).map_err(|e| JsError(e.to_string()))?;
            Address::from_bytes(Vec::<u8>::from_base32(&data).map_err(|e| JsError(e.to_string()))?)
        }
        pub fn to_bech32(&self, prefix: Option<String>) -> Result<String, JsError> {
            let p = prefix.unwrap_or_else(|| if self.0[0] & 15 == 0 { "addr_test" } else { "addr" }.into());
            bech32::encode(&p, self.0.to_base32(), bech32::Variant::Bech32).map_err(|e| JsError(e.to_string()))
        }
        pub(crate) fn payment(&self) -> StakeCredential {
            let h: [u8; 28] = self.0[1..29].try_into().unwrap();
            if self.0[0] >> 4 & 1 == 1 {
                StakeCredential::Script(ScriptHash(h))
            } else {
                StakeCredential::Key(Ed25519KeyHash(h))
            }
        }
    }

    fn with_kind(c: &StakeCredential) -> (u8, [u8; 28]) {
        match c {
            StakeCredential::Key(h) => (0, h.0),
            StakeCredential::Script(h) => (1, h.0),
        }
    }

    pub struct BaseAddress(u8, StakeCredential, StakeCredential);
    impl BaseAddress {
        pub fn new(network: u8, payment: &StakeCredential, stake: &StakeCredential) -> Self {
            BaseAddress(network, payment.clone(), stake.clone())
        }
        pub fn payment_cred(&self) -> StakeCredential {
            self.1.clone()
        }
        pub fn stake_cred(&self) -> StakeCredential {
            self.2.clone()
        }
        pub fn to_address(&self) -> Address {
            let ((p, payment), (s, stake)) = (with_kind(&self.1), with_kind(&self.2));
            let mut b = vec![(s << 1 | p) << 4 | self.0 & 15];
            b.extend(payment);
            b.extend(stake);
            Address(b)
        }
    }

    pub struct EnterpriseAddress(u8, StakeCredential);
    impl EnterpriseAddress {
        pub fn new(network: u8, payment: &StakeCredential) -> Self {
            EnterpriseAddress(network, payment.clone())
        }
        pub fn to_address(&self) -> Address {
            let (kind, h) = with_kind(&self.1);
            let mut b = vec![(6 | kind) << 4 | self.0 & 15];
            b.extend(h);
            Address(b)
        }
    }
}
use address::*;

pub mod ledger {
    pub mod common {
        pub mod value {
            use crate::*;
            #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default)]
            pub struct BigNum(pub(crate) u64);
            pub type Coin = BigNum;
            impl BigNum {
                pub fn from_str(s: &str) -> Result<BigNum, JsError> {
                    s.parse().map(BigNum).map_err(|e| JsError(format!("{e}: {s}")))
                }
                pub fn to_str(&self) -> String {
                    self.0.to_string()
                }
                pub fn zero() -> BigNum {
                    BigNum(0)
                }
                pub fn checked_mul(&self, o: &BigNum) -> Result<BigNum, JsError> {
                    self.0.checked_mul(o.0).map(BigNum).ok_or(JsError("overflow".into()))
                }
                pub fn checked_add(&self, o: &BigNum) -> Result<BigNum, JsError> {
                    self.0.checked_add(o.0).map(BigNum).ok_or(JsError("overflow".into()))
                }
            }
            impl From<u64> for BigNum {
                fn from(n: u64) -> Self {
                    BigNum(n)
                }
            }
            impl From<BigNum> for u64 {
                fn from(n: BigNum) -> u64 {
                    n.0
                }
            }
            impl fmt::Display for BigNum {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    write!(f, "{}", self.0)
                }
            }

            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct Value {
                pub(crate) coin: Coin,
                pub(crate) assets: Option<MultiAsset>,
            }
            impl Value {
                pub fn new(coin: &Coin) -> Value {
                    Value { coin: *coin, assets: None }
                }
                pub fn coin(&self) -> Coin {
                    self.coin
                }
                pub fn multiasset(&self) -> Option<MultiAsset> {
                    self.assets.clone()
                }
                pub fn set_multiasset(&mut self, m: &MultiAsset) {
                    self.assets = Some(m.clone());
                }
            }
        }
    }
    pub mod alonzo {
        pub mod fees {
            use crate::ledger::common::value::*;
            #[derive(Debug, Clone)]
            pub struct LinearFee {
                coefficient: Coin,
                constant: Coin,
            }
            impl LinearFee {
                pub fn new(coefficient: &Coin, constant: &Coin) -> Self {
                    LinearFee { coefficient: *coefficient, constant: *constant }
                }
                pub fn coefficient(&self) -> Coin {
                    self.coefficient
                }
                pub fn constant(&self) -> Coin {
                    self.constant
                }
            }
        }
    }
    pub mod babbage {
        pub mod min_ada {
            use crate::ledger::common::value::*;
            use crate::*;
            /// the least value an output without assets may have
            pub fn min_pure_ada(per_byte: &Coin, a: &Address, d: &Option<Datum>, s: &Option<plutus::ScriptRef>) -> Result<Coin, JsError> {
                let mut coin = Coin::zero();
                loop {
                    let mut o = TransactionOutput::new(a, &Value::new(&coin));
                    if let Some(d) = d {
                        o.set_datum(d);
                    }
                    if let Some(s) = s {
                        o.set_script_ref(s);
                    }
                    let min = Coin::from(o.to_bytes().len() as u64 + 160).checked_mul(per_byte)?;
                    if min <= coin {
                        return Ok(min);
                    }
                    coin = min;
                }
            }
        }
    }
}
use ledger::common::value::{BigNum, Coin, Value};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AssetName(Vec<u8>);
impl Ord for AssetName {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0.len(), &self.0).cmp(&(o.0.len(), &o.0))
    }
}
impl PartialOrd for AssetName {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl AssetName {
    pub fn new(name: Vec<u8>) -> Result<AssetName, JsError> {
        if name.len() > 32 {
            return err(format!("asset name of {} bytes", name.len()));
        }
        Ok(AssetName(name))
    }
    pub fn name(&self) -> Vec<u8> {
        self.0.clone()
    }
    /// its serialised form
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        cbor::bytes(&mut v, &self.0);
        v
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Assets(BTreeMap<AssetName, BigNum>);
#[derive(Debug, Clone)]
pub struct AssetNames(Vec<AssetName>);
#[derive(Debug, Clone)]
pub struct PolicyIDs(Vec<PolicyID>);
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct MultiAsset(BTreeMap<PolicyID, Assets>);
impl Assets {
    pub fn keys(&self) -> AssetNames {
        AssetNames(self.0.keys().cloned().collect())
    }
    pub fn get(&self, n: &AssetName) -> Option<BigNum> {
        self.0.get(n).cloned()
    }
}
impl AssetNames {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> AssetName {
        self.0[i].clone()
    }
}
impl PolicyIDs {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> PolicyID {
        self.0[i].clone()
    }
}
impl MultiAsset {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_asset(&mut self, p: &PolicyID, n: &AssetName, q: &BigNum) -> Option<BigNum> {
        self.0.entry(p.clone()).or_default().0.insert(n.clone(), *q)
    }
    pub fn keys(&self) -> PolicyIDs {
        PolicyIDs(self.0.keys().cloned().collect())
    }
    pub fn get(&self, p: &PolicyID) -> Option<Assets> {
        self.0.get(p).cloned()
    }
    pub fn get_asset(&self, p: &PolicyID, n: &AssetName) -> BigNum {
        self.get(p).and_then(|a| a.get(n)).unwrap_or_default()
    }
}

pub mod plutus {
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct PlutusData(pub Vec<u8>);
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ScriptRef(pub Vec<u8>);
}
use plutus::*;
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Datum {
    Hash([u8; 32]),
    Data(PlutusData),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransactionInput {
    id: TransactionHash,
    index: BigNum,
}
impl TransactionInput {
    pub fn new(id: &TransactionHash, index: &BigNum) -> Self {
        TransactionInput { id: id.clone(), index: *index }
    }
    pub fn transaction_id(&self) -> TransactionHash {
        self.id.clone()
    }
    pub fn index(&self) -> BigNum {
        self.index
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![0x82];
        cbor::bytes(&mut v, &self.id.0);
        cbor::head(&mut v, 0, self.index.0);
        v
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransactionOutput {
    address: Address,
    amount: Value,
    datum: Option<Datum>,
    script_ref: Option<ScriptRef>,
}
impl TransactionOutput {
    pub fn new(a: &Address, v: &Value) -> Self {
        TransactionOutput { address: a.clone(), amount: v.clone(), datum: None, script_ref: None }
    }
    pub fn address(&self) -> Address {
        self.address.clone()
    }
    pub fn amount(&self) -> Value {
        self.amount.clone()
    }
    pub fn datum(&self) -> Option<Datum> {
        self.datum.clone()
    }
    pub fn script_ref(&self) -> Option<ScriptRef> {
        self.script_ref.clone()
    }
    pub fn set_datum(&mut self, d: &Datum) {
        self.datum = Some(d.clone());
    }
    pub fn set_script_ref(&mut self, s: &ScriptRef) {
        self.script_ref = Some(s.clone());
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        let map = self.datum.is_some() || self.script_ref.is_some();
        let n = 2 + self.datum.is_some() as u64 + self.script_ref.is_some() as u64;
        cbor::head(&mut v, if map { 5 } else { 4 }, n);
        if map {
            v.push(0);
        }
        cbor::bytes(&mut v, &self.address.0);
        if map {
            v.push(1);
        }
        match &self.amount.assets {
            None => cbor::head(&mut v, 0, self.amount.coin.0),
            Some(m) => {
                v.push(0x82);
                cbor::head(&mut v, 0, self.amount.coin.0);
                cbor::head(&mut v, 5, m.0.len() as u64);
                for (p, a) in &m.0 {
                    cbor::bytes(&mut v, &p.0);
                    cbor::head(&mut v, 5, a.0.len() as u64);
                    for (n, q) in &a.0 {
                        cbor::bytes(&mut v, &n.0);
                        cbor::head(&mut v, 0, q.0);
                    }
                }
            }
        }
        if let Some(d) = &self.datum {
            v.push(2);
            v.push(0x82);
            match d {
                Datum::Hash(h) => {
                    v.push(0);
                    cbor::bytes(&mut v, h);
                }
                Datum::Data(d) => {
                    v.push(1);
                    v.extend([0xd8, 0x18]);
                    cbor::bytes(&mut v, &d.0);
                }
            }
        }
        if let Some(s) = &self.script_ref {
            v.push(3);
            v.extend([0xd8, 0x18]);
            cbor::bytes(&mut v, &s.0);
        }
        v
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ScriptPubkey(Ed25519KeyHash);
impl ScriptPubkey {
    pub fn new(h: &Ed25519KeyHash) -> Self {
        ScriptPubkey(h.clone())
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ScriptNOfK {
    n: u32,
    of: NativeScripts,
}
impl ScriptNOfK {
    pub fn new(n: u32, of: &NativeScripts) -> Self {
        ScriptNOfK { n, of: of.clone() }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum NativeScript {
    Pubkey(ScriptPubkey),
    NOfK(ScriptNOfK),
}
impl NativeScript {
    pub fn new_script_pubkey(s: &ScriptPubkey) -> Self {
        NativeScript::Pubkey(s.clone())
    }
    pub fn new_script_n_of_k(s: &ScriptNOfK) -> Self {
        NativeScript::NOfK(s.clone())
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        match self {
            NativeScript::Pubkey(k) => {
                v.extend([0x82, 0]);
                cbor::bytes(&mut v, &k.0 .0);
            }
            NativeScript::NOfK(s) => {
                v.extend([0x83, 3]);
                cbor::head(&mut v, 0, s.n as u64);
                v.extend(s.of.to_bytes());
            }
        }
        v
    }
    pub fn hash(&self) -> ScriptHash {
        use cryptoxide::{blake2b::Blake2b, digest::Digest};
        let mut h = Blake2b::new(28);
        h.input(&[0]);
        h.input(&self.to_bytes());
        let mut out = [0; 28];
        h.result(&mut out);
        ScriptHash(out)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct NativeScripts(Vec<NativeScript>);
impl NativeScripts {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, s: &NativeScript) {
        self.0.push(s.clone());
    }
    pub fn get(&self, i: usize) -> NativeScript {
        self.0[i].clone()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        cbor::head(&mut v, 4, self.0.len() as u64);
        for s in &self.0 {
            v.extend(s.to_bytes());
        }
        v
    }
}
#[derive(Debug, Clone, Default)]
pub struct RequiredSigners(pub Vec<Ed25519KeyHash>);

#[derive(Debug, Clone, Default)]
pub struct TransactionWitnessSet {
    scripts: Option<NativeScripts>,
}
impl TransactionWitnessSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_native_scripts(&mut self, s: &NativeScripts) {
        self.scripts = Some(s.clone());
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        match &self.scripts {
            None => vec![0xa0],
            Some(s) => [&[0xa1, 1][..], &s.to_bytes()].concat(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct UnitInterval;

pub mod builders {
    pub mod witness_builder {
        #[derive(Debug, Clone)]
        pub struct PartialPlutusWitness(pub Vec<u8>);
        /// how many signatures come with a native script
        #[derive(Debug, Clone)]
        pub struct NativeScriptWitnessInfo(pub usize);
        impl NativeScriptWitnessInfo {
            pub fn num_signatures(n: usize) -> Self {
                NativeScriptWitnessInfo(n)
            }
        }
    }
    pub mod input_builder {
        use super::witness_builder::*;
        use crate::*;
        #[derive(Debug, Clone)]
        pub enum Witness {
            Key,
            Plutus,
            Native(NativeScript, usize),
        }
        #[derive(Debug, Clone)]
        pub struct InputBuilderResult {
            pub input: TransactionInput,
            pub utxo_info: TransactionOutput,
            pub witness: Witness,
        }
        pub struct SingleInputBuilder(TransactionInput, TransactionOutput);
        impl SingleInputBuilder {
            pub fn new(i: &TransactionInput, o: &TransactionOutput) -> Self {
                SingleInputBuilder(i.clone(), o.clone())
            }
            fn done(&self, script: bool, witness: Witness) -> Result<InputBuilderResult, JsError> {
                if matches!(self.1.address().payment(), StakeCredential::Script(_)) != script {
                    return err("the payment credential is of another kind");
                }
                Ok(InputBuilderResult { input: self.0.clone(), utxo_info: self.1.clone(), witness })
            }
            pub fn payment_key(&self) -> Result<InputBuilderResult, JsError> {
                self.done(false, Witness::Key)
            }
            pub fn plutus_script(&self, _: &PartialPlutusWitness, _: &RequiredSigners, _: &PlutusData) -> Result<InputBuilderResult, JsError> {
                self.done(true, Witness::Plutus)
            }
            pub fn native_script(&self, s: &NativeScript, w: &NativeScriptWitnessInfo) -> Result<InputBuilderResult, JsError> {
                let r = self.done(true, Witness::Native(s.clone(), w.0))?;
                if self.1.address().payment() != StakeCredential::Script(s.hash()) {
                    return err("another script than that of the address");
                }
                Ok(r)
            }
        }
    }
    pub mod output_builder {
        use crate::*;
        pub struct SingleOutputBuilderResult(pub TransactionOutput);
        impl SingleOutputBuilderResult {
            pub fn new(o: &TransactionOutput) -> Self {
                SingleOutputBuilderResult(o.clone())
            }
        }
    }
    pub mod tx_builder {
        use super::input_builder::*;
        use super::output_builder::*;
        use crate::ledger::alonzo::fees::LinearFee;
        use crate::*;
        #[derive(Debug, Clone, Default)]
        pub struct TransactionBuilderConfigBuilder {
            c: TransactionBuilderConfig,
        }
        #[derive(Debug, Clone, Default)]
        pub struct TransactionBuilderConfig {
            pub fee_algo: Option<LinearFee>,
            pub coins_per_utxo_byte: Option<Coin>,
            pub pool_deposit: Option<Coin>,
            pub key_deposit: Option<Coin>,
            pub max_value_size: Option<u32>,
            pub max_tx_size: Option<u32>,
        }
        macro_rules! set {
            ($($n:ident: $t:ty = $e:expr),*) => { $(
                pub fn $n(&self, x: $t) -> Self {
                    let mut s = self.clone();
                    let f: fn($t) -> _ = $e;
                    s.c.$n = Some(f(x));
                    s
                }
            )* };
        }
        impl TransactionBuilderConfigBuilder {
            pub fn new() -> Self {
                Self::default()
            }
            set!(fee_algo: &LinearFee = |x| x.clone(), coins_per_utxo_byte: &Coin = |x| *x, pool_deposit: &Coin = |x| *x, key_deposit: &Coin = |x| *x, max_value_size: u32 = |x| x, max_tx_size: u32 = |x| x);
            pub fn coins_per_utxo_word(&self, x: &Coin) -> Self {
                self.coins_per_utxo_byte(&BigNum(x.0 / 8))
            }
            pub fn build(&self) -> Result<TransactionBuilderConfig, JsError> {
                let c = self.c.clone();
                if c.fee_algo.is_none() || c.pool_deposit.is_none() || c.key_deposit.is_none() || c.max_value_size.is_none() || c.max_tx_size.is_none() || c.coins_per_utxo_byte.is_none() {
                    return err("uninitialized field");
                }
                Ok(c)
            }
        }

        /// a transaction under construction; its size is that of the whole with dummy witnesses
        #[derive(Debug, Clone)]
        pub struct TransactionBuilder {
            pub config: TransactionBuilderConfig,
            pub inputs: Vec<InputBuilderResult>,
            pub outputs: Vec<TransactionOutput>,
            pub fee: Option<Coin>,
        }
        impl TransactionBuilder {
            pub fn new(c: &TransactionBuilderConfig) -> Self {
                TransactionBuilder { config: c.clone(), inputs: vec![], outputs: vec![], fee: None }
            }
            pub fn set_fee(&mut self, f: &Coin) {
                self.fee = Some(*f);
            }
            pub fn add_input(&mut self, i: &InputBuilderResult) -> Result<(), JsError> {
                if self.inputs.iter().any(|x| x.input == i.input) {
                    return err("input added twice");
                }
                self.inputs.push(i.clone());
                Ok(())
            }
            pub fn add_output(&mut self, o: &SingleOutputBuilderResult) -> Result<(), JsError> {
                self.outputs.push(o.0.clone());
                Ok(())
            }
            pub fn full_size(&self) -> Result<usize, JsError> {
                let mut v = vec![0x84, 0xa3, 0];
                cbor::head(&mut v, 4, self.inputs.len() as u64);
                for i in &self.inputs {
                    v.extend(i.input.to_bytes());
                }
                v.push(1);
                cbor::head(&mut v, 4, self.outputs.len() as u64);
                for o in &self.outputs {
                    v.extend(o.to_bytes());
                }
                v.push(2);
                cbor::head(&mut v, 0, u64::MAX);
                let mut keys = std::collections::BTreeSet::new();
                let mut scripts: Vec<&NativeScript> = vec![];
                let mut extra = 0;
                for i in &self.inputs {
                    match (&i.witness, i.utxo_info.address().payment()) {
                        (Witness::Key, StakeCredential::Key(k)) => {
                            keys.insert(k);
                        }
                        (Witness::Native(s, n), _) => {
                            if !scripts.contains(&s) {
                                scripts.push(s);
                                extra += n;
                            }
                        }
                        _ => extra += 1,
                    }
                }
                let n = keys.len() + extra;
                cbor::head(&mut v, 5, (n > 0) as u64 + !scripts.is_empty() as u64);
                if n > 0 {
                    v.push(0);
                    cbor::head(&mut v, 4, n as u64);
                    v.extend(vec![0; n * 101]);
                }
                if !scripts.is_empty() {
                    v.push(1);
                    cbor::head(&mut v, 4, scripts.len() as u64);
                    for s in scripts {
                        v.extend(s.to_bytes());
                    }
                }
                v.extend([0xf5, 0xf6]);
                Ok(v.len())
            }
            pub fn min_fee(&self, _script_calculation: bool) -> Result<Coin, JsError> {
                let f = self.config.fee_algo.as_ref().unwrap();
                f.coefficient().checked_mul(&BigNum(self.full_size()? as u64))?.checked_add(&f.constant())
            }
            pub fn fee_for_input(&self, i: &InputBuilderResult) -> Result<Coin, JsError> {
                let mut with = self.clone();
                with.add_input(i)?;
                Ok(BigNum(with.min_fee(false)?.0 - self.min_fee(false)?.0))
            }
            pub fn fee_for_output(&self, o: &SingleOutputBuilderResult) -> Result<Coin, JsError> {
                let mut with = self.clone();
                with.add_output(o)?;
                Ok(BigNum(with.min_fee(false)?.0 - self.min_fee(false)?.0))
            }
        }
    }
}
