//! plain data of transactions, and what the ledger makes of it: sizes by an own CBOR encoder
use common::Rng;
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, Value};
use deps::bigdecimal::BigDecimal;

pub fn val(n: u64) -> Value<Regulated> {
    Value::new(BigDecimal::from(n))
}

pub fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}

pub fn case_of(r: &mut Rng, s: String) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Asset {
    pub policy: Vec<u8>,
    pub name: Vec<u8>,
    pub q: u64,
}

/// an output as plain data
#[derive(Clone, Debug)]
pub struct Out {
    pub address: Vec<u8>,
    pub coin: u64,
    /// in order of policy and name, each once
    pub assets: Vec<Asset>,
}

pub fn addr_text(a: &[u8]) -> String {
    use bech32::ToBase32;
    bech32::encode(if a[0] & 15 == 0 { "addr_test" } else { "addr" }, a.to_base32(), bech32::Variant::Bech32).unwrap()
}

pub fn base_address(r: &mut Rng) -> Vec<u8> {
    let mut a = bytes(r, 57);
    a[0] = (r.below(4) << 4 | r.below(2)) as u8;
    a
}

/// any address, its payment part a key if so asked
pub fn address(r: &mut Rng, key: bool) -> Vec<u8> {
    let kind = match (r.chance(1, 3), key) {
        (true, true) => 6,
        (true, false) => 7,
        (false, true) => 2 * r.below(2),
        (false, false) => 2 * r.below(2) + 1,
    };
    let mut a = bytes(r, if kind > 5 { 29 } else { 57 });
    a[0] = (kind << 4 | r.below(2)) as u8;
    a
}

pub fn policies(r: &mut Rng) -> Vec<Vec<u8>> {
    (0..r.range(1, 3)).map(|_| bytes(r, 28)).collect()
}

pub fn asset(r: &mut Rng, ps: &[Vec<u8>], names: &[Vec<u8>]) -> Asset {
    Asset { policy: r.pick(ps).clone(), name: r.pick(names).clone(), q: r.skewed(64) }
}

pub fn names(r: &mut Rng) -> Vec<Vec<u8>> {
    (0..r.range(1, 5))
        .map(|_| {
            let n = *r.pick(&[0, 1, 5, 23, 24, 31, 32, 32]);
            let n = if r.chance(1, 2) { n } else { r.below(33) };
            bytes(r, n)
        })
        .collect()
}

pub fn to_asset(r: &mut Rng, a: &Asset) -> TransactionAsset {
    let (p, n) = (hex::encode(&a.policy), hex::encode(&a.name));
    let fingerprint = cardano_utils::fingerprint(&PolicyId::new(p.clone()), &AssetName::new(n.clone())).unwrap();
    TransactionAsset { policy_id: PolicyId::new(case_of(r, p)), asset_name: AssetName::new(case_of(r, n)), fingerprint, quantity: val(a.q) }
}

pub fn to_builder(r: &mut Rng, o: &Out) -> UTxOBuilder {
    let assets = o.assets.iter().map(|a| to_asset(r, a)).collect();
    UTxOBuilder::new(Address::new(addr_text(&o.address)), val(o.coin), assets)
}

pub fn to_details(r: &mut Rng, id: &[u8], ix: u64, o: &Out) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new(hex::encode(id)), output_index: OutputIndex::new(ix) },
        address: Address::new(addr_text(&o.address)),
        value: val(o.coin),
        assets: o.assets.iter().map(|a| to_asset(r, a)).collect(),
        metadata: Default::default(),
        extra: None,
    }
}

fn head(n: u64) -> usize {
    match n {
        0..=23 => 1,
        24..=0xff => 2,
        0x100..=0xffff => 3,
        0x1_0000..=0xffff_ffff => 5,
        _ => 9,
    }
}
fn blob(n: usize) -> usize {
    head(n as u64) + n
}

pub fn size_of_input(ix: u64) -> usize {
    1 + blob(32) + head(ix)
}

pub fn size_of_output(o: &Out) -> usize {
    let mut n = 1 + blob(o.address.len());
    if o.assets.is_empty() {
        return n + head(o.coin);
    }
    n += 1 + head(o.coin);
    let mut ps: Vec<&Vec<u8>> = o.assets.iter().map(|a| &a.policy).collect();
    ps.sort();
    ps.dedup();
    n += head(ps.len() as u64);
    for p in ps {
        let of: Vec<&Asset> = o.assets.iter().filter(|a| &a.policy == p).collect();
        n += blob(28) + head(of.len() as u64);
        for a in of {
            n += blob(a.name.len()) + head(a.q);
        }
    }
    n
}

/// [script number, keys of 28 bytes]
pub fn script(quorum: u64, keys: &[Vec<u8>]) -> Vec<u8> {
    fn put(v: &mut Vec<u8>, major: u8, n: u64) {
        match head(n) {
            1 => v.push(major << 5 | n as u8),
            2 => v.extend([major << 5 | 24, n as u8]),
            3 => {
                v.push(major << 5 | 25);
                v.extend((n as u16).to_be_bytes());
            }
            _ => {
                v.push(major << 5 | 26);
                v.extend((n as u32).to_be_bytes());
            }
        }
    }
    let mut v = vec![0x83, 3];
    put(&mut v, 0, quorum);
    put(&mut v, 4, keys.len() as u64);
    for k in keys {
        v.extend([0x82, 0]);
        put(&mut v, 2, k.len() as u64);
        v.extend(k);
    }
    v
}

#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub inputs: Vec<u64>,
    pub outputs: Vec<Out>,
    pub fee: u64,
    pub signatures: usize,
    pub script: Option<usize>,
    pub magic: Option<usize>,
}

impl Tx {
    pub fn size(&self) -> usize {
        // body
        let mut n = 1 + 1 + head(self.inputs.len() as u64) + 1 + head(self.outputs.len() as u64) + 1 + head(self.fee);
        n += self.inputs.iter().map(|i| size_of_input(*i)).sum::<usize>();
        n += self.outputs.iter().map(size_of_output).sum::<usize>();
        if self.magic.is_some() {
            n += 1 + blob(32);
        }
        // witnesses
        n += 1;
        if self.signatures > 0 {
            n += 1 + head(self.signatures as u64) + self.signatures * (1 + blob(32) + blob(64));
        }
        if let Some(s) = self.script {
            n += 1 + 1 + s;
        }
        // validity, auxiliary data, and the array around it all
        n += 1 + 1;
        n += match self.magic {
            // {87: text}
            Some(m) => 1 + head(87) + blob(m),
            None => 1,
        };
        n
    }
}
