//! Blocks in a made-up serialization (see `encode`), behind the names of the real crate.
use std::fmt;

#[derive(Debug, Clone)]
pub struct DeserializeError(pub String);
impl fmt::Display for DeserializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for DeserializeError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct BlockHeaderHash(pub [u8; 32]);
impl AsRef<[u8]> for BlockHeaderHash {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Display for BlockHeaderHash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for b in self.0 {
            write!(f, "{b:02x}")?;
        }
        Ok(())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Raw {
    /// 0 and 1: Byron boundary and main; 2..: later eras
    pub era: u8,
    pub number: u64,
    pub slot: u64,
    pub epoch: u64,
    pub prev: Option<[u8; 32]>,
    pub hash: [u8; 32],
}

const MAGIC: &[u8; 4] = b"blk!";

pub fn encode(b: &Raw, payload: &[u8]) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.push(b.era);
    for n in [b.number, b.slot, b.epoch] {
        v.extend(n.to_be_bytes());
    }
    v.push(b.prev.is_some() as u8);
    v.extend(b.prev.unwrap_or_default());
    v.extend(b.hash);
    v.extend(payload);
    v
}

fn decode(b: &[u8]) -> Result<Raw, DeserializeError> {
    let bad = || DeserializeError("not a block".into());
    if b.len() < 94 || &b[..4] != MAGIC {
        return Err(bad());
    }
    let n = |i: usize| u64::from_be_bytes(b[i..i + 8].try_into().unwrap());
    let h = |i: usize| -> [u8; 32] { b[i..i + 32].try_into().unwrap() };
    Ok(Raw { era: b[4], number: n(5), slot: n(13), epoch: n(21), prev: (b[29] == 1).then(|| h(30)), hash: h(62) })
}

pub mod byron {
    pub mod block {
        #[derive(Debug, Clone)]
        pub enum ByronBlock {
            EpochBoundary(ByronEbBlock),
            Main(ByronMainBlock),
        }
        #[derive(Debug, Clone)]
        pub struct ByronEbBlock {
            pub header: EbbHead,
        }
        #[derive(Debug, Clone)]
        pub struct EbbHead {
            pub consensus_data: EbbConsensusData,
        }
        #[derive(Debug, Clone)]
        pub struct EbbConsensusData {
            pub epoch_id: u64,
        }
        #[derive(Debug, Clone)]
        pub struct ByronMainBlock {
            pub header: ByronBlockHeader,
        }
        #[derive(Debug, Clone)]
        pub struct ByronBlockHeader {
            pub consensus_data: ByronBlockConsensusData,
        }
        #[derive(Debug, Clone)]
        pub struct ByronBlockConsensusData {
            pub byron_slot_id: ByronSlotId,
        }
        #[derive(Debug, Clone)]
        pub struct ByronSlotId {
            pub epoch: u64,
            pub slot: u64,
        }
    }
}

#[derive(Debug, Clone)]
pub struct Later(Raw);

/// The real enumeration has one variant per era.
#[derive(Debug, Clone)]
pub enum MultiEraBlock {
    Byron(byron::block::ByronBlock),
    Shelley(Later),
    Allegra(Later),
    Mary(Later),
    Alonzo(Later),
    Babbage(Later),
    Conway(Later),
}

pub mod utils {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct MultiEraBlockHeader(pub(crate) Raw);
    impl MultiEraBlockHeader {
        pub fn slot(&self) -> u64 {
            self.0.slot
        }
        pub fn block_number(&self) -> u64 {
            self.0.number
        }
        pub fn prev_hash(&self) -> Option<BlockHeaderHash> {
            self.0.prev.map(BlockHeaderHash)
        }
    }
}

thread_local! {
    // The Byron structures have no room for the whole header in this stand-in: it is that of the
    // last block decoded on this thread.
    static LAST: std::cell::RefCell<Option<Raw>> = const { std::cell::RefCell::new(None) };
}

impl MultiEraBlock {
    pub fn from_explicit_network_cbor_bytes(bytes: &[u8]) -> Result<Self, DeserializeError> {
        use byron::block::*;
        let r = decode(bytes)?;
        LAST.with(|l| *l.borrow_mut() = Some(r.clone()));
        Ok(match r.era {
            0 => Self::Byron(ByronBlock::EpochBoundary(ByronEbBlock { header: EbbHead { consensus_data: EbbConsensusData { epoch_id: r.epoch } } })),
            1 => Self::Byron(ByronBlock::Main(ByronMainBlock {
                header: ByronBlockHeader { consensus_data: ByronBlockConsensusData { byron_slot_id: ByronSlotId { epoch: r.epoch, slot: r.slot } } },
            })),
            2 => Self::Shelley(Later(r)),
            3 => Self::Allegra(Later(r)),
            4 => Self::Mary(Later(r)),
            5 => Self::Alonzo(Later(r)),
            6 => Self::Babbage(Later(r)),
            7 => Self::Conway(Later(r)),
            e => return Err(DeserializeError(format!("unknown era {e}"))),
        })
    }
    fn raw(&self) -> Raw {
        match self {
            Self::Byron(_) => LAST.with(|l| l.borrow().clone()).expect("a block was decoded before"),
            Self::Shelley(l) | Self::Allegra(l) | Self::Mary(l) | Self::Alonzo(l) | Self::Babbage(l) | Self::Conway(l) => l.0.clone(),
        }
    }
    pub fn header(&self) -> utils::MultiEraBlockHeader {
        utils::MultiEraBlockHeader(self.raw())
    }
    pub fn hash(&self) -> BlockHeaderHash {
        BlockHeaderHash(self.raw().hash)
    }
}
