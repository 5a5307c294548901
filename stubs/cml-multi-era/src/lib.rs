#[derive(Debug, Clone)]
pub struct Hash;
impl std::fmt::Display for Hash {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        loop {}
    }
}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        loop {}
    }
}
pub mod utils {
    pub struct MultiEraBlockHeader;
    impl MultiEraBlockHeader {
        pub fn prev_hash(&self) -> Option<crate::Hash> {
            loop {}
        }
        pub fn block_number(&self) -> u64 {
            loop {}
        }
        pub fn slot(&self) -> u64 {
            loop {}
        }
    }
}
pub mod byron {
    pub mod block {
        pub struct SlotId {
            pub epoch: u64,
        }
        pub struct EbCons {
            pub epoch_id: u64,
        }
        pub struct EbHeader {
            pub consensus_data: EbCons,
        }
        pub struct EbBlock {
            pub header: EbHeader,
        }
        pub struct MainCons {
            pub byron_slot_id: SlotId,
        }
        pub struct MainHeader {
            pub consensus_data: MainCons,
        }
        pub struct MainBlock {
            pub header: MainHeader,
        }
        pub enum ByronBlock {
            EpochBoundary(EbBlock),
            Main(MainBlock),
        }
    }
}
pub enum MultiEraBlock {
    Byron(byron::block::ByronBlock),
    Shelley(()),
}
#[derive(Debug)]
pub struct DeserializeError;
impl MultiEraBlock {
    pub fn from_explicit_network_cbor_bytes(_: &[u8]) -> Result<Self, DeserializeError> {
        loop {}
    }
    pub fn header(&self) -> utils::MultiEraBlockHeader {
        loop {}
    }
    pub fn hash(&self) -> [u8; 32] {
        loop {}
    }
}
