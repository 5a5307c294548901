pub mod network {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ProtocolMagic(u32);
    impl From<u32> for ProtocolMagic {
        fn from(x: u32) -> Self {
            Self(x)
        }
    }
    impl From<ProtocolMagic> for u32 {
        fn from(x: ProtocolMagic) -> u32 {
            x.0
        }
    }
}
