pub mod genesis {
    pub mod network_info {
        use cml_core::network::ProtocolMagic;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct NetworkInfo {
            network_id: u8,
            protocol_magic: ProtocolMagic,
        }
        impl NetworkInfo {
            pub fn new(network_id: u8, protocol_magic: ProtocolMagic) -> Self {
                Self { network_id, protocol_magic }
            }
            pub fn network_id(&self) -> u8 {
                self.network_id
            }
            pub fn protocol_magic(&self) -> ProtocolMagic {
                self.protocol_magic
            }
            pub fn mainnet() -> Self {
                loop {}
            }
            pub fn testnet() -> Self {
                loop {}
            }
            pub fn preprod() -> Self {
                loop {}
            }
            pub fn preview() -> Self {
                loop {}
            }
        }
    }
}
