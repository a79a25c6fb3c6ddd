//! Operations declared in a crate of their own (C25).
use paladin::{operation::{Operation, Result}, AbortSignal, RemoteExecute};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Library { pub n: u8 }
impl Operation for Library { type Input = u8; type Output = u32; fn execute(&self, x: u8, _: AbortSignal) -> Result<u32> { Ok(1000 << 16 | (self.n as u32) << 8 | x as u32) } }
pub mod inner {
    use super::*;
    #[derive(Serialize, Deserialize, RemoteExecute)]
    pub struct Nested { pub n: u8 }
    impl Operation for Nested { type Input = u8; type Output = u32; fn execute(&self, x: u8, _: AbortSignal) -> Result<u32> { Ok(1001 << 16 | (self.n as u32) << 8 | x as u32) } }
}
