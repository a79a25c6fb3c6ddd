op! { E1 30, E2 31, E3 32, Same 33 }
#[derive(serde::Serialize, serde::Deserialize, paladin::RemoteExecute)]
pub enum Either { Left { n: u8 }, Right }
impl paladin::operation::Operation for Either {
    type Input = u8;
    type Output = u32;
    fn execute(&self, x: u8, _: paladin::AbortSignal) -> paladin::operation::Result<u32> { Ok(34 << 16 | (match self { Either::Left { n } => *n, Either::Right => 0 } as u32) << 8 | x as u32) }
}
