// the derive macro needs the trait in scope
/// `op! { Name tag }`: an operation whose output tells which operation ran, on what.
macro_rules! op { ($($name:ident $tag:literal),*) => {
    #[allow(unused_imports)]
    use paladin::operation::Operation as _;
    $(
    #[derive(serde::Serialize, serde::Deserialize, paladin::RemoteExecute)]
    pub struct $name { pub n: u8 }
    impl paladin::operation::Operation for $name {
        type Input = u8;
        type Output = u32;
        fn execute(&self, x: u8, _: paladin::AbortSignal) -> paladin::operation::Result<u32> { Ok($tag << 16 | (self.n as u32) << 8 | x as u32) }
    }
)* } }
