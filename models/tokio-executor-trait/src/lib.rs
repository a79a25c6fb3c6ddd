//! Stand-in for the executor handed to the AMQP client library; the modelled client needs none.
#[derive(Clone, Debug, Default)]
pub struct Tokio;
impl Tokio { pub fn current() -> Self { Tokio } }
