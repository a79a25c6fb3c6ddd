//! Stand-in for the reactor handed to the AMQP client library; the modelled client needs none.
#[derive(Clone, Debug, Default)]
pub struct Tokio;
