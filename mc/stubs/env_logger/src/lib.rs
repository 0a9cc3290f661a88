//! Stand-in: RESSA links `env_logger` but its library code never needs a logger installed.
pub fn init() {}
pub fn try_init() -> Result<(), ()> { Ok(()) }
