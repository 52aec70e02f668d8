//! Stand-in for `env_logger`: the harness starts many servers in one process, the real
//! `init` may only be called once per process.
pub use real_env_logger::*;
pub fn init() {}
pub fn try_init() -> Result<(), std::convert::Infallible> {
    Ok(())
}
