//! The real server program (/repo/src/main.rs), compiled with a controlled tokio.
#![allow(dead_code, unused_imports, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/server_main.rs"));

/// Runs the program's own `main`; the executor stand-in captures its future.
pub fn __mc_start() {
    let _ = main();
}
