# Builds the harness from /verif/mc and /repo's current working tree (sourced; offline).
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
mkdir -p /verif/target
if ! (cd /verif/mc && cargo build --release --offline --locked >/verif/target/build.log 2>&1); then
  echo "building the harness failed:" >&2
  tail -40 /verif/target/build.log >&2
  return 2 2>/dev/null || exit 2
fi
