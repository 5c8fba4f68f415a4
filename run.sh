#!/bin/bash
# run.sh <property> [--thorough | --replay <tier> <case>]
# Rebuilds the harness (and for some checks the compiler and language server
# binaries) from /repo's working tree, then explores.
cd /verif || exit 2
id="$1"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER
case "$id" in
  C15|C29) bin=mc_ir ;;
  C30|C31) bin=mc_trees ;;
  *) bin=mc ;;
esac
mkdir -p /verif/target
exec 9>/verif/target/.build-lock
flock 9
bash /verif/harness/build.sh --bin $bin >/verif/target/build-$id.log 2>&1 || { echo "the harness does not build against /repo"; grep -E '^error' -A6 /verif/target/build-$id.log | head -40; exit 2; }
case "$id" in
  C17|C18|C19|C20|C21|C22|C23|C28)
    cargo build --release --manifest-path /repo/Cargo.toml --target-dir /verif/target/repo -p ticc -p ticc-lsp --offline --locked >/verif/target/build-repo-$id.log 2>&1 \
      || { echo "/repo does not build"; grep -E '^error' -A6 /verif/target/build-repo-$id.log | head -40; exit 2; } ;;
esac
flock -u 9
exec 9>&-
exec /verif/target/release/$bin check "$@"
