#!/bin/bash
# check.sh ID [args]: builds the check of property ID against /repo's working tree and runs it.
#   check.sh C03                      quick or thorough run, by VERIF_TIER (default quick)
#   check.sh C03 replay FILE          re-runs one recorded failing input
#   check.sh setup                    builds every check
[ "$2" = replay ] && [ -n "$3" ] && set -- "$1" "$2" "$(realpath "$3")"
cd /verif/harness || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RAYON_NUM_THREADS CARGO_TARGET_DIR CARGO_BUILD_TARGET
# never trust time stamps of /repo's files: always recompile the code under test
for f in /verif/harness/target/release/.fingerprint/groth-sahai-*; do
  [ -d "$f" ] && rm -rf "$f"
done
if [ "$1" = setup ]; then
  exec cargo build --offline --release --bins
fi
bin=$(echo "$1" | tr 'A-Z' 'a-z'); shift
log=$(mktemp)
if ! cargo build --offline --release --bin "$bin" >"$log" 2>&1; then
  echo "build failed:"; tail -40 "$log"; rm -f "$log"; exit 3
fi
rm -f "$log"
exec ./target/release/"$bin" "$@"
