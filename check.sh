#!/bin/bash
# check.sh ID TIER: build the checker of one property against /repo's working tree and run it.
# Exit 0: held on everything explored. 1: violation. 2: the check itself could not run.
set -u
ID=$1; TIER=${2:-quick}
DIR=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF="${MC_VERIF:-$DIR}" MC_TIER=$TIER CARGO_NET_OFFLINE=true
BIN=$(echo "$ID" | tr A-Z a-z)
cd "$DIR/mc" || exit 2
FEAT=""
case $ID in C14|C15)
  FEAT="--features gen"
  if [ "$TIER" = thorough ]; then
    FEAT="--features gen4"
    python3 "$DIR/tools/gen_structs.py" src/structs_four.rs --four || exit 2
  fi;;
esac
# C08 observes the abort on a failed allocation through the (unstable) allocation error hook.
[ "$ID" = C08 ] && export RUSTC_BOOTSTRAP=c08
build() { # profile
  local out
  if ! out=$(cargo build --offline --quiet --profile "$1" --bin "$BIN" $FEAT 2>&1); then
    echo "$out" | grep -v '^warning' | tail -60 >&2
    echo "ENGINE ERROR: building $BIN against /repo failed" >&2
    exit 2
  fi
}
PROF=release
[ "$ID" = C10 ] && PROF=lean
build $PROF
"target/$PROF/$BIN" "$TIER"; rc=$?
# (C18 and C21 judge what the compiler says, which the profile does not change.)
if [ $rc -eq 0 ] && [ "$TIER" = thorough ] && [ "$ID" != C18 ] && [ "$ID" != C21 ]; then
  # the quick bounds again with the library's debug assertions and overflow checks on
  FEAT=${FEAT/gen4/gen}
  build dbg
  MC_EVIDENCE_DIR="$DIR/mc/target/evidence-dbg" "target/dbg/$BIN" quick; rc=$?
fi
# the interpreted part
if [ $rc -eq 0 ] && [ "$ID" = C05 ]; then
  python3 "$DIR/tools/miri.py" "$TIER"; rc=$?
fi
exit $rc
