#!/bin/bash
# Usage: check.sh <property id, e.g. C03> [quick|thorough]
# Builds the checker of one property against /repo's working tree and runs it.
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$here"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" VERIF_DIR="$here" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export MALLOC_ARENA_MAX=1
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
log="$here/target/build-$bin.log"; mkdir -p "$here/target" "$here/evidence"

# the builds a property is checked in: "release" has all run-time checks, "fast" has none (what users ship)
profiles=release
case "$id" in C10) profiles="release fast" ;; esac

rm -f "$here/evidence/$id.json"
for profile in $profiles; do
  if ! cargo build --offline --profile "$profile" --manifest-path "$here/mc/Cargo.toml" --bin "$bin" >"$log" 2>&1; then
    echo "ERROR: build failed"; tail -50 "$log"; exit 2
  fi
  [ "$profiles" = release ] && exec "$here/target/release/$bin" --tier "$tier"
  MC_PART="$profile" "$here/target/$profile/$bin" --tier "$tier"; rc=$?
  [ $rc = 0 ] || break
done
python3 "$here/tools/merge_evidence.py" "$here/evidence" "$id" $profiles
exit $rc
