#!/bin/bash
# bash check.sh <property id> [quick|thorough]: builds what is needed from /repo's working tree
# and runs the monitors of one property. VERIF_SEED and VERIF_TIER are honoured.
PROP="${1:?usage: check.sh <property id>}"
[ -z "$2" ] || export VERIF_TIER="$2"
. "$(dirname "$0")/bin/env.sh"
exec 9>"$BUILD/lock"
flock 9
build_repo || { tail -n 20 "$BUILD/repo.log" >&2; echo "inconclusive: /repo does not build" >&2; exit 2; }
build_driver || { tail -n 20 "$BUILD/driver.log" >&2; echo "inconclusive: the monitors do not build" >&2; exit 2; }
PROBE=
if [ "$PROP" = C19 ]; then
  build_probe || { tail -n 20 "$BUILD/probe.log" >&2; echo "inconclusive: the syntax library's probe does not build" >&2; exit 2; }
  PROBE="$BUILD/probe/debug/bulloak-probe"
fi
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/bulloak-mon.XXXXXXXX")" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
cp "$BUILD/repo/debug/bulloak" "$SCRATCH/bulloak" || exit 2
SAN=
if [ "$PROP" = C01 ] && [ "$VERIF_TIER" = thorough ]; then
  # Part of the workload runs under AddressSanitizer.
  if build_asan && cp "$BUILD/asan/x86_64-unknown-linux-gnu/debug/bulloak" "$SCRATCH/bulloak-asan"; then
    SAN="$SCRATCH/bulloak-asan"
  else
    echo "note: no build with AddressSanitizer, going without" >&2
  fi
fi
flock -u 9
"$BUILD/driver/release/bulloak-monitor" --prop "$PROP" --repo "$REPO" --verif "$VERIF" \
  --bin "$SCRATCH/bulloak" --shim "$BUILD/shim.so" --probe "$PROBE" --san "$SAN" --scratch "$SCRATCH/work"
exit $?
