#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [--only phase:case]
# Builds the monitors against the current tree of /repo and runs one of them.
# Exit 0: the property held on everything observed. Exit 1: VIOLATION. Anything else: error.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
ID="$1"
shift
mkdir -p evidence target
rm -f "$VERIF_ROOT/evidence/$ID.json" "$VERIF_ROOT"/evidence/replay-"$ID"-*.txt
. ./build.sh "$ID" || exit 2
case "$VERIF_TIER $*" in
  *thorough*)
    sanitizers "$ID" || exit 2
    ;;
esac
(
  # Sanitizers reserve address space.
  case "$VERIF_TIER $*" in
    *thorough*) ;;
    *) ulimit -v 24000000 ;;
  esac
  exec ./target/debug/hclmon "$ID" "$@"
)
rc=$?
case $rc in
  0 | 1) exit $rc ;;
  134 | 139 | 101 | 132 | 135 | 136)
    # The monitored process was brought down by the code under test.
    f="$VERIF_ROOT/evidence/replay-$ID-0.txt"
    {
      echo "property: $ID"
      echo "seed: ${VERIF_SEED:-1}"
      echo "--- what"
      echo "the monitored process crashed with status $rc (aborted, stack overflow or memory exhausted)"
      echo "rerun: VERIF_SEED=${VERIF_SEED:-1} ./check.sh $ID $*"
    } > "$f"
    echo "VIOLATION property=$ID replay=$f"
    exit 1
    ;;
  *) exit 2 ;;
esac
