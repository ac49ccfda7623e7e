#!/bin/bash
# check.sh <property>: build and simulate. VERIF_SEED and VERIF_TIER apply.
# check.sh replay <file>: replay a violation.
here="$(cd "$(dirname "$0")" && pwd)"
what=check
[ "$1" = replay ] && { what=replay; shift; }
case "$(basename "$1")" in
    C11*) kind=fine target="$here/sim/target/fine" ;;
    *) kind=plain target="$here/sim/target" ;;
esac
"$here/build.sh" $kind || exit 2
export NDSIM_ROOT="$here"
exec "$target/release/ndsim" $what "$1"
