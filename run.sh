#!/bin/bash
# run.sh check <property>          one property, at the depth VERIF_TIER asks for
# run.sh replay <file>             re-runs a recorded violation
cd "$(dirname "$0")"
t0=$(date +%s)
tools/build.sh >&2 || exit 2
echo "build: $(( $(date +%s) - t0 )) s" >&2
case $1 in
    check) exec sim/target/release/phoenix-sim check "$2" "${3:-${VERIF_TIER:-quick}}" "evidence/$2.json" ;;
    replay) exec sim/target/release/phoenix-sim replay "$2" ;;
    *) echo "usage: run.sh check <property> | replay <file>" >&2; exit 2 ;;
esac
