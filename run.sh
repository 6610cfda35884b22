#!/bin/bash
# Builds the harness against /repo's working tree and runs one check.
#   ./run.sh <property> [--case <part>:<index>]
# Tier and seed come from VERIF_TIER (quick, thorough) and VERIF_SEED.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIFH_EVIDENCE=${VERIFH_EVIDENCE:-$here/evidence}
bin=$(mktemp -d "${TMPDIR:-/tmp}/verifh-bin.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
if ! go build -o "$bin/verifh" . >"$bin/log" 2>&1; then
	cat "$bin/log" >&2
	echo "inconclusive: the harness does not build against this tree" >&2
	exit 2
fi
if "$bin/verifh" --needs-race "$1"; then
	if ! go build -race -o "$bin/verifh-race" . >"$bin/log" 2>&1; then
		cat "$bin/log" >&2
		exit 2
	fi
	export VERIFH_RACE_BIN=$bin/verifh-race
fi
if [ "$1" = E01 ]; then
	# The programs that the check runs, with and without race detection.
	export VERIFH_EXAMPLES=$bin/examples VERIFH_EXAMPLES_RACE=$bin/examples-race
	mkdir "$VERIFH_EXAMPLES" "$VERIFH_EXAMPLES_RACE"
	if ! (cd /repo && go build -o "$VERIFH_EXAMPLES/" ./examples/... && go build -race -o "$VERIFH_EXAMPLES_RACE/" ./examples/...) >"$bin/log" 2>&1; then
		cat "$bin/log" >&2
		echo "inconclusive: the examples do not build" >&2
		exit 2
	fi
fi
"$bin/verifh" "$@"
