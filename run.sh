#!/bin/bash
# Builds the simulation of /repo's current working tree in a scratch directory and runs
# one command of it:
#   run.sh check PROP quick|thorough [RUNS]   search for violations of a property
#   run.sh replay [-trace] FILE               re-execute a recorded violation
#   run.sh determinism [N]                    run scenarios of every property twice and compare
#   run.sh sim ARGS...                        any other subcommand of the simulator
#   run.sh setup                              build only
# REPO (default /repo) selects the tree under test.
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GOWORK=off
export LC_ALL=C.UTF-8 HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
B=$(mktemp -d "${TMPDIR:-/tmp}/msim.XXXXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
trap 'exit 143' TERM INT HUP
build() {
	cp -r "$V/sim/rt" "$V/sim/ov" "$V/sim/harness" "$B/" || return 1
	sed 's#^module.*#module msim#' "$R/go.mod" > "$B/go.mod" && cp "$R/go.sum" "$B/go.sum" || return 1
	(cd "$V/sim/rewriter" && go build -o "$B/rewriter.bin" .) || return 1
	"$B/rewriter.bin" -repo "$R" -out "$B" -ov "$V/sim/ov" || return 1
	(cd "$B" && go build -o sim ./harness) || return 1
}
if ! build > "$B/build.log" 2>&1; then
	cat "$B/build.log" >&2
	echo "harness error: the simulation of $R does not build" >&2
	exit 2
fi
cmd=${1:-}
shift
case "$cmd" in
setup) echo "simulation builds" ;;
check)
	p=$1; t=${2:-quick}
	set -- -prop "$p" -tier "$t" -seed "${VERIF_SEED:-1}" -root "$V" ${3:+-runs "$3"}
	mkdir -p "$V/evidence" "$V/replays"
	"$B/sim" check "$@" & wait $! ;;
replay) "$B/sim" replay "$@" ;;
determinism) "$B/sim" determinism -max "${1:-40}" ;;
sim) "$B/sim" "$@" ;;
*) echo "usage: run.sh check|replay|determinism|setup|sim ..." >&2; exit 2 ;;
esac
