#!/bin/bash
# run.sh PROPERTY            explore and judge
# run.sh replay FILE         re-execute a reported violation
# run.sh log PROPERTY N      print the event logs of the first N runs
# run.sh build               only build
#
# VERIF_SEED  base seed (1)          VERIF_TIER  quick|thorough (quick)
# VERIF_SECS  seconds of exploration, instead of the tier's default
# Exit: 0 held, 1 violation, anything else is an error of the check.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
what=${1:?property or command}
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}

out=$here/build
mkdir -p "$out" "$here/evidence" "$here/replays" || exit 2
scratch=$(mktemp -d "$out/run.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT

. /opt/vp/env.sh
export GOTMPDIR=$scratch TMPDIR=$scratch

# make LEVEL [-race]: instrument the working tree and build it
make() {
	rm -rf "$scratch/o"
	"$scratch/prep" -sim "$here/sim" -out "$scratch/o" -level "$1" >&2 &&
		(cd /repo && go build -modfile="$scratch/o/go.mod" -overlay "$scratch/o/overlay.json" ${2:-} -o "$scratch/harness" ./verifsim/harness) >&2
}

build() {
	(cd "$here/sim/prep" && GOFLAGS= go build -o "$scratch/prep" .) >&2 || return 1
	level=2
	make 2 "$@" && return 0
	echo "full instrumentation does not build, trying the coarse one" >&2
	level=1
	make 1 "$@"
}

run() { "$scratch/harness" -scratch "$scratch" -replays "$here/replays" -known "$here/known_findings.jsonl" -level "$level" -seed "$seed" -tier "$tier" "$@"; }

case $what in
build)
	build && build -race && echo "simulated build is up" || exit 2
	;;
replay)
	file=$(realpath "${2:?replay file}")
	flag=
	grep -q '"race": *true' "$file" && flag=-race
	build $flag || exit 2
	run -mode replay -file "$file"
	;;
log)
	build || exit 2
	run -mode log -prop "${2:?property}" -max "${3:-10}" "${@:4}" 3>&1
	;;
C*)
	# accesses are only tracked for the property about data races
	flag=
	[ "$what" = C02 ] && flag=-race
	build $flag || { echo "the simulated build failed" >&2; exit 2; }
	secs=30
	[ "$tier" = thorough ] && secs=600
	run -mode check -prop "$what" -secs "${VERIF_SECS:-$secs}" -evidence "$here/evidence/$what.json"
	;;
*)
	echo "unknown command $what" >&2
	exit 2
	;;
esac
