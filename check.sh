#!/bin/bash
# check.sh <ID> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE             run a replay file again
# check.sh setup                   build everything once
#
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
# Anything else: no answer (the simulator or /repo did not build, ...).
set -u
V=$(cd "$(dirname "$0")" && pwd) || exit 3
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
unset GOROOT GOEXPERIMENT GODEBUG GOTMPDIR
: "${HOME:=/root}"; export HOME

die() { echo "check.sh: $*" >&2; exit 3; }

# Which build decides a property.
kind_of() {
	case "$1" in
	C07|C08|C09|C10|C15) echo race ;;
	C14) echo trie ;;
	*) echo plain ;;
	esac
}

# build KIND: the simulator with /repo's current code in it, in $B/KIND.
build() {
	local k=$1 d=$B/$1 inpkg=() flags=() tools goroot
	mkdir -p "$d" || die "cannot write $d"
	goroot=$(cd "$V/sim" && go env GOROOT) || die "no go"
	tools=$(cd "$R" && go list -m -f '{{.Dir}}' golang.org/x/tools) || die "golang.org/x/tools is not in the module cache"
	case $k in
	race) flags=(-race) ;;
	trie) inpkg=(-inpkg "$V/sim/inpkg/zz_verif_inpkg.go"); flags=(-tags verif_trie) ;;
	esac
	(cd "$V/sim" &&
		go build -o "$d/prep" ./cmd/prep &&
		"$d/prep" -goroot "$goroot" -repo "$R" -out "$d" -tools "$tools" "${inpkg[@]}" &&
		go build -modfile "$d/sim.mod" "${flags[@]}" -overlay "$d/overlay.json" -o "$d/simcheck" ./cmd/simcheck) || die "build failed"
}

mkdir -p "$B" || die "cannot write $B"
case "${1:-}" in
setup)
	for k in plain race trie; do build $k; done
	;;
replay)
	[ -r "${2:-}" ] || die "no such replay file: ${2:-}"
	p=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
	[ -n "$p" ] || die "not a replay file: $2"
	k=$(kind_of "$p")
	exec 9>"$B/lock.$k"; flock 9
	build "$k"
	"$B/$k/simcheck" -sites "$B/$k/sites.json" -verif "$V" -prop "$p" -replay "$2"
	;;
C[0-9]*)
	tier=${2:-${VERIF_TIER:-quick}}
	k=$(kind_of "$1")
	exec 9>"$B/lock.$k"; flock 9
	build "$k"
	"$B/$k/simcheck" -sites "$B/$k/sites.json" -verif "$V" -prop "$1" -tier "$tier"
	;;
*)
	die "usage: check.sh ID [quick|thorough] | check.sh replay FILE | check.sh setup"
	;;
esac
