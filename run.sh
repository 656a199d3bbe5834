#!/bin/bash
# run.sh ID [quick|thorough|replay FILE]: builds the harness against the
# repository's current working tree and runs one check.
# NN_REPO (default /repo) says where the repository is.
set -u
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${NN_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS= VERIF_SEED=${VERIF_SEED:-1}
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$HERE/evidence} VERIF_REPLAYS=${VERIF_REPLAYS:-$HERE/replays}
export HOME=${HOME:-/root}
T=$(mktemp -d "${TMPDIR:-/tmp}/nnverif.XXXXXX") || exit 3
trap 'rm -rf "$T"' EXIT
cd "$HERE/mc" || exit 3
sed "s#=> /repo#=> $REPO#" go.mod >"$T/go.mod" && cp go.sum "$T/go.sum" || exit 3
go build -o "$T/overlay" ./cmd/overlay || exit 3

# build OUT FLAGS -- FEATURES...: with as much of the overlay as the code allows
build() {
	local out=$1 flags=$2; shift 2
	for feats in "$@" ""; do
		rm -rf "$T/ov"; mkdir "$T/ov"
		if [ -n "$feats" ]; then
			"$T/overlay" "$REPO" "$T/ov" $feats 2>"$T/log" || continue
		else
			echo '{"Replace":{}}' >"$T/ov/overlay.json"
		fi
		if go build $flags -mod=mod -modfile "$T/go.mod" -overlay "$T/ov/overlay.json" -o "$out" . 2>"$T/log"; then
			echo "${feats:-none}"; return 0
		fi
	done
	cat "$T/log" >&2
	return 1
}
case $ID in
C20|C23) FEATS=$(build "$T/mc" "" "rand time sync sched" "rand sync sched" "sync sched" "sched" "rand time" "rand") || exit 3 ;;
C15|C17|C27) FEATS=$(build "$T/mc" "" "rand time os" "rand os" "os" "rand time" "rand") || exit 3 ;;
C29) FEATS=$(build "$T/mc" "" "time") || exit 3 ;;
*) FEATS=$(build "$T/mc" "" "rand time" "rand") || exit 3 ;;
esac
case $ID in
C20|C23) build "$T/mc.race" -race >/dev/null && export MC_RACE="$T/mc.race" ;;
esac
export MC_OVERLAY="$FEATS" MC_TMP="$T/scratch"
mkdir "$MC_TMP" && chmod 777 "$T" "$MC_TMP"
"$T/mc" "$ID" "$TIER" "$@"
RC=$?
exit $RC
