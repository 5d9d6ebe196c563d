#!/bin/bash
# build_and_run.sh VERIFDIR COMMAND...: builds the explorer from /repo's working
# tree in a scratch directory and runs it.
# MC_REPO and MC_OUT (development only) name another copy of the repository and
# another directory for the evidence.
verif=$1; shift
cmd=$1; shift
repo=${MC_REPO:-/repo}
cd "$verif/mc" || exit 2
scratch=$(mktemp -d "${TMPDIR:-/tmp}/mcbuild-XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
property=
args=("$@")
for ((i = 0; i < ${#args[@]}; i++)); do
	[ "${args[i]}" = -property ] && property=${args[i+1]}
done
if [ "$cmd" = replay ]; then
	property=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "${args[${#args[@]}-1]}" | head -1)
fi
sed "s#=> /repo\$#=> $repo#" go.mod > "$scratch/go.mod"
cp go.sum "$scratch/go.sum"
build() { # OUT EXTRA...
	local out=$1; shift
	go build -modfile="$scratch/go.mod" "$@" -o "$out" . || return 1
}
# The checks that decide interleavings or map iteration orders need an
# instrumented copy of the repository, laid over it while building. Should the
# instrumented copy not build, the instrumentation is given up piece by piece
# rather than the check.
hooked() { # OUT EXTRA...
	local out=$1 how; shift
	(cd "$verif/mc" && go build -modfile="$scratch/go.mod" -o "$scratch/instr" ./instr) || return 1
	for how in MC_ALL=yes MC_MAPS=no MC_POINTS=no "MC_POINTS=no MC_MAPS=no"; do
		rm -rf -- "$scratch/overlay"
		mkdir -p "$scratch/overlay"
		env $how "$scratch/instr" "$repo" "$scratch/overlay" >"$scratch/instr.log" 2>&1 &&
			build "$out" -overlay "$scratch/overlay/overlay.json" -tags hooked "$@" 2>"$scratch/build.log" && return 0
		cat "$scratch/instr.log" "$scratch/build.log" >&2
		echo "warning: instrumentation did not build with $how" >&2
	done
	return 1
}
flavour() {
	case $property in
	C11) CGO_ENABLED=1 hooked "$scratch/mc" -race ;;
	C09) MC_POINTS=no hooked "$scratch/mc" ;;
	*) build "$scratch/mc" ;;
	esac
}
case $cmd in
setup)
	property=C11 flavour || exit 2
	build "$scratch/mc" || exit 2
	echo "built: $("$scratch/mc" list | wc -l) checks"
	exit 0
	;;
esac
flavour || { echo "error: the explorer does not build against $repo"; exit 2; }
case $cmd in
check) MC_KNOWN=$verif/known_findings.txt "$scratch/mc" check -verif "${MC_OUT:-$verif}" "$@" ;;
replay) "$scratch/mc" replay -verif "$verif" "$@" ;;
*) "$scratch/mc" "$cmd" "$@" ;;
esac
exit $?
