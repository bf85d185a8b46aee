#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current working tree
# check.sh replay <file>                 run the case of a replay file again
# check.sh setup                         build only
# Exit 0: held; 1: violated (VIOLATION line); anything else: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
B="$ROOT/.build"
mkdir -p "$B"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
ulimit -c 0

build() { # toolchain target-dir extra-args...
	local tool=$1 dir=$2
	shift 2
	(cd "$ROOT/harness" && CARGO_TARGET_DIR="$dir" cargo "+$tool" build --offline --release -q "$@") >"$B/build-$tool.log" 2>&1
	local rc=$?
	if [ $rc -ne 0 ]; then
		echo "ERROR: the harness does not build against /repo ($tool):"
		tail -40 "$B/build-$tool.log"
	fi
	return $rc
}
TRIPLE=$(rustc -vV | sed -n 's/^host: //p')
KMON="$B/target/release/kmon"
main_build() { build stable "$B/target" || exit 2; }
asan_build() {
	KMON_ASAN=1 RUSTFLAGS="-Zsanitizer=address --cfg kmon_asan" build nightly "$B/asan" --target "$TRIPLE" && ASAN="$B/asan/$TRIPLE/release/kmon"
}

case "${1:-}" in
setup)
	main_build
	asan_build || exit 2
	exit 0
	;;
replay)
	f=${2:?replay file}
	get() { sed -n "s/^$1=//p" "$f" | head -1; }
	main_build
	if [ -n "$(get probe)" ]; then
		"$KMON" child probe "$(get probe)"
		exit $?
	fi
	exec "$KMON" one "$(get property)" "$(get tier)" "$(get seed)" "$(get index)" "$B/replay"
	;;
C[0-9][0-9]) ;;
*)
	sed -n 2,5p "$0"
	exit 2
	;;
esac

ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case "$SEED" in '' | *[!0-9]*) SEED=1 ;; esac
main_build
ASAN=""
NOTE=""
case "$ID" in
C01) asan_build || exit 2 ;;
esac
if [ "$TIER" = thorough ]; then
	case "$ID" in
	C02 | C06 | C07 | C08 | C13 | C16)
		# the same monitors on AddressSanitizer builds
		asan_build || exit 2
		;;
	esac
	case "$ID" in
	C01 | C11)
		# a small batch of all monitors in the undefined-behaviour interpreter
		if (cd "$ROOT/harness" && CARGO_TARGET_DIR="$B/miri" MIRIFLAGS="-Zmiri-disable-isolation" timeout 2400 cargo +nightly miri run --offline -q -- mini "$SEED" 1) >"$B/miri-$ID.log" 2>&1; then
			NOTE="Miri: $(grep -c cases "$B/miri-$ID.log") monitors interpreted without undefined behaviour"
		elif grep -q "Undefined Behavior\|Data race" "$B/miri-$ID.log"; then
			mkdir -p "$ROOT/replays"
			cp "$B/miri-$ID.log" "$ROOT/replays/$ID-miri.txt"
			grep -m1 "Undefined Behavior\|Data race" "$B/miri-$ID.log"
			echo "VIOLATION property=$ID replay=$ROOT/replays/$ID-miri.txt"
			exit 1
		else
			NOTE="Miri gave no answer: $(tail -1 "$B/miri-$ID.log")"
		fi
		;;
	esac
fi
KMON_NOTE="$NOTE" exec "$KMON" run "$ID" "$TIER" "$SEED" "$ROOT" "$ASAN"
