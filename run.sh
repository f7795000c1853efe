#!/bin/bash
# run.sh <property> [quick|thorough] [--case N ...]
# Builds the monitors against /repo's working tree and decides one property.
# Exit 0: held on everything explored. 1: violation (VIOLATION line printed). 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
export VERIF_SEED=${VERIF_SEED:-1}
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_TARGET_DIR
repo=/repo
[ -d "$repo" ] || { echo "ERROR: no $repo"; exit 2; }
work=$here/work/$prop
mkdir -p "$work" "$here/evidence" "$here/replays" || exit 2
case $tier in quick) wall=300;; thorough) wall=3000;; *) echo "ERROR: tier $tier"; exit 2;; esac
shopt -s nullglob

# build <target dir name> <toolchain> <cargo args...>
build() {
    local dir=$here/harness/$1 tc=$2
    shift; shift
    # cargo goes by mtime: always look at /repo's files anew
    local f
    for f in "$dir"/release/.fingerprint/gif-* "$dir"/*/release/.fingerprint/gif-*; do rm -rf "$f"; done
    if ! (cd "$here/harness" && RUSTUP_TOOLCHAIN=$tc cargo build --release --offline --locked --target-dir "$dir" "$@") > "$work/build.log" 2>&1; then
        tail -n 40 "$work/build.log"
        echo "ERROR: the monitors do not build against $repo"
        exit 2
    fi
}

# run <binary> <variant> <evidence file> <args...>; sets rc
run() {
    local bin=$1 variant=$2 ev=$3
    shift; shift; shift
    local inflight=$work/inflight$variant
    rm -f "$inflight"
    "$bin" --prop "$prop" --tier "$tier" --seed "$VERIF_SEED" --max-wall "$wall" --evidence "$ev" \
        --replays "$here/replays" --inflight "$inflight" --variant "$variant" --repo "$repo" "$@" 2> "$work/stderr$variant"
    rc=$?
    case $rc in
    0|1|2) return;;
    esac
    tail -n 30 "$work/stderr$variant"
    echo "the monitored process ended with status $rc"
    # Killed by a signal (abort, segmentation fault, sanitizer report): which case does it?
    # 1 is excluded above: sanitizers are told to exit with 77.
    case $rc in
    132|134|135|136|139|77) ;;
    *) rc=2; echo "ERROR: no answer"; return;;
    esac
    local c
    for c in $(od -An -v -t d8 -w8 "$inflight" | tr -d ' ' | sort -nu); do
        "$bin" --prop "$prop" --tier "$tier" --seed "$VERIF_SEED" --replays "$here/replays" --variant "$variant" \
            --repo "$repo" --case "$c" > "$work/case.out" 2> "$work/case.err"
        local r=$?
        case $r in
        0|2) continue;;
        esac
        local replay=$here/replays/$prop$variant-seed$VERIF_SEED-case$c-crash.txt
        {
            echo "property=$prop seed=$VERIF_SEED tier=$tier case=$c variant=$variant: the process ends with status $r"
            echo "rerun: VERIF_SEED=$VERIF_SEED bash /verif/run.sh $prop $tier --case $c"
            cat "$work/case.out" "$work/case.err"
        } > "$replay"
        grep -v '^  log\|^VIOLATION' "$work/case.err" | tail -n 30
        echo "$prop: case $c ends the process with status $r"
        echo "VIOLATION property=$prop replay=$replay"
        rc=1
        return
    done
    rc=2
    echo "ERROR: the crash did not happen again, no answer"
}

evidence=$here/evidence/$prop.json
rm -f "$evidence"
build target stable
run "$here/harness/target/release/gifmon" "" "$evidence" "$@"
[ $rc = 0 ] || exit $rc

extra=
case $prop in
P13)
    # gif's default feature raii_no_panic changes what dropping an encoder does
    build target-noraii stable --no-default-features
    extra=noraii
    run "$here/harness/target-noraii/release/gifmon" -noraii "$work/extra.json" "$@"
    ;;
P01)
    if [ "$tier" = thorough ]; then scale=0.05; else scale=0.06; fi
    export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:exitcode=77:abort_on_error=0
    RUSTFLAGS=-Zsanitizer=address build target-asan nightly --target x86_64-unknown-linux-gnu
    extra=asan
    run "$here/harness/target-asan/x86_64-unknown-linux-gnu/release/gifmon" -asan "$work/extra.json" --scale $scale "$@"
    ;;
esac
if [ -n "$extra" ] && [ -f "$work/extra.json" ] && [ -f "$evidence" ]; then
    python3 - "$evidence" "$work/extra.json" "$extra" <<'P' || rc=2
import json, sys
a, b, name = json.load(open(sys.argv[1])), json.load(open(sys.argv[2])), sys.argv[3]
c = b["coverage"]
a["coverage"]["second_build"] = dict(build=name, evaluations=c["evaluations"], distinct_nontrivial=c["distinct_nontrivial"],
    cases_run=c["cases_run"], observed=c["observed"], violations=c["violations"], wall_s=b["wall_s"])
a["coverage"]["violations"] += c["violations"]
a["wall_s"] = round(a["wall_s"] + b["wall_s"], 2)
json.dump(a, open(sys.argv[1], "w"), indent=1)
P
fi
exit $rc
