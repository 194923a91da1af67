#!/bin/bash
# check.sh setup            build everything from /repo's working tree
# check.sh run <property>   decide one property (VERIF_SEED, VERIF_TIER)
# check.sh replay <file>    reproduce a recorded violation
cd "$(dirname "$(readlink -f "$0")")" || exit 2
V=$PWD
BIN=$V/target/x86_64-unknown-linux-gnu/debug/mocksim
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
mkdir -p target evidence replays

# cargo goes by time stamps; go by the content of the sources instead
stamp() {
    (cd /repo && find Cargo.toml Cargo.lock mockall mockall_derive mockall_double -type f \
        \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 2>/dev/null |
        LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum
}

build_sim() {
    local new
    new=$(stamp)
    if [ "$new" != "$(cat target/sim.stamp 2>/dev/null)" ]; then
        rm -f target/sim.stamp
        rm -rf "$V"/target/x86_64-unknown-linux-gnu/debug/.fingerprint/{mockall,shapes_,mocksim}*
        rm -rf "$V"/target/debug/.fingerprint/mockall*
    fi
    if ! sim/build.sh > target/sim.log 2>&1; then
        sed 's/^/build: /' target/sim.log | tail -60
        echo "ERROR: the simulator does not build against /repo"
        exit 2
    fi
    echo "$new" > target/sim.stamp
}

# the same simulator, against mockall with its "nightly" feature
NBIN=$V/target/nightly/x86_64-unknown-linux-gnu/debug/mocksim
build_nightly() {
    local new
    new=$(stamp)
    if [ "$new" != "$(cat target/nightly.stamp 2>/dev/null)" ]; then
        rm -f target/nightly.stamp
        rm -rf "$V"/target/nightly/x86_64-unknown-linux-gnu/debug/.fingerprint/{mockall,shapes_,mocksim}*
        rm -rf "$V"/target/nightly/debug/.fingerprint/mockall*
    fi
    if ! MOCKSIM_TARGET="$V/target/nightly" sim/build.sh --features nightly > target/nightly.log 2>&1; then
        sed 's/^/build: /' target/nightly.log | tail -60
        echo "ERROR: the simulator does not build against /repo with the nightly feature"
        exit 2
    fi
    echo "$new" > target/nightly.stamp
}

build_expand() {
    local new
    new=$(stamp)
    if [ "$new" != "$(cat target/expand.stamp 2>/dev/null)" ]; then
        rm -f target/expand.stamp
        rm -rf "$V"/target/expand/debug/.fingerprint/{mockall,expandhost}*
    fi
    if ! bash expand/check.sh build > target/expand.log 2>&1; then
        sed 's/^/build: /' target/expand.log | tail -60
        echo "ERROR: the macros do not build from /repo"
        exit 2
    fi
    echo "$new" > target/expand.stamp
}

case "$1" in
setup)
    build_sim
    build_nightly
    build_expand
    echo built
    ;;
run)
    if [ "$2" = C14 ]; then
        build_expand
        exec bash expand/check.sh check "$SEED" "$TIER"
    fi
    build_sim
    case "$TIER" in
    thorough) RUNS=100000000; TIME=${VERIF_TIME:-600} ;;
    *) RUNS=${VERIF_RUNS:-90000}; TIME=${VERIF_TIME:-30}; TIER=quick ;;
    esac
    EXTRA=()
    if [ "$2" = C05 ]; then
        # what a mock without a return function does depends on the configuration
        build_nightly
        rm -f target/C05n.json
        "$NBIN" check --prop C05 --seed "$SEED" --runs $((RUNS / 3)) --time $((TIME / 3)) --tier "$TIER" \
            --evidence target/C05n.json --replays replays
        rc=$?
        if [ $rc != 0 ]; then
            cp -f target/C05n.json evidence/C05.json 2>/dev/null
            exit $rc
        fi
        EXTRA=(--extra target/C05n.json)
    fi
    exec "$BIN" check --prop "$2" --seed "$SEED" --runs "$RUNS" --time "$TIME" --tier "$TIER" "${EXTRA[@]}" \
        --evidence "evidence/$2.json" --replays replays
    ;;
replay)
    case "$2" in
    *C14*)
        build_expand
        exec bash expand/check.sh replay "$2"
        ;;
    esac
    if grep -q '^config: nightly' "$2"; then
        build_nightly
        exec "$NBIN" replay "$2"
    fi
    build_sim
    exec "$BIN" replay "$2"
    ;;
*)
    echo "usage: check.sh setup | run <property> | replay <file>"
    exit 2
    ;;
esac
