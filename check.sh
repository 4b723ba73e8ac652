#!/bin/bash
# check.sh ID quick|thorough: builds the harness from /repo's current tree and runs one check.
# Exit 0: held; exit 1 with a VIOLATION line: broken; 2: the check itself failed (e.g. build error).
set -u
ID=${1:?}; TIER=${2:?}
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
case "$ID" in
    C20|C21|C22|C23|C24) H=mcbevy; PKGS="-p rerecast -p bevy_rerecast_core -p bevy_rerecast_editor_integration -p avian_rerecast" ;;
    C27|C28) H=mcedit; PKGS="-p rerecast -p bevy_rerecast_core -p bevy_rerecast_editor_integration -p bevy_rerecast -p mcedit" ;;
    *) H=mc; PKGS="-p rerecast" ;;
esac
cd /verif/$H || exit 2
LOG=/verif/out/build-$ID.log
mkdir -p /verif/out /verif/evidence
# never trust time stamps: recompile the code under test
cargo clean -q --release $PKGS --offline >"$LOG" 2>&1
if ! cargo build -q --release --offline >>"$LOG" 2>&1; then
    tail -n 40 "$LOG"
    echo "build failed"
    exit 2
fi
RUN=()
if [ "$H" = mcedit ] && unshare -Urn sh -c 'ip link set lo up' 2>/dev/null; then
    # the editor asks on a fixed port: give the run a loopback interface of its own
    RUN=(unshare -Urn sh -c 'ip link set lo up; exec "$0" "$@"')
fi
"${RUN[@]}" "/verif/$H/target/release/$H" check "$ID" "$TIER"
RC=$?
case $RC in
    # The code under test took the whole process down (abort, illegal instruction, bus error, stack overflow):
    # the harness catches panics, so this is an outcome no property allows.
    132|134|135|139)
        echo "the process ended by signal $((RC - 128)) while exploring $ID"
        echo "VIOLATION property=$ID replay=/verif/$H/target/release/$H,check,$ID,$TIER"
        exit 1 ;;
esac
exit $RC
