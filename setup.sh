#!/bin/bash
# Builds the harnesses from the committed files, offline. A failure of one does not stop the other:
# each check rebuilds what it needs and reports a build failure itself.
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir -p /verif/out /verif/evidence
RC=0
(cd /verif/mc && cargo build -q --release --offline) || RC=1
(cd /verif/mcbevy && cargo build -q --release --offline) || RC=1
(cd /verif/mcedit && cargo build -q --release --offline) || RC=1
exit $RC
