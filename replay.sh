#!/bin/sh
# replay.sh KIND HEX : run one case of the bounded harness against the current /repo
cd "$(dirname "$0")/native" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/native cargo build -q --offline --locked 2>/dev/null && NATIVE_VERBOSE=1 ../.build/native/debug/asn1-native case "$@"
