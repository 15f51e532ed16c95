#!/bin/bash
# dev helper: b.sh <engine> <bin...>
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/$1
cd /verif/harness
e=$1; shift; B=(); for b in "$@"; do B+=(--bin $b); done
case $e in
 dbg) cargo build --offline --features full,hooks,heap "${B[@]}";;
 rel) cargo build --release --offline --features heap "${B[@]}";;
esac 2>&1 | grep -E "^(error|warning)" -A12 | head -${LINES_MAX:-80}
