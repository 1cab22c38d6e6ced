#!/bin/bash
# Usage: replay.sh FILE   Runs the one execution a replay file describes, and prints its trace.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
case $(sed -n 's/.*"checker": *"\([a-z]*\)".*/\1/p' "$1" | head -1) in
schedcheck) bin=target/sched/x86_64-unknown-linux-gnu/release/schedcheck ;;
clicheck) bin=target/release/clicheck ;;
ivcheck) bin=target/interval/release/ivcheck ;;
idxcheck) bin=target/index/release/idxcheck ;;
*) bin=target/release/corecheck ;;
esac
MC_SCRATCH=$(mktemp -d /dev/shm/plotline-mc.XXXXXXXX) || exit 2
export MC_SCRATCH
trap 'rm -rf -- "$MC_SCRATCH"' EXIT
"$bin" --replay "$1"
