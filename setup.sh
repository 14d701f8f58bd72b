#!/bin/bash
# Builds the whole harness once.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --offline --workspace
