#!/bin/bash
# Build the harness once from the committed files (offline).
set -eu
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/harness"

cargo build --offline --bins
