#!/bin/bash
# builds the analyser (each check also builds it when it is missing)
set -e
cd "$(dirname "$0")/driver"
cargo +nightly build --release --offline
