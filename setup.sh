#!/bin/bash
# Builds the framework (extractor, bounded harness, verifier crates) from the committed files, offline.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash weave/build.sh
. native/env.sh
(cd native && cargo build --offline)
[ -x kani/setup.sh ] && bash kani/setup.sh || true
echo setup done
