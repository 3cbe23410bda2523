#!/bin/bash
# Build the framework from the committed files (offline). Checks also build what they need themselves.
cd "$(dirname "$0")/.."
. /opt/vp/env.sh 2>/dev/null
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
mkdir -p .build evidence
(cd harness_native && cargo build --offline --target-dir ../.build/native) || exit 1
(cd extract && cargo build --offline --target-dir ../.build/native) || exit 1
python3 -c "import sys; sys.path.insert(0, 'bin'); import gen; gen.generate(); gen.compile()" || echo 'the checks of generated code will report why'
exit 0
