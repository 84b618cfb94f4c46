#!/bin/bash
# rebuild the harness against /repo's working tree
cd "$(dirname "$0")/.." && . tools/env.sh
rm -rf harness/target/debug/.fingerprint/ndarray-glm-*
cd harness && cargo build --offline 2>&1 | grep -E "^(error|warning: unused)|Finished|panicked" 
