#!/bin/bash
# dev helper: b.sh CONFIG-FEATURES DIR
cd /verif/harness && cargo build --offline --release --features "full,$1" --target-dir /verif/target/$2 2>&1 | grep -E "^(warning|error)|-->|^ +\|.*\^|= note: exp|Finished" | head -${3:-40}
