#!/bin/bash
# build TLC's numeric library and the harness (offline)
set -e
cd "$(dirname "$0")" && . tools/env.sh
lib=/opt/veriftools/tla
mkdir -p java/classes/glm && javac -cp $lib/tla2tools.jar:$lib/CommunityModules-deps.jar -d java/classes java/glm/*.java && touch java/classes/glm
cd harness && cargo build --offline
