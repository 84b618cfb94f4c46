#!/bin/sh
# tlc.sh MODULE CFG [args]: TLC with the glm numeric library
here=$(cd "$(dirname "$0")/.." && pwd)
lib=/opt/veriftools/tla
mod=$1; cfg=$2; shift 2
mkdir -p "$here/work/tmp"; cd "$here/spec" && exec java -Xmx${GLM_HEAP:-6g} -Xss64m -Djava.io.tmpdir="$here/work/tmp" -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:glm.Overrides -XX:+UseParallelGC \
  -cp "$here/java/classes:$lib/tla2tools.jar:$lib/CommunityModules-deps.jar" tlc2.TLC -config "$cfg" -metadir "${GLM_META:-$here/work/meta$$}" "$@" "$mod"
