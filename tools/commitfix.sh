#!/bin/bash
[ -z "$(git -C /repo status --short -- tests benches examples Cargo.toml)" ] || { echo "test files changed"; exit 1; }
# commitfix.sh MESSAGE: build, run the stable tests, commit all of /repo's changes when they pass
set -e
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1 || true
m=$(python3 /verif/tools/stable.py /tmp/o.json); echo "$m"
[ "$m" = "missing []" ] || exit 1
git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
