#!/bin/bash
# devna.sh MODULE:CASES:KINDS... : builds and runs modules of the crate without alloc (development aid)
. /verif/env.sh
cd /verif/noalloc; export CARGO_TARGET_DIR=/verif/target/noalloc
cargo build 2>&1 | grep -A14 "^error\|^warning: unus" | head -${ERRLINES:-80}
[ ${PIPESTATUS[0]} = 0 ] || exit 2
rm -rf /tmp/w/rep; mkdir -p /tmp/w
$CARGO_TARGET_DIR/debug/noalloc check X noalloc ${SEED:-1} /tmp/w /tmp/w/rep "$@" | python3 -c "
import json,sys
d=json.load(sys.stdin)
for m in d['modules']:
  m.pop('samples'); m.pop('rule'); m.pop('labels')
  print(m)
for v in d['violations']: print(v)"
for f in /tmp/w/rep/*; do [ -f $f ] && timeout 20 $CARGO_TARGET_DIR/debug/noalloc replay $f; done
