#!/bin/bash
# dev.sh FEATURES MODULE:CASES:KINDS... : builds and runs modules (development aid)
. /verif/env.sh
cd /verif/harness; export CARGO_TARGET_DIR=/verif/target/cov
cargo build --features "$1" 2>&1 | grep -A14 "^error\|^warning: unus" | head -${ERRLINES:-80}
[ ${PIPESTATUS[0]} = 0 ] || exit 2
shift; rm -rf /tmp/w/rep; mkdir -p /tmp/w
/verif/target/cov/debug/harness check X cov ${SEED:-1} /tmp/w /tmp/w/rep "$@" | python3 -c "
import json,sys
d=json.load(sys.stdin)
for m in d['modules']:
  if len(sys.argv)>1: print('\n'.join(m['samples']))
  m.pop('samples'); m.pop('rule'); m.pop('labels')
  print(m)
for v in d['violations']: print(v)"
for f in /tmp/w/rep/*; do [ -f $f ] && timeout 20 /verif/target/cov/debug/harness replay $f; done
