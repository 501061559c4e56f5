#!/bin/bash
# confirm.sh ID...: in a scratch copy of /repo, confirms that seeded/ID's patch applies, builds, passes the stable
# tests, and that its demonstration passes without and fails with it.
S=/tmp/confirm.$$; rm -rf "$S"; mkdir -p "$S"; trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"
# the build scripts name /repo: same steps on the copy
. /verif/env.sh
FULL=macros,chunk,alloc,interning,queue,std,nightly,core_io_borrowed_buf,arbitrary_1,bytes_1,http-body_04,http-body_1,nom_7,serde_1
cd "$S/repo"; git checkout -q -- .
for id in "$@"; do
    B=/verif/seeded/$id; D="$S/demo"; rm -rf "$D"; cp -a "$B" "$D"; rm -f "$D"/*.diff "$D"/*.json
    timeout 300 bash "$D/demo.sh" >"$S/o1" 2>&1 || { echo "$id: demo FAILS on the unchanged tree"; tail -5 "$S/o1"; continue; }
    git apply "$B/patch.diff" || { echo "$id: patch does not apply"; continue; }
    st=ok
    for c in "--features $FULL" "--all-features" ""; do
        CARGO_TARGET_DIR="$S/repo/target" timeout 280 cargo test --workspace --no-fail-fast --offline $c -- --test-threads 8 >"$S/t" 2>&1
        grep -q "^error" "$S/t" && ! grep -q "error: 1 target failed\|error: test failed" "$S/t" && { st="does not build"; tail -20 "$S/t"; }
        f=$(grep "^test .* FAILED" "$S/t" | grep -v "^test result" | grep -v test_bytedata_bytes_1_static)
        [ -n "$f" ] && { st="tests fail"; echo "$f"; }
    done
    for f in "" "--features alloc,queue"; do
        CARGO_TARGET_DIR="$S/repo/target" cargo build --offline --no-default-features $f >"$S/t" 2>&1 || { st="does not build reduced"; tail "$S/t"; }
    done
    if timeout 300 bash "$D/demo.sh" >"$S/o2" 2>&1; then st="$st, demo PASSES with the patch"; else grep -q "could not compile" "$S/o2" && st="$st, demo does not compile"; fi
    echo "$id: $st | $(grep -v '^ *\(Compiling\|Finished\|Running\|Locking\|Adding\)' "$S/o2" | tail -3 | tr '\n' ' ' | cut -c1-300)"
    git checkout -q -- .
done
