#!/bin/bash
# seedtest.sh SCRATCH ID [PROP ...]: try a planted bug in a scratch copy of /repo and /verif under SCRATCH
# (kept between calls for speed; remove it when done). Prints one line per step.
S=$1 ID=$2; shift 2
V=/verif
mkdir -p "$S"
[ -d "$S/repo" ] || cp -a /repo "$S/repo"
[ -d "$S/verif" ] || { mkdir "$S/verif"; cp -a $V/target "$S/verif/"; }
rsync -a --delete --exclude target --exclude seeded --exclude .git $V/ "$S/verif/" 2>/dev/null || { for x in mc tools run.sh known_findings.txt; do cp -a $V/$x "$S/verif/"; done; }
sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" "$S/verif/mc/Cargo.toml"
cd "$S/repo" || exit 2
git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target
git apply "$V/seeded/$ID/patch.diff" || { echo "$ID APPLY-FAILED"; exit 1; }
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$S/repo/target RUSTC_WRAPPER= PROPTEST_RNG_SEED=20240501 PROPTEST_DISABLE_FAILURE_PERSISTENCE=1
if [ -z "$NOTEST" ]; then
rm -rf target/debug/.fingerprint/beancount-parser-lima-*
cargo test --workspace --no-run --locked --offline >"$S/build.log" 2>&1 || { echo "$ID BUILD-FAILED"; tail -20 "$S/build.log"; exit 1; }
R=target/vp-reports; rm -rf $R target/nextest; mkdir -p $R
cargo nextest run --workspace --locked --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp > $R/nextest.log 2>&1
timeout 600 cargo test --workspace --doc --no-fail-fast --locked --offline -- --test-threads 8 > $R/doc.log 2>&1
sed -E 's/(name="test_parser::path_)[0-9]+_/\1/g' target/nextest/vp/junit.xml > $R/junit.xml
python3 /opt/vp/results.py "$S/out.json" "junit:$S/repo/$R/junit.xml" "cargo:$S/repo/$R/doc.log" >/dev/null 2>&1
python3 - "$ID" "$S/out.json" <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[2]))
m=set(b['stable'])-set(o['passed'])
print(sys.argv[1],"tests:", "ok" if not m else "FAILED %s"%sorted(m)[:5])
sys.exit(1 if m else 0)
P
( bash "$V/seeded/$ID/demo.sh" >"$S/demo.log" 2>&1 ); echo "$ID demo patched: exit $?  $(tail -1 "$S/demo.log" | cut -c1-150)"
( cd /repo && CARGO_TARGET_DIR=/repo/target bash "$V/seeded/$ID/demo.sh" >"$S/demo0.log" 2>&1 ); echo "$ID demo clean: exit $?  $(tail -1 "$S/demo0.log" | cut -c1-150)"
fi
unset CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
P=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
for p in $P; do
  ( cd "$S/verif" && VERIF_REPO="$S/repo" ./run.sh "$p" quick >"$S/check-$p.log" 2>&1 ); echo "$ID check $p: exit $?  $(grep -v VIOLATION "$S/check-$p.log" | sed -n 2p | cut -c1-220)"
done
git checkout -q -f .
