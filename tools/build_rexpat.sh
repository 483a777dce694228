#!/bin/bash
# build_rexpat.sh VARIANT [cargo build args...]
# Builds rexpat from /repo's current working tree in a private shadow package below
# /verif/build (never in /repo or /opt/vp) and leaves librexpat.a (and xmlwf) in
# /verif/build/lib/VARIANT/.
#   plain  UTF-8 XML_Char, optimised, debug assertions + overflow checks, panic=abort
#   u16    as plain, feature `unicode` (UTF-16 XML_Char)
#   asan   as plain, AddressSanitizer instrumentation
#   tsan   as plain, ThreadSanitizer instrumentation
#   cov    as plain, SanitizerCoverage (8-bit counters)
set -u
V=$1; shift
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REXPAT_REPO:-/repo}
B=$HERE/build
S=$B/shadow-$V
OUT=$B/lib/$V
mkdir -p $S/.cargo $OUT || exit 2
exec 9>$B/lock-$V; flock 9
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2020-07-27 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS RUSTC RUSTC_WRAPPER
put() { cmp -s "$1.new" "$1" && rm -f "$1.new" || mv "$1.new" "$1"; }
# Copy the sources (fresh mtimes whenever contents differ, so that cargo never trusts a stale build).
for d in src examples; do
  if ! diff -rq $REPO/$d $S/$d >/dev/null 2>&1; then rm -rf "${S:?}/$d"; cp -rL $REPO/$d $S/$d || exit 2; fi
done
{
  sed -E '/^wchar[[:space:]]*=/d; s/^(unicode_wchar_t[[:space:]]*=).*/\1 []/; s/^crate-type.*/crate-type = ["staticlib", "rlib"]/' $REPO/Cargo.toml
  printf '\n[profile.dev]\nopt-level = 2\ndebug = 1\ndebug-assertions = true\noverflow-checks = true\npanic = "abort"\nincremental = false\n'
} > $S/Cargo.toml.new; put $S/Cargo.toml
[ -f $S/Cargo.lock ] || cp /opt/vp/Cargo.lock.rexpat $S/Cargo.lock
printf '[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "/opt/vp/vendor"\n' > $S/.cargo/config
cd $S || exit 2
FEAT=; T=--lib
case $V in
  plain) ;;
  moz)  FEAT="--features mozilla";;   # u16 with the mozilla feature
  u16)  FEAT="--features unicode";;
  asan) export RUSTFLAGS="-Zsanitizer=address"; TGT=x86_64-unknown-linux-gnu;;
  tsan) export RUSTFLAGS="-Zsanitizer=thread"; TGT=x86_64-unknown-linux-gnu;;
  cov)  export RUSTFLAGS="-Cpasses=sancov -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-pc-table"; TGT=x86_64-unknown-linux-gnu;;
  xmlwf) T="--bin xmlwf";;
  xmlwfasan) T="--bin xmlwf"; export RUSTFLAGS="-Zsanitizer=address"; TGT=x86_64-unknown-linux-gnu;;
  xmlwf16) T="--bin xmlwf"; FEAT="--features unicode";;
  *) echo "unknown variant $V" >&2; exit 2;;
esac
D=target/debug; X=
if [ -n "${TGT:-}" ]; then X="--target $TGT"; D=target/$TGT/debug; fi
cargo build --offline $T $FEAT $X "$@" > $S/build.log 2>&1 || { tail -30 $S/build.log >&2; exit 1; }
for f in librexpat.a xmlwf; do [ -f $D/$f ] && { cmp -s $D/$f $OUT/$f || { cp $D/$f $OUT/$f.$$ && mv $OUT/$f.$$ $OUT/$f; }; }; done
exit 0
