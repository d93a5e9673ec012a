#!/bin/bash
# Builds the harness against the working tree of /repo.
# usage: build.sh mc|iter|nfa|asan
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
mkdir -p "$VERIF/target"
what=$1
export CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS
case $what in
  mc)   dir=mc;   export RUSTFLAGS="" ; set -- ;;
  iter) dir=iter; export RUSTFLAGS="--cfg pango_verif" ; set -- ;;
  nfa)  dir=mc;   export RUSTFLAGS="--cfg pango_verif_nfa" ; set -- ;;
  asan) dir=mc;   export RUSTFLAGS="-Zsanitizer=address"
        set -- --target x86_64-unknown-linux-gnu
        export RUSTUP_TOOLCHAIN=nightly ;;
  *) echo "build.sh: unknown target $what" >&2; exit 2 ;;
esac
export CARGO_TARGET_DIR="$VERIF/target/$what"
exec 9> "$VERIF/target/$what.lock"
flock 9
# Cargo looks at time stamps; a tree that was replaced by one with older time
# stamps must be rebuilt as well.
sum=$(cd /repo && find Cargo.toml Cargo.lock pango-lexer pango-parser -type f -not -path '*/target/*' -print0 |
      sort -z | xargs -0 sha256sum | sha256sum)
stamp="$VERIF/target/$what.sum"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  (cd "$dir" && cargo clean --release --offline "$@" -p pango-lexer -p pango-parser) > /dev/null 2>&1
  rm -f "$stamp"
fi
if [ $what = iter ]; then
  # The adaptors are private to the lexer: one that a tree no longer has is left
  # out (and named in the evidence) instead of failing the build.
  set -- --features std_peekable,cached,take,map
  if ! (cd "$dir" && cargo build --release --offline "$@") > "$VERIF/target/$what.log" 2>&1; then
    have=
    for f in std_peekable cached take map; do
      (cd "$dir" && cargo build --release --offline --features "$f") > "$VERIF/target/$what-$f.log" 2>&1 && have="$have,$f"
    done
    set -- --features "${have#,}"
  fi
fi
if ! (cd "$dir" && cargo build --release --offline "$@") > "$VERIF/target/$what.log" 2>&1; then
  echo "build of the $what harness failed:" >&2
  grep -A12 '^error' "$VERIF/target/$what.log" | head -60 >&2
  exit 2
fi
echo "$sum" > "$stamp"
