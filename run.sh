#!/bin/bash
# usage: run.sh <property> quick|thorough     build the checker from /repo's working tree and run one check
#        run.sh replay <replay-file>          re-execute one recorded execution
#        run.sh build                         build all the checkers
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUST_BACKTRACE MC_DERIVED
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build-$$.log"
build() { # crate, features
  cargo build --release --offline --locked --quiet --manifest-path "$1/Cargo.toml" ${2:+--features "$2"} 2> "$log"
}
broken() {
  tail -60 "$log" >&2; rm -f "$log"
  echo "the checker does not build against this tree" >&2; exit 3
}
# cargo decides what to rebuild by modification time; make it decide by content
sum() { find "$@" -path '*/target' -prune -o -path '*/.git' -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64; }
stamp=$(sum /repo)
if [ "$(cat "$CARGO_TARGET_DIR/repo-stamp" 2>/dev/null)" != "$stamp" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/sval* "$CARGO_TARGET_DIR"/release/.fingerprint/mc*
  echo "$stamp" > "$CARGO_TARGET_DIR/repo-stamp"
fi
full="$stamp-$(sum harness)"
# the checker for all properties if it is built, else one for this property alone
checker() { # property
  bin="$CARGO_TARGET_DIR/mc-all"
  if [ "$(cat "$CARGO_TARGET_DIR/all-stamp" 2>/dev/null)" != "$full" ] || [ ! -x "$bin" ]; then
    build harness "only,$1" || broken
    bin="$CARGO_TARGET_DIR/mc-$1"
    cp -f "$CARGO_TARGET_DIR/release/mc" "$bin.$$" && mv -f "$bin.$$" "$bin"
  fi
}
derived() { # tier
  export MC_DERIVED="$1"
  bin="$CARGO_TARGET_DIR/mcd-$1"
  build derived || {
    # the declarations are all valid: if only they do not compile, the derive macros are at fault
    cp "$log" "$CARGO_TARGET_DIR/derived.log"
    build harness "only,C02" || broken
    cp "$CARGO_TARGET_DIR/derived.log" "$log"
    return 1
  }
  cp -f "$CARGO_TARGET_DIR/release/mcd" "$bin.$$" && mv -f "$bin.$$" "$bin"
}
noalloc() {
  for f in small full; do
    build noalloc "$f" || broken
    bin="$CARGO_TARGET_DIR/mcn-$f"
    cp -f "$CARGO_TARGET_DIR/release/mcn" "$bin.$$" && mv -f "$bin.$$" "$bin"
  done
}
table() { # tier: the results of the full build
  export MC_TABLE="$CARGO_TARGET_DIR/mcn-$1-$$.tab"
  trap 'rm -f "$MC_TABLE"' EXIT
  timeout 1200 "$CARGO_TARGET_DIR/mcn-full" "$1" "$MC_TABLE" || { echo "the full build does not run the cases" >&2; exit 3; }
}
tier="${2:-${VERIF_TIER:-quick}}"
what="${1:-}"
case "$what" in
  build)
    build harness || broken
    cp -f "$CARGO_TARGET_DIR/release/mc" "$CARGO_TARGET_DIR/mc-all" && echo "$full" > "$CARGO_TARGET_DIR/all-stamp"
    derived quick || broken
    noalloc
    rm -f "$log"; exit 0 ;;
  replay)
    what=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2")
    tier=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["tier"])' "$2")
    if [ "$what" = C24 ]; then
      noalloc; rm -f "$log"; table "$tier"
      "$CARGO_TARGET_DIR/mcn-small" replay "$2"; exit $?
    fi
    if [ "$what" = C19 ]; then derived "$tier" || broken; else checker "$what"; fi
    rm -f "$log"; exec "$bin" replay "$2" ;;
  C19)
    if derived "$tier"; then rm -f "$log"; exec "$bin" run C19 "$tier"; fi
    mkdir -p replays evidence
    mv -f "$log" replays/C19-build.log
    grep -m5 -A12 '^error' replays/C19-build.log
    cat > evidence/C19.json <<J
{"property": "C19", "tier": "$tier", "seed": ${VERIF_SEED:-1}, "level": "model_checking", "coverage": {"states": 1, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false, "samples": ["a declaration does not compile: replays/C19-build.log"]}, "assumptions": [], "wall_s": 0, "violations": 1}
J
    echo "VIOLATION property=C19 replay=$PWD/replays/C19-build.log"; exit 1 ;;
  C24)
    noalloc; rm -f "$log"; table "$tier"
    "$CARGO_TARGET_DIR/mcn-small" run C24 "$tier"; exit $? ;;
  *)
    checker "$what"
    rm -f "$log"; exec "$bin" run "$what" "$tier" ;;
esac
