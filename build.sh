#!/bin/bash
# Builds what the checks need from /repo's current working tree, into /verif/target.
# usage: build.sh os|th      (os: command under simos; th: libraries under simth)
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=/repo
T=$V/target
mkdir -p "$T"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
part=$1
exec 9>"$T/.lock-$part"
flock 9
# Content, not time stamps, decides whether to rebuild the three crates of /repo.
h=$( (cd "$R" && find . \( -name .git -o -name target \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
stale() { # stale <target dir>: forget the crates built from /repo
  find "$1" -maxdepth 5 -type d \( -path '*/.fingerprint/make_pluralrules-*' -o -path '*/.fingerprint/cldr_pluralrules_parser-*' -o -path '*/.fingerprint/intl_pluralrules-*' -o -path '*/.fingerprint/simos-*' -o -path '*/.fingerprint/simth-*' \) -prune -exec rm -rf {} + 2>/dev/null
  rm -f "$1/.stamp"
}
need() { [ "$(cat "$1/.stamp" 2>/dev/null)" != "$h" ]; }
run() { # run <log> cmd...
  local log=$1
  shift
  if ! "$@" >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "build failed: $*" >&2
    exit 2
  fi
}
if [ "$part" = os ]; then
  if need "$T/cli"; then
    mkdir -p "$T/cli"
    stale "$T/cli"
    RUSTFLAGS="-C target-feature=+crt-static" CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true run "$T/cli.log" \
      cargo build --offline --manifest-path $R/make_pluralrules/Cargo.toml --release --bin make_pluralrules \
      --target x86_64-unknown-linux-gnu --target-dir "$T/cli"
    echo "$h" >"$T/cli/.stamp"
  fi
  if need "$T/simos"; then
    mkdir -p "$T/simos"
    stale "$T/simos"
  fi
  RUSTFLAGS= run "$T/simos.log" cargo build --offline --manifest-path "$V/simos/Cargo.toml" --release --target-dir "$T/simos"
  echo "$h" >"$T/simos/.stamp"
fi
if [ "$part" = th ]; then
  . "$V/simth/build.inc"
fi
