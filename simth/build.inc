# sourced by build.sh: the libraries with compiler instrumentation, the runtime without
mkdir -p "$T/simth"
if need "$T/simth"; then stale "$T/simth"; fi
run "$T/simrt.log" gcc -O2 -g -fno-builtin -mcx16 -c "$V/simth/simrt.c" -o "$T/simth/simrt.o"
if [ "$(cat "$T/simth/.rt" 2>/dev/null)" != "$(sha256sum <"$V/simth/simrt.c")" ]; then
  find "$T/simth" -maxdepth 5 -type d -path '*/.fingerprint/simth-*' -prune -exec rm -rf {} + 2>/dev/null
  sha256sum <"$V/simth/simrt.c" >"$T/simth/.rt"
fi
RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=$T/simth/simrt.o -Clink-arg=-ldl -Clink-arg=-rdynamic" run "$T/simth.log" \
  cargo build -Zbuild-std --offline --manifest-path "$V/simth/Cargo.toml" --release --target x86_64-unknown-linux-gnu --target-dir "$T/simth"
echo "$h" >"$T/simth/.stamp"
