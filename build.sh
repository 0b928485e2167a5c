# Sourced by check.sh and setup.sh (in /verif): builds what a check needs from the working tree
# of /repo.
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# build <log> <target directory> <arguments of cargo build>...
build() {
  local blog="$PWD/target/build-$1.log" dir="$PWD/$2"
  shift 2
  if ! CARGO_TARGET_DIR="$dir" cargo build --locked "$@" > "$blog" 2>&1; then
    echo "BUILD-FAILED (see $blog)"
    tail -40 "$blog"
    return 1
  fi
}
build "$1" target --manifest-path harness/Cargo.toml || return 1
case "$1" in
  P22 | setup)
    # The second configuration.
    build "$1-perf" target/perf --features perf --manifest-path harness/Cargo.toml || return 1
    ;;
esac
case "$1" in
  P23 | setup)
    build "$1-cli" target/cli -p hcl2json --manifest-path /repo/Cargo.toml || return 1
    ;;
esac
# macros <name> <directory of the crate> <target directory>: the crate uses the macros of hcl-rs,
# which are expanded when it is built. What it needs was built before.
macros() {
  build "$1" "$3" --manifest-path "$2/Cargo.toml" && return 0
  if grep -q '^error' "target/build-$1.log" && grep -q 'could not compile `hclmacros`' "target/build-$1.log"; then
    local f="$PWD/evidence/replay-P27-0.txt"
    {
      echo "property: P27"
      echo "--- what"
      echo "invocations of the macros which they used to accept do not compile:"
      grep -v '^ *Compiling' "target/build-$1.log" | head -60
    } > "$f"
    echo "VIOLATION property=P27 replay=$f"
    exit 1
  fi
  return 1
}
case "$1" in
  P27)
    macros "$1-macros" macros target/macros || return 1
    ;;
  setup)
    # The check reports what does not compile.
    (macros "$1-macros" macros target/macros)
    ;;
esac
# Other builds, most with sanitizers (nightly toolchain), for the thorough tier.
sanitizers() {
  local target="--target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml"
  case "$1" in
    P01 | P22)
      RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address" build "$1-asan" target/asan --features perf $target
      ;;
    P27)
      mkdir -p target/macros-src/src
      cp macros/Cargo.toml macros/Cargo.lock target/macros-src/
      cp macros/src/main.rs target/macros-src/src/
      python3 tools/gen_macros.py target/macros-src/src/cases.rs "${VERIF_SEED:-1}" 12 || return 1
      macros P27-more target/macros-src target/macros-more || return 1
      ;;
    P25)
      RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" build "$1-tsan" target/tsan -Zbuild-std $target
      ;;
  esac
}
