# Sourced by demo.sh (cwd: the repository, after its build). Compiles run.rs against the built library and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=/opt/wasmtime/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.97.0
SCRATCH=$(mktemp -d)
trap 'rm -rf "$SCRATCH"' EXIT
MODES=${MODES:-legacy tco}

# compile MODE SRC -> $SCRATCH/MODE-NAME.wasm
compile() {
    local mode=$1 src=$2 d feat lib
    d=$REPO/target/vp/$mode/wasm32-wasip1/release/deps
    lib=$(ls -t "$d"/libchiwawa-*.rlib | head -1)
    feat=""
    [ "$mode" = tco ] && feat="-C target-feature=+multivalue,+tail-call"
    OUT=$SCRATCH/$mode-$(basename "$src" .rs).wasm
    rustc --edition 2021 --target wasm32-wasip1 -C panic=abort -C opt-level=1 $feat -A warnings -L dependency="$d" -L dependency="$REPO/target/vp/$mode/release/deps" \
        --extern chiwawa="$lib" "$src" -o "$OUT" || exit 2
}

# wat2wasm FILE.wat -> $SCRATCH/FILE.wasm   (through the wat crate the library depends on)
wat() {
    local d=$REPO/target/vp/legacy/wasm32-wasip1/release/deps
    if [ ! -f "$SCRATCH/wat.wasm" ]; then
        printf 'fn main(){let a:Vec<String>=std::env::args().collect();std::fs::write(&a[2],wat::parse_file(&a[1]).unwrap()).unwrap();}' > "$SCRATCH/wat.rs"
        rustc --edition 2021 --target wasm32-wasip1 -C panic=abort -L dependency="$d" --extern wat="$(ls -t "$d"/libwat-*.rlib | head -1)" \
            "$SCRATCH/wat.rs" -o "$SCRATCH/wat.wasm" || exit 2
    fi
    cp "$HERE/$1" "$SCRATCH/"
    (cd "$SCRATCH" && wasmtime run --dir . wat.wasm "$1" "${1%.wat}.wasm") || exit 2
}

# check FILE.wat CALL...: every call in every mode, each in a process of its own (a call that starts with + shares
# the process and the instance of the one before).  A host panic counts as the trap it stands for.
check() {
    local f=$1 mode rc=0 w=${1%.wat}.wasm group=() c
    shift
    wat "$f"
    for mode in $MODES; do
        [ -f "$SCRATCH/$mode-run.wasm" ] || compile "$mode" "$HERE/run.rs"
        group=()
        for c in "$@" ""; do
            case $c in +*) group+=("$c"); continue;; esac
            if [ ${#group[@]} -gt 0 ]; then one "$mode" "$w" "${group[@]}" || rc=1; fi
            group=("$c")
        done
    done
    return $rc
}

one() {
    local mode=$1 w=$2 out last c
    shift 2
    out=$(cd "$SCRATCH" && timeout 60 wasmtime run --dir . "$mode-run.wasm" "$w" "$@" 2>/dev/null); local st=$?
    echo "$mode: $out"
    [ $st -eq 0 ] && return 0
    last="${!#}"
    case "$out" in *FAIL*) return 1;; esac
    # aborted: fine when the call it stopped in was expected to trap
    local n; n=$(printf '%s\n' "$out" | grep -c '^ok')
    local k=$((n + 1)); c="${!k}"
    case "$c" in *=trap) return 0;; esac
    echo "$mode: aborted in $c"
    return 1
}
