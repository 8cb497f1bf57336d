#!/bin/bash
# check.sh ID quick|thorough     build from /repo's working tree and search for violations of property ID
# check.sh ID replay FILE        run one recorded case again
# exit 0: held on everything explored; 1: VIOLATION; 2: could not build or run
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
id="$1"; mode="$2"
case "$id" in C[0-9][0-9]) ;; *) echo "usage: check.sh ID quick|thorough|replay [FILE]" >&2; exit 2;; esac
feature="$(echo "$id" | tr C c)"
scratch="$here/target/scratch"
mkdir -p "$here/target/bin" "$scratch" "$here/evidence/replays"

if [ "$id" = C21 ]; then
    exec bash "$here/c21/run.sh" "$mode" "$3"
fi

if [ "$id" = C22 ]; then
    exec bash "$here/accel/run.sh" "$mode" "$3"
fi

target="$here/target/std"
bin="$here/target/bin/rsharness-$id"
(
    flock 9
    cargo build --offline --locked --quiet --manifest-path "$here/harness/Cargo.toml" --features "$feature" --target-dir "$target" \
        && cp -f "$target/debug/rsharness" "$bin.new" && mv -f "$bin.new" "$bin"
) 9>"$here/target/.lock-$(basename "$target")" || { echo "$id: the harness does not build against /repo" >&2; exit 2; }

seed="${VERIF_SEED:-1}"
case "$mode" in
    quick|thorough)
        exec "$bin" run "$id" --tier "$mode" --seed "$seed" --dir "$scratch" \
            --evidence "$here/evidence/$id.json" --replays "$here/evidence/replays" ${CASES:+--cases $CASES} ${SECS:+--secs $SECS} ;;
    replay)
        exec "$bin" replay "$id" --file "$3" ;;
    *) echo "unknown mode $mode" >&2; exit 2 ;;
esac
