#!/bin/bash
# run.sh quick|thorough|replay [FILE]: C22 in every acceleration configuration
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. "$here/env.sh"
mode="$1"; libs="$here/target/accel-libs"; scratch="$here/target/scratch"; plain="$RUSTFLAGS"
mkdir -p "$here/target/bin" "$scratch" "$here/evidence/replays"
bash "$here/accel/build.sh" "$libs" || { echo "C22: the stand-in libraries do not build" >&2; exit 2; }

flags() { case "$1" in
    mac)  echo "--cfg apple_vdsp --cfg blas --cfg neon_simd" ;;   # what .cargo/config.toml turns on
    vdsp) echo "--cfg apple_vdsp --cfg blas" ;;
    neon) echo "--cfg neon_simd --cfg blas" ;;
    blas) echo "--cfg blas" ;;
esac; }
build() {
    local c="$1" t="$here/target/accel-$1"; mkdir -p "$t"
    ( flock 9
      RUSTFLAGS="$plain $(flags $c) -L native=$libs -L dependency=$libs --extern neon_shim=$libs/libneon_shim.rlib" \
      cargo build --offline --locked --quiet --manifest-path "$here/harness/Cargo.toml" --features c22 --target-dir "$t" \
          && cp -f "$t/debug/rsharness" "$here/target/bin/rsharness-C22-$c.new" && mv -f "$here/target/bin/rsharness-C22-$c.new" "$here/target/bin/rsharness-C22-$c"
    ) 9>"$t.lock"
}
all="mac vdsp neon blas"
if [ "$mode" = replay ]; then
    c="$(basename "$2" | sed 's/^C22-\([a-z]*\)-.*/\1/')"
    case " $all " in *" $c "*) ;; *) echo "no configuration in the name of $2" >&2; exit 2;; esac
    build "$c" || exit 2
    exec "$here/target/bin/rsharness-C22-$c" replay C22 --file "$2"
fi
pids=()
for c in $all; do build $c & pids+=($!); done
for p in "${pids[@]}"; do wait "$p" || { echo "C22: the harness does not build against /repo" >&2; exit 2; }; done
rc=0
for c in $all; do
    mkdir -p "$scratch/c22-$c"; rm -f "$scratch/c22-$c.json"
    "$here/target/bin/rsharness-C22-$c" run C22 --tier "$mode" --seed "${VERIF_SEED:-1}" --dir "$scratch/c22-$c" --evidence "$scratch/c22-$c.json" \
        --replays "$scratch/c22-$c" ${CASES:+--cases $CASES} ${SECS:+--secs $SECS} > "$scratch/c22-$c.out" 2>&1; r=$?
    # replay files carry the configuration in their name
    for f in "$scratch/c22-$c"/C22-*.json; do
        [ -e "$f" ] || continue
        to="$here/evidence/replays/C22-$c-${f##*/C22-}"; mv -f "$f" "$to"
        sed -i "s#$f#$to#g" "$scratch/c22-$c.out" "$scratch/c22-$c.json" 2>/dev/null
    done
    sed "s/^/[$c] /; s/^\[$c\] VIOLATION/VIOLATION/" "$scratch/c22-$c.out"
    if [ $r -gt 1 ]; then [ $rc -eq 1 ] || rc=2; elif [ $r -eq 1 ]; then rc=1; fi
done
python3 - "$here/evidence/C22.json" $(for c in $all; do echo "$c=$scratch/c22-$c.json"; done) <<'PY' || exit 2
import json, sys
out = None
for a in sys.argv[2:]:
    c, f = a.split("=", 1)
    try: d = json.load(open(f))
    except OSError: continue
    cov = d["coverage"]
    if out is None:
        out = dict(d); out["coverage"] = {"evaluations": 0, "distinct_nontrivial": 0, "rule": cov["rule"] + "; counted separately in each configuration", "configurations": {}, "samples": []}; out["wall_s"] = 0; out["violations"] = 0
    o = out["coverage"]
    o["evaluations"] += cov["evaluations"]; o["distinct_nontrivial"] += cov["distinct_nontrivial"]
    o["configurations"][c] = {k: cov[k] for k in ("evaluations", "distinct_nontrivial", "classes") if k in cov}
    o["samples"] += [{"configuration": c, "case": s} for s in cov["samples"][:4]]
    out["wall_s"] = round(out["wall_s"] + d["wall_s"], 1); out["violations"] += d.get("violations", 0)
json.dump(out, open(sys.argv[1], "w"), indent=1)
PY
exit $rc
