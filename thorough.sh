#!/bin/bash
# usage: thorough.sh ID     (called by check.sh after the monitors have run in the normal build)
#  1. the same workloads under AddressSanitizer
#  2. a coverage-guided search (libFuzzer, AddressSanitizer) over the decisions of the generators
#  3. for P12 and P23: a small workload interpreted by Miri, with many schedules
# What each of them did is added to evidence/ID.json.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
seed=${VERIF_SEED:-1}
b="$here/build"
t="$b/thorough/$id"
secs=${RV_FUZZ_SECONDS:-240}
target=x86_64-unknown-linux-gnu
export RV_ROOT="$here" RV_NO_EVIDENCE=1 RV_SLOW=1
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=0
rm -rf "$t"
mkdir -p "$t" "$here/replays"

exec 9>"$b/lock"
flock 9
sum=$(cat "$b/repo.sum" 2>/dev/null)
if [ "$(cat "$b/thorough.sum" 2>/dev/null)" != "$sum" ]; then
    # other contents of /repo, perhaps with older modification times
    for d in asan fuzz fuzz-asan miri; do
        find "$b/$d" -name '*ruplicity*' -prune -exec rm -rf {} + 2>/dev/null
    done
fi
build() {
    local log=$1; shift
    if ! "$@" >"$log" 2>&1; then
        grep -E -A8 '^error' "$log" | head -40
        echo "CHECK ERROR: build failed (see $log)"
        exit 2
    fi
}
RUSTFLAGS="-Zsanitizer=address" build "$b/asan.log" cargo +nightly build --locked \
    --manifest-path "$here/harness/Cargo.toml" --target $target --target-dir "$b/asan"
# the search itself is five times faster without AddressSanitizer, which hostile bytes deserve
fz=fuzz
[ "$id" = P12 ] && fz=fuzz-asan
RUSTC_WRAPPER="$here/fuzz/cov.sh" RUSTFLAGS=$([ $fz = fuzz ] || echo -Zsanitizer=address) build "$b/fuzz.log" cargo +nightly build \
    --locked --manifest-path "$here/fuzz/Cargo.toml" --target $target --target-dir "$b/$fz"
echo "$sum" >"$b/thorough.sum"
flock -u 9

# 3. Miri, beside the rest
miri_pid=""
if [ "$id" = P12 ] || [ "$id" = P23 ]; then
    (cd "$here/harness" && RV_SEED=$((seed * 100 + 1)) MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..${RV_MIRI_SCHEDULES:-2}" \
        exec timeout 1500 cargo +nightly miri run --locked --features nohooks --target-dir "$b/miri" -- walk 2) >"$t/miri.1" 2>&1 &
    miri_pid=$!
fi

# 1. AddressSanitizer
RV_TAG="asan,overflow-checks,debug-assertions" RV_PERCENT=${RV_ASAN_PERCENT:-8} \
    "$b/asan/$target/debug/rv" run "$id" >"$t/asan.out" 2>&1
rc=$?
if [ $rc != 0 ]; then
    cat "$t/asan.out"
    exit $rc
fi

# 2. coverage-guided
mkdir -p "$t/corpus" "$t/art"
python3 - "$t/corpus" "$seed" <<'P'
import os, random, sys
r = random.Random(int(sys.argv[2]))
for i in range(96):
    with open(os.path.join(sys.argv[1], 'seed%d' % i), 'wb') as f:
        f.write(r.randbytes(r.choice([16, 64, 256, 1024, 4096])))
P
(cd "$t" && RV_PROP=$id timeout $((secs + 300)) "$b/$fz/$target/debug/rv" corpus -artifact_prefix=art/ -jobs=8 -workers=8 \
    -max_total_time=$secs -max_len=6144 -len_control=0 -timeout=120 -rss_limit_mb=3500 -reload=1 -seed="$seed" \
    -print_final_stats=1 >fuzz.out 2>&1)
for a in "$t"/art/*; do
    [ -e "$a" ] || continue
    case "$a" in
    */slow-unit-*) continue ;;
    # only P12 speaks of time and memory
    */timeout-* | */oom-*) [ "$id" = P12 ] || continue ;;
    esac
    r="$here/replays/$id-fuzz-$(basename "$a")"
    cp "$a" "$r"
    RV_PROP=$id RV_SHOW=1 timeout 120 "$b/$fz/$target/debug/rv" "$r" >"$r.txt" 2>&1
    {
        echo "replay: RV_PROP=$id RV_SHOW=1 $b/$fz/$target/debug/rv $r"
    } >>"$r.txt"
    grep -E "RV-VIOLATION|ERROR: |SUMMARY" "$r.txt" | head -3
    echo "VIOLATION property=$id replay=$r.txt"
    exit 1
done

if [ -n "$miri_pid" ]; then
    wait $miri_pid
    rc=$?
    if [ $rc != 0 ] && [ $rc != 124 ]; then
        if grep -q -E "Undefined Behavior|VIOLATED|ata race|panicked" "$t/miri.1"; then
            cp "$t/miri.1" "$here/replays/$id-miri.txt"
            grep -E "Undefined Behavior|VIOLATED|ata race|panicked" "$t/miri.1" | head -3
            echo "VIOLATION property=$id replay=$here/replays/$id-miri.txt"
            exit 1
        fi
        tail -5 "$t/miri.1"
        echo "CHECK ERROR: Miri"
        exit 2
    fi
fi

python3 - "$here/evidence/$id.json" "$t" <<'P'
import glob, json, re, sys
ev, t = sys.argv[1:]
e = json.load(open(ev))
c = e['coverage']
m = re.search(r'(\d+) cases, (\d+) distinct', open(t + '/asan.out').read())
c['address_sanitizer'] = {'cases': int(m.group(1)), 'distinct_nontrivial': int(m.group(2)), 'reports': 0}
runs, edges, feats, corpus = 0, 0, 0, 0
for f in glob.glob(t + '/fuzz-*.log'):
    s = open(f, errors='replace').read()
    m = re.search(r'stat::number_of_executed_units: (\d+)', s)
    runs += int(m.group(1)) if m else 0
    for m in re.finditer(r'cov: (\d+) ft: (\d+) corp: (\d+)/', s):
        edges, feats, corpus = max(edges, int(m.group(1))), max(feats, int(m.group(2))), max(corpus, int(m.group(3)))
c['coverage_guided'] = {'executions': runs, 'edges_of_ruplicity_tar_time': edges, 'features': feats, 'corpus': corpus, 'violations': 0}
w = sum(len(re.findall('^WALK', open(f).read(), re.M)) for f in glob.glob(t + '/miri.*'))
if glob.glob(t + '/miri.*'):
    c['miri'] = {'walks_interpreted': w, 'reports': 0}
json.dump(e, open(ev, 'w'), indent=1)
print('  asan cases = %d, fuzz executions = %d, edges = %d, miri walks = %d' % (c['address_sanitizer']['cases'], runs, edges, w))
P
rm -rf "$t/corpus"
