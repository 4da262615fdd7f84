# Sourced with ROOT set. Builds the simulator and the simulated processes from /repo's working tree.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$ROOT/target"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS

build_all() {
    mkdir -p "$ROOT/target/copies" || return 3
    exec 9>"$ROOT/target/.build-lock"
    flock 9
    local log="$ROOT/target/build.log" sum was h=/repo/go/cpossum/possum.h
    # What is built must be what is there, whatever the files' times say.
    sum=$(cd /repo && find src manifest.sql Cargo.toml build.rs -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
    was=$(cat "$ROOT/target/.repo-sum" 2>/dev/null)
    # /repo's build script rewrites this file.
    cp -p "$h" "$ROOT/target/.possum.h" 2>/dev/null
    (
        cd "$ROOT/node" || exit 3
        if [ "$sum" != "$was" ]; then cargo clean --offline -p possum-db -p possum-node >/dev/null 2>&1; fi
        export RUSTFLAGS="--cfg possum_sim"
        # Without the command line tool, if it can't be built in.
        rm -f "$ROOT/target/.no-tool"
        cargo build --offline --features cli || { touch "$ROOT/target/.no-tool"; cargo build --offline; }
    ) >"$log" 2>&1 &
    local n=$!
    (cd "$ROOT/sim" && CARGO_TARGET_DIR="$ROOT/target/sim" cargo build --offline) >"$log.sim" 2>&1
    local rs=$?
    wait $n
    local rn=$?
    if [ -f "$ROOT/target/.possum.h" ] && ! cmp -s "$h" "$ROOT/target/.possum.h"; then
        cp -p "$ROOT/target/.possum.h" "$h"
    fi
    if [ $rn != 0 ] || [ $rs != 0 ]; then
        echo "build failed:" >&2
        tail -n 40 "$log" "$log.sim" >&2
        flock -u 9
        return 3
    fi
    echo "$sum" >"$ROOT/target/.repo-sum"
    local so="$ROOT/target/debug/libpossum_node.so" c="$ROOT/target/copies"
    if ! [ "$c/base.so" -nt "$so" ] || ! [ -f "$c/node13.so" ]; then
        # One file per simulated process, so that each gets its own copy of all static state.
        strip -o "$c/new.so" "$so" || return 3
        for i in $(seq 0 13); do
            cp "$c/new.so" "$c/new$i.so" && mv "$c/new$i.so" "$c/node$i.so" || return 3
        done
        mv "$c/new.so" "$c/base.so"
        touch "$c/base.so"
    fi
    flock -u 9
    SIMCTL="$ROOT/target/sim/debug/simctl"
}

# The simulator of the Go binding, with the binding from /repo's working tree inside.
build_go() {
    local log="$ROOT/target/build-go.log" d="$ROOT/target/gosim" rc=0
    mkdir -p "$d" || return 3
    exec 9>"$ROOT/target/.build-go-lock"
    flock 9
    (
        export GOENV=off GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOSUMDB=off GOTELEMETRY=off GOWORK=off CGO_ENABLED=1
        export GOCACHE="$ROOT/target/gocache" GOPATH="$ROOT/target/gopath" CGO_LDFLAGS_ALLOW='.*'
        unset GOOS GOARCH CGO_CFLAGS CGO_LDFLAGS
        export PATH="$PATH:/usr/local/go/bin"
        cd "$ROOT/gosim" &&
            go build -o "$d/rewrite" ./rewrite &&
            "$d/rewrite" /repo/go "$d/possum" &&
            go build -o "$d/gosim" ./driver
    ) >"$log" 2>&1 || rc=3
    flock -u 9
    if [ $rc != 0 ]; then
        echo "build failed:" >&2
        tail -n 40 "$log" >&2
        return 3
    fi
    GOSIM="$d/gosim"
}
