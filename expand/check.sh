#!/bin/bash
# expand/check.sh build | check SEED TIER | replay FILE      (run in /verif)
set -o pipefail
V=$PWD
export RUSTUP_TOOLCHAIN=nightly-2025-04-15 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$V/target/expand
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
if [ "$1" = build ]; then
    mkdir -p "$CARGO_TARGET_DIR"
    (cd expand && cargo build --offline -q --message-format=json 2> "$V/target/expand.err") > target/expand.json ||
        { cat target/expand.err; exit 2; }
    gcc -O1 -shared -fPIC -o target/expand/preload.so expand/preload.c || exit 2
    RUSTC=$(rustup which rustc) python3 - <<'P' || exit 2
import json, os
f = {}
for l in open("target/expand.json"):
    j = json.loads(l)
    if j.get("reason") == "compiler-artifact" and j["target"]["name"] in ("mockall", "mockall_double", "mockall_derive"):
        for p in j["filenames"]:
            if p.endswith((".rlib", ".so")):
                f[j["target"]["name"]] = p
json.dump({"rustc": os.environ["RUSTC"], "preload": os.path.abspath("target/expand/preload.so"),
           "deps": os.path.dirname(f["mockall"]), "mockall": f["mockall"], "double": f["mockall_double"]},
          open("target/expand/cfg.json", "w"))
P
    exit 0
fi
exec python3 expand/expand.py "$@"
