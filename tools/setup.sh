#!/bin/bash
# builds the compiler driver; check.py does the same when it is not there
cd "$(dirname "$0")/../driver" && env -u RUSTFLAGS -u RUSTC_WRAPPER -u RUSTUP_TOOLCHAIN cargo +nightly build --release --offline --target-dir target
