#!/bin/bash
# Checks that what the monitors need is installed; every check builds its own monitors from /repo's current tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence build
for t in clang++ g++ ar python3; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
printf '#include <absl/status/statusor.h>\n#include <re2/re2.h>\n#include <openssl/evp.h>\nint main() { return 0; }\n' > build/setup_probe.cc
clang++ -std=c++20 -w -fsanitize=address,undefined -isystem shim build/setup_probe.cc -o build/setup_probe -lpcre2-8 -lcrypto
./build/setup_probe
rm -f "$PWD/build/setup_probe" "$PWD/build/setup_probe.cc"
echo ready
