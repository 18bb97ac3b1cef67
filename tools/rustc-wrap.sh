#!/bin/bash
# Compiles the crate under test, and only it, with a counter call in every basic block and, when
# AMSIM_BUILD=mem, a call before every load and store (scheduling points at accesses to statics).
rustc="$1"; shift
for ((i=1; i<=$#; i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); name="${!j}"; fi
done
if [ "$name" = "amxml" ] && [ "$AMSIM_BUILD" != plain ]; then
  mem=()
  [ "$AMSIM_BUILD" = mem ] && mem=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard "${mem[@]}" -Cembed-bitcode=no -Ccodegen-units=1 --cap-lints allow
fi
exec "$rustc" "$@"
