#!/bin/bash
# compiler wrapper: g++ 13 miscompiles "(this->*table[i])(x)" under -fsanitize=bounds (the call uses
# element 0), so files which call through member pointers are built without that one sanitizer.
extra=()
for a in "$@"; do
  case "$a" in *.cc) if grep -qE '[(][A-Za-z_]+->\*' "$a" 2>/dev/null; then extra=(-fno-sanitize=bounds); fi;; esac
done
if command -v ccache >/dev/null; then exec ccache g++ "$@" "${extra[@]}"; fi
exec g++ "$@" "${extra[@]}"
