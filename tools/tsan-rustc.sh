#!/bin/bash
# Cargo's rustc wrapper for the ThreadSanitizer build. parking_lot's feature hardware-lock-elision, which
# the repository turns on, takes locks with inline assembly, which the sanitizer cannot see: every access
# under such a lock would be reported. Without the feature the same locks use ordinary atomics.
rustc="$1"
shift
case " $* " in
*" --crate-name parking_lot "*)
    args=()
    while [ $# -gt 0 ]; do
        if [ "$1" = --cfg ] && [ "${2:-}" = 'feature="hardware-lock-elision"' ]; then
            shift 2
            continue
        fi
        args+=("$1")
        shift
    done
    exec "$rustc" "${args[@]}"
    ;;
esac
exec "$rustc" "$@"
