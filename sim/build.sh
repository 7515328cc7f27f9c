#!/bin/bash
# Builds the simulators from /repo's current working tree into $1 (default /verif/build).
# Usage: build.sh hist|hist-na|hist-am|thr [outdir]
# hist-na: reference counts without atomics; hist-am: the generated single-file distribution
# Exit 4: the single-file distribution cannot be generated or compiled.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
what="$1"
OUT="${2:-$HERE/../build}/$what"
mkdir -p "$OUT/lib" || exit 3
cd "$OUT" || exit 3
INC="-I$REPO/include -I$REPO/cpp -I$REPO"
ASAN="-fsanitize=address -fno-sanitize-address-globals-dead-stripping -fno-omit-frame-pointer"
NA="" AM=""
if [ "$what" = hist-am ]; then
    what=hist AM="$OUT/am"
    mkdir -p "$AM/inc/roaring" || exit 3
    rm -rf "$AM/tree" && mkdir "$AM/tree" && cp -r "$REPO/amalgamation.sh" "$REPO/include" "$REPO/cpp" "$REPO/src" "$AM/tree/" || exit 3
    (cd "$AM/tree" && bash ./amalgamation.sh "$AM") > am.log 2>&1 || { cat am.log >&2; exit 4; }
    for h in roaring roaring64 memory; do printf '#include "%s/roaring.h"\n' "$AM" > "$AM/inc/roaring/$h.h"; done
    for h in roaring roaring64map; do printf '#include "%s/roaring.hh"\n' "$AM" > "$AM/inc/$h.hh"; done
    INC="-I$AM/inc"
fi
[ "$what" = hist-na ] && NA="-DCROARING_ATOMIC_IMPL=CROARING_ATOMIC_IMPL_NONE" && what=hist
if [ "$what" = hist ]; then
    LIBF="-O2 -g1 -DNDEBUG -std=c11 -w $NA $ASAN -fsanitize=unreachable -fsanitize-trap=unreachable"
    # the harness itself is not instrumented; its heap still has redzones
    HARF="-O2 -g1 -DNDEBUG -std=c++17 -w"
    SRCS="driver heap codec w32 w32fault w64 w64fault wbits wcpp hengine"
else
    LIBF="-O1 -g1 -DNDEBUG -std=c11 -w -fsanitize=thread -fno-vectorize -fno-slp-vectorize -fno-omit-frame-pointer"
    HARF="-O2 -g1 -DNDEBUG -std=c++17 -w"
    SRCS="driver codec w32 w32fault w64 tsanrt thr"
fi
# objects are cached by content: compiler command + preprocessed-input digest
dig="$( (cd "$REPO" && find include src cpp -type f \( -name '*.h' -o -name '*.c' -o -name '*.hh' \) -print0 | sort -z | xargs -0 sha256sum; cat "$HERE"/*.h "$HERE"/build.sh; echo "$LIBF $HARF") | sha256sum | cut -c1-32)"
jobs=()
: > cmds
rm -f lib/*.o
if [ -n "$AM" ]; then
    # the CPU probe stays replaceable although everything is one file; the real one is compiled apart
    clang $LIBF -fPIC -fsemantic-interposition -c "$AM/roaring.c" -o lib/roaring.o 2> am.log || { head -40 am.log >&2; exit 4; }
    (cd "$AM" && clang -std=c11 -O1 -w amalgamation_demo.c -o demo && ./demo && clang++ -std=c++11 -O1 -w -c amalgamation_demo.cpp -o demopp.o) > am.log 2>&1 || { head -40 am.log >&2; exit 4; }
    objcopy --weaken-symbol=croaring_hardware_support lib/roaring.o || exit 3
    clang $LIBF -I"$REPO/include" -c "$REPO/src/isadetection.c" -o lib/isadetection.o && objcopy --keep-global-symbol=croaring_hardware_support lib/isadetection.o || exit 3
else
for c in $(cd "$REPO/src" && find . -name '*.c' | sort); do
    n=$(echo "$c" | tr '/' '_' | sed 's/^\._//; s/\.c$//')
    echo "clang $LIBF $INC -c $REPO/src/$c -o lib/$n.o" >> cmds
done
fi
for s in $SRCS; do
    [ -f "$HERE/$s.cpp" ] || continue
    k="$(cat "$HERE/$s.cpp" | sha256sum | cut -c1-16)"
    if [ "$(cat "$s.key" 2>/dev/null)" != "$dig$k" ] || [ ! -f "$s.o" ]; then
        X=""; case $s in wcpp|hengine) X="$ASAN $NA";; esac
        echo "clang++ $HARF $X $INC -I$HERE -c $HERE/$s.cpp -o $s.o && echo $dig$k > $s.key" >> cmds
    fi
done
tr '\n' '\0' < cmds | xargs -0 -P 8 -I{} sh -c '{}' || { echo "build failed" >&2; exit 3; }
objs=""
for s in $SRCS; do [ -f "$s.o" ] && [ -f "$HERE/$s.cpp" ] && objs="$objs $s.o"; done
if [ "$what" = hist ]; then
    R=""
    for f in malloc calloc realloc free posix_memalign aligned_alloc memalign strdup; do R="$R --redefine-sym $f=simlib_$f"; done
    for o in lib/*.o; do
        X="$R"
        if nm "$o" | grep -qE ' [Tti] croaring_hardware_support$'; then X="$X --redefine-sym croaring_hardware_support=croaring_hardware_support_real"; fi
        # the library's variables get sections of their own: they are reset between runs
        objcopy $X --rename-section .data=libdata --rename-section .bss=libbss "$o" || exit 3
    done
    clang++ $ASAN $objs lib/*.o -o hist.new -lm || exit 3
    mv hist.new hist
else
    R=""
    for f in malloc calloc realloc free posix_memalign aligned_alloc memalign strdup memcmp bcmp memcpy memmove memset; do R="$R --redefine-sym $f=simlib_$f"; done
    for o in lib/*.o; do
        X="$R"
        if nm "$o" | grep -qE ' [TtWi] croaring_hardware_support$'; then X="$X --redefine-sym croaring_hardware_support=croaring_hardware_support_real"; fi
        # the library's variables get sections of their own: they are watched, and reset between runs
        objcopy $X --rename-section .data=libdata --rename-section .bss=libbss "$o" || exit 3
    done
    clang++ -no-pie $objs lib/*.o -o thr.new -lm || exit 3
    mv thr.new thr
fi
