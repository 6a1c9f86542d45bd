#!/bin/bash
# Builds the zygote(s) from /repo's current working tree into the (git-ignored) directory $1.   usage: build.sh DIR plain|asan|zero|pattern
set -euo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${BXMC_REPO:-/repo}
OUT=$1 ; KIND=$2
mkdir -p "$OUT"
key=$( (cd "$REPO/src" && find . -type f \( -name '*.c' -o -name '*.h' -o -name '*.l' -o -name '*.y' \) -print0 | sort -z | xargs -0 sha256sum; \
        sha256sum < "$HERE/zygote.c"; sha256sum < "$HERE/build.sh") | sha256sum | cut -c1-24)
BIN="$OUT/zygote-$KIND-$key"
exec 9>"$OUT/.lock-$KIND"
flock 9
if [ ! -x "$BIN" ]; then
    rm -f "$OUT"/zygote-"$KIND"-*
    W=$(mktemp -d "$OUT/tmp.XXXXXX")
    trap 'rm -rf "$W"' EXIT
    VER=$(sed -n 's/^BVERSION *= *//p' "$REPO/Makefile" | head -1)
    sed -e "s/--BVERSION--/$VER/; s:--GLOBALCONF--:/opt/bxmc-global/boxes:" "$REPO/src/boxes.in.h" > "$W/boxes.h"
    (cd "$W" && bison --defines=parser.h -o parser.c "$REPO/src/parser.y" 2>/dev/null \
             && flex --header-file=lex.yy.h "$REPO/src/lexer.l" 2>/dev/null)
    if [ "$KIND" = asan ]; then
        CC=clang; FLAGS="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -DBXMC_ASAN"
    elif [ "$KIND" = steps ]; then     # counts control flow edges
        CC=clang; FLAGS="-O1 -g -fsanitize-coverage=trace-pc-guard -DBXMC_STEPS"
    elif [ "$KIND" = zero ]; then      # indeterminate memory filled in different ways
        CC=gcc; FLAGS="-O1 -g -ftrivial-auto-var-init=zero -DBXMC_PERTURB=0xFF"
    elif [ "$KIND" = pattern ]; then
        CC=gcc; FLAGS="-O1 -g -ftrivial-auto-var-init=pattern -DBXMC_PERTURB=0x5A"
    else
        CC=gcc; FLAGS="-O1 -g"
    fi
    pids=()
    for f in "$REPO"/src/*.c "$W/parser.c" "$W/lex.yy.c"; do
        b=$(basename "$f" .c); extra=""
        [ "$f" = "$REPO/src/boxes.c" ] && extra="-Dmain=boxes_main"
        $CC $FLAGS $extra -w -I"$W" -I"$REPO/src" -c "$f" -o "$W/$b.o" & pids+=($!)
    done
    $CC ${FLAGS/-fsanitize-coverage=trace-pc-guard/} -Wall -c "$HERE/zygote.c" -o "$W/bxmc_zygote.o" & pids+=($!)
    for p in "${pids[@]}"; do wait "$p"; done
    $CC $FLAGS "$W"/*.o -o "$W/z" -Wl,--wrap=fopen,--wrap=opendir,--wrap=access,--wrap=stat,--wrap=realpath \
        -lunistring -lpcre2-32 -lncurses
    mv "$W/z" "$BIN"
fi
echo "$BIN"
