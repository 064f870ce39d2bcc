#!/bin/bash
# Builds demo.c against the library just built from the source tree in the current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cc=gcc; src="$here/demo.c"; libs="$repo/_build/src/onion/libonion_static.a"
$cc -g -w -I"$repo/src" -I"$repo/_build/src" -I"$here" -D_GNU_SOURCE -DHAVE_PTHREADS -DHAVE_GNUTLS -o "$tmp/demo" "$src" $libs \
  -lrt -lxml2 -lpam -lgcrypt -lgnutls -lpthread -lsqlite3 -lhiredis -lsystemd -lm || exit 2
cd "$tmp" && ONION_LOG=nocolor timeout 120 ./demo
