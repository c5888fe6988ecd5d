#!/bin/bash
# Builds the program beside this script against the library built in the
# current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
b=$repo/.build-waf-default
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/inc" && ln -s "$repo/src" "$tmp/inc/lib-common"
gcc -std=gnu11 -O1 -g -w -funsigned-char -fno-strict-aliasing -fwrapv \
    -D_GNU_SOURCE -DHAS_LIBCOMMON_REPOSITORY=0 -DHAVE_LIBXML=1 \
    -DHAVE_OPENSSL=1 -DHAVE_ZLIB=1 -DHAVE_NETINET_SCTP_H=0 \
    -I"$tmp/inc" -I"$repo/src/compat" -I/usr/include/libxml2 -I"$repo" \
    "$here/demo.c" -o "$tmp/demo" \
    -Wl,--start-group $b/src/liblibcommon.a $b/src/liblibcommon-iop.a \
    $b/src/liblibcommon-minimal.a $b/tests/iop/libtstiop*.a -Wl,--end-group \
    -lxml2 -lssl -lcrypto -lz -lpthread -ldl -lm -lrt || exit 2
cd "$tmp" && timeout 120 ./demo
