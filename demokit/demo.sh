#!/bin/bash
# Build the driver beside this file against the library that build.sh built
# from the current tree, then run the demonstration with it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/arkidemo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
build=$repo/_build
cd "$tmp" || exit 2
flags="-std=c++17 -O0 -g0 -w -D_FILE_OFFSET_BITS=64 -DHAVE_CONFIG_H -I$build -I$build/arki/.. -I$repo -I$build/arki -I$repo/arki -I$here -I/usr/include/lua5.1 -I/usr/include/lzo"
pids=""
for s in dsdrv drvlib synth stubs; do
    g++ $flags -c "$here/$s.cc" -o "$s.o" & pids="$pids $!"
done
g++ $flags -U_FILE_OFFSET_BITS -c "$here/sysint.cc" -o sysint.o & pids="$pids $!"
extra=""
if ! ar t $build/arki/libarkimet.a | grep -q data_grib; then
    g++ $flags -c "$repo/arki/data/grib.cc" -o grib.o & pids="$pids $!"
    extra=grib.o
fi
for p in $pids; do wait $p || { echo "cannot build the driver"; exit 2; }; done
g++ -o driver -pthread -rdynamic dsdrv.o drvlib.o synth.o stubs.o sysint.o $extra \
    -Wl,--start-group $build/arki/libarkimet.a -Wl,--end-group -lgeos_c -llzo2 -leccodes -larchive -lzip -lz -lcurl -lsqlite3 -lssl -lcrypto -llua5.1 -lpthread -ldl || exit 2
mkdir work
exec 3>&1
ARKIDEMO_DRIVER=$tmp/driver ARKIDEMO_WORK=$tmp/work python3 "$here/demo.py"
