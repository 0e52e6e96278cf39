#!/bin/bash
# Runs one scenario against the library built in the current directory (/repo): exit 0 if the expectation in scn.py holds.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/resources" "$W/tmp"
printf '#define APP_NAME "Tag Parser"\n#define APP_VERSION "0.0.0"\n#define PROJECT_NAME "tagparser"\n' > "$W/resources/config.h"
LIB=$R/_build/libtagparser.a
g++ -std=gnu++17 -w -O0 -rdynamic -DNDEBUG -DTAG_PARSER_STATIC -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -I"$R/_build/shim" -I"$(dirname "$R")" -I"$R" -I"$W" \
    -isystem /usr/include/martchus-c++utilities "$D/harness/driver.cpp" -o "$W/driver" "$LIB" -lmartchus-c++utilities -lz -ldl || exit 3
TMPDIR="$W/tmp" PYTHONDONTWRITEBYTECODE=1 python3 "$D/demo.py" "$W/driver"
