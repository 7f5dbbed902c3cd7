#!/bin/bash
# Builds the estimator from the current directory (the repository) together with demo.cpp and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
export here repo d
ls "$repo"/EKF/*.cpp "$repo"/geo/*.cpp "$repo"/geo_lookup/*.cpp "$repo"/airdata/*.cpp "$here"/demo.cpp | xargs -P8 -I{} sh -c 'g++ -std=c++14 -O1 -w -DECL_STANDALONE '"${DEMOFLAGS:-}"' -I"$repo" -I"$repo/EKF" -I"$here/matrix" -I"$here" -c {} -o "$d/$(basename {} .cpp).o" || exit 255' || exit 3
g++ ${DEMOFLAGS:-} "$d"/*.o -o "$d/demo" || exit 3
timeout 200 "$d/demo" 2>/dev/null
