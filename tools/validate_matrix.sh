#!/bin/bash
# Not part of any check: validates the PX4/Matrix stand-in (/verif/matrix) by building the project's own, complete
# gtest suite against it (the sandbox baseline can only build the geo_lookup tests).
# usage: validate_matrix.sh [REPO]     builds in a temporary directory that is removed afterwards
set -e
REPO=${1:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d /tmp/valmat.XXXXXX)
trap 'rm -rf "$D"' EXIT
mkdir "$D/o"
cp -r "$REPO/test" "$D/test"
cat > "$D/cc.sh" <<EOS
#!/bin/sh
exec g++ -std=c++14 -O1 -w -fno-associative-math -DECL_STANDALONE '-DTEST_DATA_PATH="$D/test"' -I$REPO -I$REPO/EKF -I$HERE/matrix -I$D/test -I$D/test/sensor_simulator -I$D/test/test_helper -c \$1 -o $D/o/\$(echo \$1 | tr / _).o
EOS
chmod +x "$D/cc.sh"
ls $REPO/EKF/*.cpp $REPO/geo/*.cpp $REPO/geo_lookup/*.cpp $REPO/airdata/*.cpp $D/test/*.cpp $D/test/sensor_simulator/*.cpp $D/test/test_helper/*.cpp | xargs -P8 -n1 "$D/cc.sh"
g++ "$D"/o/*.o -lgtest -lpthread -o "$D/gt"
mkdir -p "$D/a/b/c"; cd "$D/a/b/c" && ("$D/gt" 2>&1 || true) | grep -aE "^\[  (PASSED|FAILED)|empty"
