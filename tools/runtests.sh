#!/bin/bash
# runtests.sh DIR: what /opt/vp/test.sh does, on a copy of the repository; prints what fails.
R=$(readlink -f "$1")
W=$(mktemp -d /tmp/runtests.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
. /opt/vp/tools/env.sh
cd "$R" || exit 9
export PYTHONPATH=$R
PYTEST="$PY -m pytest -q -p no:cacheprovider --timeout=300"
$PYTEST prophy prophyc >"$W/1" 2>&1 || { echo "FAILED: $(grep -E '^(FAILED|ERROR)' "$W/1" | head -2)"; exit 1; }
PROPHY_NOCLANG=1 PYTHONPATH=/opt/vp/tools:$R $PYTEST -p only_noclang prophyc/tests >"$W/2" 2>&1 || { echo "FAILED noclang"; exit 1; }
mkdir "$W/cpp" && cd "$W/cpp" && mkdir gen
for f in "$R"/prophy_cpp/test/*.prophy; do
    outs="--cpp_out gen --cpp_full_out gen"
    case $f in *ExtSized.prophy) outs="--cpp_out gen";; esac
    $PY -m prophyc $outs --patch "$R/prophy_cpp/test/patches.patch" "$f" >/dev/null 2>&1 || { echo "FAILED to generate C++"; exit 1; }
done
sed "s#/repo/#$R/#" /opt/vp/tools/cpp.mk > cpp.mk
make -s -f cpp.mk -j8 test_prophy >/dev/null 2>&1 || { echo "FAILED to build C++"; exit 1; }
./test_prophy >"$W/3" 2>&1 || { echo "FAILED C++ $(grep -m2 FAILED "$W/3")"; exit 1; }
echo "pass"
