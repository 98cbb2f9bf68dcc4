#!/bin/bash
# Builds the repository's own SDK-dependent tests (which /opt/vp/build.sh leaves out) against the
# stand-in SDK headers and runs them. Used to validate the stand-in and the fix: commits.
R=${1:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); W=$(mktemp -d); cd "$W" || exit 2
printf '#define TEST_DATA "%s/core/tests/data"\n' "$R" > config.h
INC="-I. -I$V/harness/sdk -I$R/core/modules/core/include -I$R/core/modules/mem_mdlw/include -I$R/serialization/modules/serialization/include -I$R/high_performance/modules/high_performance/include -I/usr/include/concurrentqueue/moodycamel"
ls $R/core/tests/core_tests/src/*.cpp $R/core/tests/mem_core_tests/src/*.cpp $R/high_performance/tests/high_performance_tests/src/*.cpp $R/core/modules/core/src/*.cpp $R/core/modules/mem_mdlw/src/*.cpp $R/high_performance/modules/high_performance/src/*.cpp | grep -v mem_core_tests/src/main.cpp |
 xargs -P8 -I{} sh -c 'o=$(echo {} | sed s,/,_,g).o; g++ -std=c++17 -O1 -g -w -faligned-new '"$INC"' -c {} -o $o || echo FAIL {}'
L="-lgtest -lspdlog -lfmt -lpthread -latomic"
g++ -o ct *core_tests_src*.o *core_modules*.o $L && g++ -o ht *high_performance_tests_src*.o *core_modules*.o *high_performance_modules*.o $L
for b in ct ht; do timeout 300 ./$b > $b.out 2>&1; echo "$b exit $?"; grep -E "FAILED|PASSED" $b.out | tail -12; done
cd /; rm -rf "$W"
