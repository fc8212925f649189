#!/bin/bash
# run.sh ID...: build the checker from the committed sources and run checks.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
fail() {
  for id in "$@"; do
    echo "the checker does not build" > "evidence/$id.report.txt"
    echo "VIOLATION property=$id replay=evidence/$id.report.txt"
  done
  exit 1
}
(cd checker && go build -o ../bin/chk.$$ .) || fail "$@"
mv bin/chk.$$ bin/chk
exec bin/chk run "$@"
