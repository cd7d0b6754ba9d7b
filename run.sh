#!/bin/bash
# bash /verif/run.sh <property> [quick|thorough]   decide one property
# bash /verif/run.sh setup                         build the engine only
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOSUMDB=off
unset GOWORK
bin=engine/symgo
build() {
  local stale=1
  if [ -x "$bin" ]; then
    stale=0
    for f in engine/*.go engine/std/* engine/go.mod; do [ "$f" -nt "$bin" ] && stale=1; done
  fi
  [ $stale = 0 ] && return 0
  (cd engine && CGO_ENABLED=0 go build -o "symgo.$$" . && mv "symgo.$$" symgo)
}
build || { echo "cannot build the engine"; exit 2; }
[ "$1" = setup ] && {
  # warm the caches the checks use
  (cd harness && CGO_ENABLED=0 go build ./... && go vet ./sym >/dev/null 2>&1; true)
  exit 0
}
exec "$bin" check "$@"
