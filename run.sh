#!/bin/bash
# usage: run.sh check <PROP> <quick|thorough> | run.sh setup | run.sh replay <PROP> <file>
set -u
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOSUMDB=off GOWORK=off
BIN="$V/.bin/engine"
build() {
  mkdir -p "$V/.bin" "$V/evidence"
  (cd "$V/engine" && GOFLAGS=-mod=mod go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || exit 2
}
case "${1:-}" in
setup) build ;;
check)
  if [ ! -x "$BIN" ] || [ -n "$(find "$V/engine" -name '*.go' -newer "$BIN" -print -quit)" ]; then build; fi
  exec "$BIN" check -repo /repo -verif "$V" -prop "$2" -tier "${3:-quick}" -seed "${VERIF_SEED:-1}" ${4:+-only "$4"} ;;
replay)
  [ -x "$BIN" ] || build
  exec "$BIN" replay -repo /repo -verif "$V" -prop "$2" -file "$3" ;;
*) echo "usage: run.sh setup | check PROP quick|thorough | replay PROP FILE"; exit 2 ;;
esac
