#!/bin/bash
# run.sh check PROPERTY | replay PROPERTY | build | verify ARGS...
# Offline; builds govc from /verif/govc when the binary is missing or older.
cd /verif || exit 2
build() {
  mkdir -p bin
  (cd govc && PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o /verif/bin/govc.new . && mv /verif/bin/govc.new /verif/bin/govc) || exit 2
}
if [ "$1" = build ]; then build; exit 0; fi
if [ "$1" = setup ]; then
  build
  # warm the build cache of the repository's own toolchain (front end and replay harness)
  for m in shlib shuttermint; do
    (cd /repo/$m && PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin HOME=/root GOROOT= GOPATH=/root/go GOCACHE=/root/.cache/go-build CGO_ENABLED=1 GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOWORK=off go build ./... >/dev/null 2>&1)
  done
  exit 0
fi
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -name '*.go' -print -quit)" ]; then build; fi
cmd=$1; shift
case "$cmd" in
  check) p=$1; shift; exec bin/govc check -prop "$p" "$@" ;;
  replay) p=$1; shift; exec bin/govc replay -prop "$p" "$@" ;;
  *) exec bin/govc "$cmd" "$@" ;;
esac
