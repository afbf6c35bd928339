#!/bin/bash
# check.sh ID quick|thorough     decide one property on /repo's working tree
# check.sh ID replay FILE        run one stored counterexample
# check.sh setup                 build everything once
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export HOME=/root
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && { PATH="$d:$PATH"; break; }
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
work="$(mktemp -d "${TMPDIR:-/tmp}/verif-build.XXXXXX")" || exit 2
trap 'rm -rf "$work"' EXIT
build() { # build [-race]
  mkdir -p "$work/src" && cp "$VERIF_DIR"/harness/*.go "$VERIF_DIR"/harness/*.json "$VERIF_DIR"/harness/go.mod "$VERIF_DIR"/harness/go.sum "$work/src/" &&
  (cd "$work/src" && go build "$@" -o "$work/harness" .) || { echo "the harness does not build against /repo" >&2; exit 2; }
}
case "${1:-}" in
  setup) build; build -race; build -tags p28; exit 0 ;;
  "") echo "usage: check.sh ID quick|thorough" >&2; exit 2 ;;
esac
id="$1"; tier="${2:-quick}"
case "$id" in
  P16|P32) build -race ;;
  P28) build -tags p28 ;; # the only check that needs the exported names of enumerated values
  *) build ;;
esac
if [ "$tier" = replay ]; then "$work/harness" replay "$3"; exit $?; fi
"$work/harness" check "$id" "$tier"
exit $?
