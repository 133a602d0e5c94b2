#!/bin/bash
# Usage: run.sh ID [--replay FILE | -list]
# Rebuilds the explorer of property ID against /repo's working tree and runs it.
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
root=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: run.sh ID}
shift
race=
case $id in
C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C29|C32) group=abi ;;
C13|C14|C15|C16) group=bin ;;
C17|C18|C19|C20|C21|C31) group=wat ;;
C22|C23|C24) group=wit ;;
C25) group=lex ;;
C26) group=inst ;;
C27) group=enc ;;
C28) group=par race=yes ;;
C30) group=itr ;;
*) echo "unknown property $id" >&2; exit 2 ;;
esac
mkdir -p "$root/out/bin" "$root/evidence"
bin=$root/out/bin/$group-$id-$$
trap 'rm -f -- "$bin"' EXIT
build() { (cd "$root/harness" && go build "$@" -o "$bin" "./cmd/$group"); }
# with a monitor of conflicting accesses where the toolchain has one
if [ -n "$race" ] && CGO_ENABLED=1 build -race 2>/dev/null; then
  export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0"
elif ! build -tags extra 2>/dev/null; then
  # without what only the code itself uses and may do without
  build || exit 2
fi
args=()
for a in "$@"; do
  [ "$a" = --replay ] && a=-replay
  args+=("$a")
done
"$bin" "$id" -root "$root" "${args[@]}"
