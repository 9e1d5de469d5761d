#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide a property on /repo's current working tree
# check.sh replay FILE                 replay a violation
# check.sh setup                       build the driver, warm the build cache
# check.sh selftest                    check the simulator itself on the constructs it has to control
set -u
export HOME="${HOME:-/root}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
cd "$(dirname "$0")" || exit 2
export VSIM_HOME="$PWD"
mkdir -p .bin || exit 2
bin=".bin/vsim.$$"
(cd tool && go build -o "../$bin" .) || { rm -f "$VSIM_HOME/$bin"; echo "cannot build the driver" >&2; exit 2; }
case "${1:-}" in
selftest) "$bin" selftest; rc=$? ;;
setup) "$bin" setup; rc=$? ;;
replay) "$bin" replay "$2"; rc=$? ;;
*) "$bin" check "$@"; rc=$? ;;
esac
rm -f "$VSIM_HOME/$bin"
exit $rc
