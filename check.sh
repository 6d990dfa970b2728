#!/bin/bash
# check.sh ARGS...: builds the simulator from /verif/sim into a scratch directory and
# runs it with the given arguments (see sim/main.go); nothing is left behind.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
bin=$(mktemp -d /tmp/bubblersimbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/sim" && GOFLAGS= GOWORK=off go build -o "$bin/sim" .) || exit 2
VERIF_DIR="$here" "$bin/sim" "$@"
