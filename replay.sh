#!/bin/bash
# replay.sh <file named by a VIOLATION line>: runs the recorded failing input against the current tree.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
[ -x "$here/bin/govc" ] || bash "$here/build.sh" || exit 2
exec "$here/bin/govc" replay -repo /repo -verif "$here" "$1"
