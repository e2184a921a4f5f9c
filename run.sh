#!/bin/bash
# run.sh <property> [quick|thorough]: decide one property on /repo's current tree.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
[ -x "$here/bin/govc" ] || bash "$here/build.sh" || exit 2
exec "$here/bin/govc" check -repo /repo -verif "$here" -prop "$1" -tier "${2:-quick}"
