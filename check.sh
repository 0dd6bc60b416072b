#!/bin/bash
# check.sh ID [flags]   decide property ID on /repo's current tree (exit 0 / 1)
# check.sh replay FILE  run a recorded counterexample natively against /repo
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
"$here/build.sh" || exit 2
if [ "$1" = replay ]; then
	exec "$here/bin/symgo" "$@"
fi
exec "$here/bin/symgo" check "$@"
