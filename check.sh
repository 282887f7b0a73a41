#!/bin/bash
# check.sh ID: build from /repo's working tree, then decide one property.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
case "$1" in
    C18|C19) part=cli; bin=cli/target/debug/barc ;;
    *) part=sim; bin=sim/target/debug/bisim ;;
esac
"$here/build.sh" $part || exit 2
cd "$here" || exit 2
exec "$here/$bin" check "$1"
