#!/bin/sh
# check.sh PROPERTY [engine flags]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/vengine ] || [ -n "$(find engine -name '*.go' -newer bin/vengine -not -path '*/vendor/*' 2>/dev/null | head -1)" ]; then
  sh ./setup.sh >&2 || exit 2
fi
p=$1
shift
exec bin/vengine -prop "$p" "$@"
