#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's current working tree
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -x bin/gosym ] || ./setup.sh || exit 3
exec bin/gosym -prop "$1" -tier "$2"
