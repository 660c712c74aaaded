#!/bin/bash
# check.sh <property>: decide one property of /repo's current tree.
cd "$(dirname "$0")" || exit 3
. ./env.sh
./build.sh || exit 3
exec ./bin/gover check -verif "$PWD" "$1"
