#!/bin/bash
# usage: check.sh PROPERTY [tier]   (run in /verif)
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/hbufcheck ] || ./setup.sh >/dev/null || exit 2
exec bin/hbufcheck -repo "${HBUF_REPO:-/repo}" -verif "$PWD" -property "$1" ${2:+-tier "$2"}
