#!/bin/sh
# run.sh ID: runs one check against /repo
cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
exec ./bin/sa "$@"
