#!/bin/sh
# run.sh ID [tier [task...]]: runs one check
cd "$(dirname "$0")" && exec python3-vt -m vp.check "$@"
