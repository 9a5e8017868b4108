#!/bin/bash
# Builds what the quick checks need, offline.
cd "$(dirname "$0")" || exit 2
. ./build.sh
build gv && build cli
