#!/bin/bash
# Builds everything the quick checks need.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
bash "$here/sanitize.sh" thread 900
