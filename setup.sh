#!/bin/bash
# Warms the build cache; every check rebuilds from /repo anyway.
cd "$(dirname "$0")" || exit 2
bash run.sh C27 quick
