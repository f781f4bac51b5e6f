#!/bin/bash
# check.sh Cxx [--thorough]
cd "$(dirname "$0")" && exec python3 -B -m nqsa.check "$@"
