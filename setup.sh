#!/bin/bash
cd "$(dirname "$0")" || exit 1
bash ./build_ext.sh
mkdir -p evidence out
