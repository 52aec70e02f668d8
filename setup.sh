#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
echo built
