#!/bin/bash
# usage: check.sh <property> <quick|thorough>  |  check.sh <property> replay <file>
set -u
cd "$(dirname "$0")" || exit 2
if [ "$1" = C20 ]; then
  # The VS Code extension: TypeScript, explored by a harness of its own.
  exec node ext/check.cjs "${2:-quick}" ${3:+"$3"}
fi
. ./build.sh || exit 2
case "${2:-quick}" in
  replay) exec ./target/release/mc replay "$3" ;;
  *) exec ./target/release/mc check "$1" "${2:-quick}" ;;
esac
