#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--replay FILE] [--only SCENARIO]
# Builds the check of one property against /repo's working tree and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
id="$1"
shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
build "$bin" || exit 3
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
