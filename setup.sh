#!/bin/bash
# Builds all checks, so that the single checks need to rebuild little.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
build --all || exit 3
