#!/bin/bash
# Compiles everything once so that the checks find a warm build cache. The
# checks do not depend on it.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
exec env VERIF_TIER=quick bash "$here/check.sh" C12 -runs 200
