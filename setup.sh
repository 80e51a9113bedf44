#!/bin/sh
# Build the harness (and the command line) from /repo, offline.
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0, 'lib')
import vlib, bindings; vlib.build(); bindings.build()"
