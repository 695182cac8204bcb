#!/bin/bash
# Builds the translator from /repo once, so that the checks find it ready (they rebuild when /repo changed).
cd "$(dirname "$0")" && python3 -c "import sys; sys.path.insert(0, 'vlib'); import vp; print(vp.che())"
