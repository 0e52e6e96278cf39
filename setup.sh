#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's current tree.
cd "$(dirname "$0")" && python3 lib/vbuild.py plain >/dev/null && echo ready
