#!/bin/sh
# nothing is built ahead of time: every check rebuilds from /repo's working tree; only look for the tools
for t in goto-cc goto-instrument cbmc gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
