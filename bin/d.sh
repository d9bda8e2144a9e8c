#!/bin/bash
# dev loop with short output
cd /verif && bash bin/dev.sh "$@" 2>&1 | grep -v "^warning\|^ *|" | cut -c1-1800 | tail -${LINES_:-25}
