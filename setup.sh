#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's working tree (cached in build/).
cd "$(dirname "$0")" && mkdir -p build evidence && java -version >/dev/null 2>&1 && g++ --version >/dev/null
