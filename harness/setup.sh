#!/bin/sh
# nothing to build in advance: checks compile the crash shim into their scratch directory; this only checks the tools
set -e
java -version 2>/dev/null >/dev/null
gcc --version >/dev/null
/opt/venv/bin/python -c 'import pysodium' 2>/dev/null || python3 -c 'import pysodium'
