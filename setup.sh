#!/bin/bash
# Nothing persistent is built: every check rebuilds the extractor and the harness from source.
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
(cd extract && GOFLAGS= go build -o /dev/null .)
/opt/veriftools/pyvenv/bin/python -c "import z3, json"
