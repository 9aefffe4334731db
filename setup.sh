#!/bin/bash
# Nothing to build: the checks run the sources of /repo. Make sure that they and their interpreter are usable.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
exec /opt/venv/bin/python -B -c 'import numpy, cbor2, lxml; print("ready")'
