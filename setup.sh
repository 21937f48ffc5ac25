#!/bin/bash
# Builds the monitors from the committed files, offline.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
exec "$here/run.sh" --build
