#!/bin/bash
# Builds the sanitizer variants of /repo's library and the harnesses, so that the checks only rebuild what changed.
cd "$(dirname "$0")" && exec python3 tools/prebuild.py
