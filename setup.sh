#!/bin/bash
# Builds the framework once, offline: every test binary of every check (which also fills the build cache with the
# standard library, plain and race) so that a check only has to recompile what changed in /repo.
cd "$(dirname "$0")" || exit 2
python3 tools/prebuild.py
