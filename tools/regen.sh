#!/bin/bash
# regenerate the generated files and commit
cd "$(dirname "$0")/.." && python3 tools/make_properties.py && python3 tools/make_manifest.py && python3 tools/known.py && python3 tools/make_design.py && git add -A && git commit -qm "$1" && git status --short
