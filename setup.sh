#!/bin/bash
# Nothing of its own to build: compiles /repo's extensions into git-ignored files, as every check does.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0,"lib"); import main; main.build()'
