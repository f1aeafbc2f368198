#!/bin/bash
# Nothing to compile: verify that the interpreter, the library under test and Hypothesis are importable offline.
cd "$(dirname "$0")" || exit 1
. ./env.sh
exec /opt/venv/bin/python -m harness selfcheck
