#!/bin/bash
# exit 0: the property holds; nonzero: it does not. Run with the repository as the current directory.
exec python3 "$(dirname "$0")/run.py"
