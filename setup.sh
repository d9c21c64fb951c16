#!/bin/bash
# Nothing to build: the framework is Python run by the pre-installed tooling venv.  Fails early if
# the tools it relies on are missing.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/veriftools/pyvenv/bin/python -c "
import sys; sys.path.append('/opt/venv/lib/python3.12/site-packages')
import z3, migen, litex, litedram
print('z3', z3.get_version_string())"
cvc5 --version | head -1
echo setup ok
