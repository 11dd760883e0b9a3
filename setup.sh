#!/bin/bash
# nothing to compile: check that the interpreter and the code under test import
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" /opt/venv/bin/python -W ignore -c 'import mc.env, mc.core, dp.run'
