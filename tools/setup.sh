#!/bin/bash
# nothing to build: checks that the solver and the project's interpreter are there
set -e
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
/opt/venv/bin/python -c 'import idpyoidc, cryptojwt; print("idpyoidc", idpyoidc.__version__)'
