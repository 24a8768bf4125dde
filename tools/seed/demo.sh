#!/bin/sh
# run from the repository's root, after its build; everything happens in a scratch directory the program makes and removes
exec python3 "$(dirname "$0")/demo.py"
