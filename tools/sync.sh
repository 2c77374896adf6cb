#!/bin/bash
# regenerate the derived files and commit
cd /verif && python3 tools/table.py && python3 tools/findings.py && python3 tools/design.py && git add -A && git commit -qm "${1:-update}"
