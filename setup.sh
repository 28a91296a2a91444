#!/bin/bash
# Compiles what the checks share into /verif/_work; every check also builds what it needs itself.
cd "$(dirname "$0")" || exit 1
exec python3-vt checks/warm.py
