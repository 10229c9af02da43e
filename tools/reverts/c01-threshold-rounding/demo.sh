#!/bin/bash
# exit 0 if the property holds on what the demonstration tries, 1 otherwise
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 \
    /opt/venv/bin/python "$(dirname "$0")/demo.py"
