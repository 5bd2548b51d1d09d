#!/bin/bash
# usage: t.sh ID [args]   (developer helper)
exec /opt/venv/bin/python /verif/run.py "$@" --verbose
