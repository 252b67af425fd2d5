#!/bin/sh
# nothing to build: checks that the tools are there
cd "$(dirname "$0")" && mkdir -p evidence && /opt/veriftools/pyvenv/bin/python3 -c 'import sys; sys.path.insert(0, "pyvc"); import z3, prove; print("ok")' && test -f /usr/share/java/jython.jar
