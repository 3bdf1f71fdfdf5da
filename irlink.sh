#!/bin/bash
# stand-in linker: only the IR matters
while [ $# -gt 0 ]; do case "$1" in -o) : > "$2"; shift;; esac; shift; done
exit 0
