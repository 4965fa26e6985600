#!/bin/bash
# builds the framework's own tools (the AST fact extractor) from the committed files
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
[ -f engine/astx/Makefile ] && make -s -C engine/astx
exit 0
