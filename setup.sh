#!/bin/bash
# compiles the arithmetic accelerator and compares it with its TLA+ definition
cd "$(dirname "$0")" || exit 2
exec ./run selftest quick
