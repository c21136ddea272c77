#!/bin/bash
# Nothing has to be prepared: every check compiles itself against the current /repo. Only test that a compiler is there.
cd "$(dirname "$0")" && mkdir -p evidence replay && g++ --version > /dev/null
