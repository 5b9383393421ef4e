#!/bin/bash
# Nothing to install: checks that the compilers the simulators need are there.
set -e
command -v g++-11 >/dev/null || command -v g++ >/dev/null
command -v python3 >/dev/null
echo ok
