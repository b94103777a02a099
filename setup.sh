#!/bin/bash
# builds the MIR dump driver from its committed source
set -e
cd "$(dirname "$0")"
python3 sa/build.py
