#!/bin/sh
# builds the MIR dump driver and warms the dependency cache
cd "$(dirname "$0")" && exec python3 engine/prep.py
