#!/bin/bash
# builds the MIR driver and warms the build of the analysed crates' dependencies
cd "$(dirname "$0")" && exec python3 sa/build.py
