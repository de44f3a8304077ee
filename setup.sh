#!/bin/bash
# builds the symbolic executor, the runtime model and the replay drivers into /verif/build
cd "$(dirname "$0")" && exec python3 check.py --setup
