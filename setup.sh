#!/bin/bash
# builds the replay harness (every check rebuilds what it needs; this only shows that the toolchain works)
cd /verif && ./replay/build.sh && mkdir -p evidence
