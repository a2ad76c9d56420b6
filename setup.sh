#!/bin/bash
# builds the SSA extractor (offline) and warms the Go build cache for the replay programs
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python -c '
import sys; sys.path.insert(0, "gvc"); import driver; print(driver.build_extractor())'
