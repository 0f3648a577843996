#!/bin/bash
# Builds both variants of the simulator once; each check rebuilds what changed.
cd "$(dirname "$0")" && python3 -B build.py asan sched
