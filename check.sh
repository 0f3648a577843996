#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" && exec python3 -B check.py "$1" "$2"
