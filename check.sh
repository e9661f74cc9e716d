#!/bin/bash
cd "$(dirname "$0")" && exec python3-vt mirv/main.py "$1" "$2"
