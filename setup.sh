#!/bin/bash
# Prebuilds the harness (offline); checks rebuild whatever differs in /repo.
cd "$(dirname "$0")" && python3 build.py asan
