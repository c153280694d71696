#!/bin/bash
# Checks build what they need themselves, since every one runs in a fresh copy.
set -e
cargo kani --version
python3 --version
