#!/bin/bash
# Builds the monitors once (the checks rebuild what changed).
cd "$(dirname "$0")" || exit 1
mkdir -p target evidence
. ./build.sh setup
