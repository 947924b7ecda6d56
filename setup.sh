#!/bin/bash
# Builds the exploration engine from the committed files.
cd "$(dirname "$0")" || exit 1
. ./engine.sh
