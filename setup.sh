#!/bin/bash
# Builds the harness once, offline, so that later checks only rebuild diffy and what depends on it.
cd "$(dirname "$0")" && exec ./check.sh build
