#!/bin/bash
# Builds everything once, so that the checks find a warm build cache.
cd "$(dirname "$0")" && exec ./check.sh build
