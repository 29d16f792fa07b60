#!/bin/bash
# Warm the private build cache (checks build by themselves if this was not run).
cd "$(dirname "$0")" && exec ./check --warm X
