#!/bin/bash
# builds the library once in every configuration (the checks do it again from /repo's current tree)
cd "$(dirname "$0")" || exit 1
for f in full nodyn min hex dyn all minstd hexstd dynstd allstd rel relfull; do
  python3 buildlib.py $f > /dev/null || echo "$f does not build (the checks will say so)"
done
