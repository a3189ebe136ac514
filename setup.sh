#!/bin/bash
# Builds all monitors once, which also fills the build cache.
cd "$(dirname "$0")" && ./build.sh plain "$PWD/build" && ./build.sh race "$PWD/build" && ./build.sh fake "$PWD/build" && ./build.sh internal "$PWD/build"
