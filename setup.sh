#!/bin/bash
# setup.sh: builds the simulator, with and without the race detector.
V=$(cd "$(dirname "$0")" && pwd)
"$V/build.sh" && "$V/build.sh" race
