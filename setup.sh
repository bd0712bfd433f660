#!/bin/bash
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" os || exit 2
if [ -d "$V/simth" ]; then bash "$V/build.sh" th || exit 2; fi
