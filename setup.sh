#!/bin/bash
# Warms the build cache; every check rebuilds from /repo by itself.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
bash "$here/run.sh" list >/dev/null && bash "$here/run.sh" list C30 >/dev/null
