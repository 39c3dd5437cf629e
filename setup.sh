#!/bin/bash
# Prepares the framework: compiles the TLC operator overrides and warms the driver builds.
cd "$(dirname "$0")" || exit 1
exec python3 -c '
from vk import tlc,build
tlc.classes()
for v in build.VARIANTS:
    try: build.build(v)
    except build.BuildError as x: print(x)
print("ready")'
