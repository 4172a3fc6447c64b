#!/bin/sh
# builds all drivers
cd "$(dirname "$0")" && exec python3 -c "
from common import *
for n in DRIVERS: print(build(n))
"
