#!/bin/bash
# builds the MIR driver and extracts the program representation once
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0, '.')
from sa import base
print(base.extract())"
