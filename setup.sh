#!/bin/bash
# builds the TLC operator overrides; everything else is built by the checks from /repo
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'lib')
import vlib; print(vlib.java_classes())"
