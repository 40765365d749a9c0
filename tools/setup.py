#!/usr/bin/env python3
"""Builds every harness once (a check rebuilds whatever is out of date)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import jobs as J  # noqa: E402
for k, v in J.SETS.items():
    print(k, B.build(k, **v))
