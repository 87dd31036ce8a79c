#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on the current tree of /repo (see DESIGN.md)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import registry  # noqa: E402

if __name__ == '__main__':
    sys.exit(registry.main(sys.argv[1:]))
