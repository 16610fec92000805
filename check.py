#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import framework  # noqa: E402
sys.exit(framework.main(sys.argv))
