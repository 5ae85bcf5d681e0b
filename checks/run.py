#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import props
import common

if __name__ == "__main__":
    common.main(props.TABLE)
