#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough] : decide one property of /repo's current source."""
import sys, os, json, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import runner
sys.exit(runner.main(sys.argv[1:]))
