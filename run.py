#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from va import rig
sys.exit(rig.main(sys.argv[1:]))
