#!/usr/bin/env python
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from qmon.driver import main
sys.exit(main())
