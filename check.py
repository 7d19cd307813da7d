#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vc"))
import runner
if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
