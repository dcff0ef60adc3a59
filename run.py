import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
if __name__ == '__main__':
    core.main()
