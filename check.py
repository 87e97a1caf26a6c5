"""python3 check.py <property> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.check import main  # noqa: E402

main()
