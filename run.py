#!/opt/venv/bin/python
"""./run.py <property id> [quick|thorough]   or   ./run.py replay <file>"""
import os
import sys
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import runner
sys.exit(runner.main(sys.argv))
