#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property on /repo's current tree."""
import sys, os, time, json, importlib, multiprocessing as mp, traceback, argparse, tempfile, shutil, subprocess
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from engine.runner import main
if __name__=='__main__': sys.exit(main(HERE))
