#!/usr/bin/env python3
"""run.py <property> [quick|thorough]"""
import os, sys, glob, importlib
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, 'sa')]
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)
import check


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    for f in sorted(glob.glob(os.path.join(H, 'checks', '*.py'))):
        importlib.import_module('checks.' + os.path.basename(f)[:-3])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc[0] = check.run_property(prop, tier, seed)


rc = [2]
t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
