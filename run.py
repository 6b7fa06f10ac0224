#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--only SUB[,SUB]] [--scale X] [--seed N]"""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--replay')
ap.add_argument('--only')
ap.add_argument('--scale', type=float, default=float(os.environ.get('VX_SCALE', '1')))
a = ap.parse_args()
sys.setrecursionlimit(20000)
m = importlib.import_module('checks.' + a.prop.lower())
sys.exit(m.CHECK.main(a.tier, a.seed, a.replay, a.only.split(',') if a.only else None, a.scale))
