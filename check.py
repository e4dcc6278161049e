#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(5000)
import pbt

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier')
ap.add_argument('--seed')
ap.add_argument('--replay')
a = ap.parse_args()
sys.exit(pbt.main(a.property, a.property.lower(), a.tier, a.seed, a.replay))
