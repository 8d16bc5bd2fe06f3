#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from rsa import report  # noqa: E402
from checks import registry  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = registry.CHECKS[pid]
    sys.exit(report.main(pid, c.title, c.run, tier, seed, c.technique, c.level))


main()
