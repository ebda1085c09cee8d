#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property."""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True

import core          # noqa: E402
import propdefs      # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    d = propdefs.PROPS[a.property]

    def rule(name):
        mod, fn = name.rsplit('.', 1)
        return getattr(importlib.import_module('rules.' + mod), fn)
    uses = [(rule(r), p) for r, p in propdefs.USES.get(a.property, ())]
    return core.run(a.property, rule(d['rule']), d['title'], uses, a.tier)


if __name__ == '__main__':
    sys.exit(main())
