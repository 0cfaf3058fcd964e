#!/opt/veriftools/pyvenv/bin/python3
"""usage: python3-vt run.py ID [--tier quick|thorough] [--replay FILE] [--cases N] [--shards N]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--shards', type=int)
    a = ap.parse_args()
    from kv import driver
    if a.replay:
        return driver.replay(a.id, a.replay)
    return driver.check(a.id, a.tier, a.seed, a.shards, a.cases)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
