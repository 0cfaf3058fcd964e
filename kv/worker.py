"""Executes cases against the real katcp code (runs under /opt/venv/bin/python = PyPy).

Protocol: one JSON object per line on stdin ({"case": ...}), one per line on the
original stdout ({"ok": bool, "tags": [...], "nontrivial": bool, "sig", "msg"} or
{"harness": traceback}).
"""
import importlib
import json
import logging
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)


def main():
    proto = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter('ignore')
    import resource
    # so that a case that eats memory fails instead of taking the sandbox along
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    root = logging.getLogger()
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.DEBUG)
    from kv import vnet, core
    vnet.install()
    mod = importlib.import_module('kv.props.' + sys.argv[1])
    proto.write(json.dumps({'ready': True}) + '\n')
    proto.flush()
    for line in sys.stdin:
        req = json.loads(line)
        proto.write(json.dumps(core.execute(mod, req['case'])) + '\n')
        proto.flush()


if __name__ == '__main__':
    try:
        main()
    except (KeyboardInterrupt, BrokenPipeError):
        pass
    os._exit(0)
