"""Shared by property modules on the worker side: verdicts and exception attribution."""
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, sig, msg=''):
        Exception.__init__(self, sig, msg)
        self.sig, self.msg = sig, msg


class Discard(Exception):
    """The case is outside the property's domain (counted, not a verdict)."""


class Ctx(object):
    def __init__(self):
        self.tags = set()
        self.nontrivial = False
        self.info = []

    def tag(self, *names):
        self.tags.update(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def check(cond, sig, msg=''):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)


def equal(got, want, sig, msg=''):
    if got != want:
        raise Violation(sig, '%s got=%r want=%r' % (msg() if callable(msg) else msg, got, want))


def blame(tb):
    """'repo' when the innermost frame that is ours or katcp's is katcp's."""
    last = None
    for fs in traceback.extract_tb(tb):
        fn = fs.filename
        if fn.startswith(REPO + '/katcp'):
            last = 'repo'
        elif fn.startswith(ROOT + '/kv'):
            last = 'kv'
    return last


def b(s):
    """JSON text (one char per byte) -> bytes."""
    return s.encode('latin-1')


def u(x):
    return x.decode('latin-1')


def execute(mod, case):
    out = _execute(mod, case)
    if not out['ok'] and 'Errno 98' in out.get('msg', '') or 'Errno 98' in out.get('harness', ''):
        # a TCP port taken by another process; if it is the code that keeps its port it will do so again
        import time
        time.sleep(0.3)
        out = _execute(mod, case)
        if 'harness' in out and 'Errno 98' in out['harness']:
            out = {'ok': False, 'sig': 'port-not-released', 'msg': out['harness'], 'tags': out['tags'], 'nontrivial': out['nontrivial']}
    return out


def _execute(mod, case):
    from kv import vnet
    ctx = Ctx()
    out = {'ok': True}
    try:
        mod.run(case, ctx)
    except Violation as v:
        out = {'ok': False, 'sig': v.sig, 'msg': str(v.msg)[:4000]}
    except Discard as d:
        out = {'ok': True, 'discard': str(d)}
    except vnet.Stuck as e:
        out = {'ok': False, 'sig': 'stuck', 'msg': str(e)}
    except Exception:
        et, ev, tb = sys.exc_info()
        text = ''.join(traceback.format_exception(et, ev, tb))[-4000:]
        if blame(tb) == 'repo':
            out = {'ok': False, 'sig': 'unexpected-%s' % et.__name__, 'msg': text}
        elif issubclass(et, (OSError, MemoryError, ImportError, SyntaxError)):
            out = {'harness': text, 'ok': False}
        else:
            # what the code returned is not of the kind the check can even compare
            out = {'ok': False, 'sig': 'unusable-result-%s' % et.__name__, 'msg': text}
    out['tags'] = sorted(ctx.tags)
    out['nontrivial'] = ctx.nontrivial
    return out
