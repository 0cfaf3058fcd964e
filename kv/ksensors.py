"""Sensor declarations and readings shared by the sensor, server and client checks."""
from kv import ktypes

TYPES = ['integer', 'float', 'boolean', 'lru', 'discrete', 'string', 'timestamp', 'address']
STATUSES = ['unknown', 'nominal', 'warn', 'error', 'failure', 'unreachable', 'inactive']


# ------------------------------------------------------------------ CPython side
def names():
    from hypothesis import strategies as st
    return st.one_of(st.sampled_from(['a', 'a.b', 'a.b.c', 'ab', 'a-b', 'a_b', 'b.a', 'abc.d-e', 'x1', 'A', 'a.bb', 'b']),
                     st.tuples(st.sampled_from('abcxyz'), st.text(st.sampled_from('abx09.-_'), max_size=6)).map(''.join))


def specs(types=None, name=None):
    from hypothesis import strategies as st
    from kv import gens
    text = st.one_of(st.sampled_from(['', 'x', 'a b', 'a\\b', '\n\t', '\xe9\u20ac', '100%', '{0}', '@']),
                     st.text(st.characters(exclude_categories=['Cs']), max_size=6))
    words = st.lists(st.text(st.sampled_from('abcABC-_0 \xe9'), min_size=1, max_size=4), min_size=1, max_size=4, unique=True)

    def mk(t):
        if t == 'integer':
            params = st.one_of(st.none(), st.tuples(st.integers(-50, 50), st.integers(0, 80)).map(lambda p: [p[0], p[0] + p[1]]))
        elif t == 'float':
            params = st.one_of(st.none(), st.tuples(st.floats(-1e6, 1e6), st.floats(0, 1e6)).map(lambda p: [p[0], p[0] + p[1]]))
        elif t == 'discrete':
            params = words
        else:
            params = st.none()
        return st.fixed_dictionaries({
            't': st.just(t), 'name': name if name is not None else names(),
            'desc': st.one_of(st.none(), text), 'units': st.just('') if t == 'timestamp' else text,
            'params': params, 'status': st.sampled_from([None] + STATUSES)})
    return st.sampled_from(types or TYPES).flatmap(mk)


def kspec(spec):
    t = spec['t']
    if t == 'discrete':
        return {'k': 'discrete', 'values': spec['params'], 'ci': False}
    return {'k': {'integer': 'int', 'float': 'float', 'boolean': 'bool', 'lru': 'lru', 'string': 'str', 'timestamp': 'timestamp',
                  'address': 'address'}[t]}


def values(spec, valid=True):
    """JSON values; all encodable by the sensor's type if valid."""
    from hypothesis import strategies as st
    t = spec['t']
    if t == 'integer':
        return st.one_of(st.integers(-60, 100), st.integers())
    if t == 'float':
        return st.one_of(st.floats(allow_nan=False), st.integers(-60, 60).map(float))
    if t == 'boolean':
        return st.booleans()
    if t == 'lru':
        return st.integers(0, 1)
    if t == 'discrete':
        return st.sampled_from(spec['params'])
    if t == 'string':
        return st.text(st.characters(exclude_categories=['Cs']), max_size=6)
    if t == 'timestamp':
        return st.integers(0, 2 * 10 ** 12).map(lambda ms: ms / 1000.)
    host = st.sampled_from(['0.0.0.0', '127.0.0.1', 'localhost', 'a-b.c', '::1', 'fe80::1'])
    return st.tuples(host, st.one_of(st.none(), st.integers(0, 65535))).map(list)


def stamps():
    from hypothesis import strategies as st
    return st.one_of(st.integers(0, 4 * 10 ** 9 * 1000).map(lambda ms: ms / 1000.), st.integers(0, 2 ** 21).map(float))


def texts(spec):
    from hypothesis import strategies as st
    return ktypes.texts(kspec(spec))


# ------------------------------------------------------------------ worker side
def py(spec, v):
    return tuple(v) if spec['t'] == 'address' else v


def status(name):
    return STATUSES.index(name)


def build(spec, cls=None):
    from katcp import Sensor
    cls = cls or Sensor
    kw = dict(name=spec['name'], description=spec['desc'])
    kw['unit'] = spec['units']
    if spec['params'] is not None:
        kw['params'] = list(spec['params'])
    if spec['status'] is not None:
        kw['initial_status'] = status(spec['status'])
    if 'default' in spec:
        kw['default'] = py(spec, spec['default'])
    return getattr(cls, spec['t'])(**kw)


def default_value(spec):
    if 'default' in spec:
        return py(spec, spec['default'])
    if spec['t'] in ('integer', 'float') and spec['params'] is not None:
        z = 0 if spec['t'] == 'integer' else 0.0
        return z if spec['params'][0] <= z <= spec['params'][1] else spec['params'][0]
    return {'integer': 0, 'float': 0.0, 'boolean': False, 'lru': 0, 'string': '', 'timestamp': 0.0,
            'address': ('0.0.0.0', None)}[spec['t']] if spec['t'] != 'discrete' else spec['params'][0]


def description(spec):
    if spec['desc'] is not None:
        return spec['desc']
    return '%s sensor %r %s' % (spec['t'].capitalize(), spec['name'], 'in unit ' + spec['units'] if spec['units'] else 'with no unit')


def decodes(spec, data, value, major):
    """Does wire text data denote value (to the protocol's precision)?"""
    ks = kspec(spec)
    try:
        g, v = ktypes.ref_decode(ks, data, major)
    except ValueError:
        return False
    if ks['k'] == 'timestamp':
        return g is None and abs(v - value) <= (0.5000001e-6 if major >= 5 else 0.5000001e-3)
    return ktypes.same(ks, v, py(spec, value), major) and (g is None or ks['k'] == 'float')


def stamp_ok(data, ts, major):
    import re
    if not re.fullmatch(rb'-?[0-9]+(\.[0-9]+)?' if major >= 5 else rb'-?[0-9]+', data):
        return False
    v = float(data) if major >= 5 else float(data) / 1000.
    return abs(v - ts) <= (0.51e-6 if major >= 5 else 0.51e-3)


def valid_text(spec, data, major):
    """True/False/None (unspecified): is data an encoding of some value of the sensor's type?"""
    ks = kspec(spec)
    try:
        g, v = ktypes.ref_decode(ks, data, major)
    except ValueError:
        return False
    if ks['k'] == 'lru':
        return v in (0, 1)
    if ks['k'] == 'discrete' and v not in spec['params']:
        return False
    return True if g is None else None
