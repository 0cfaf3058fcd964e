"""Type specs (JSON) -> katcp types, domains and reference semantics.  Used by K01/K02/K03."""
import re
import struct as _struct
from decimal import Decimal

TEXT_CATS = ['Cs']


# ------------------------------------------------------------------ CPython side
def specs():
    from hypothesis import strategies as st
    from kv import gens
    i = st.integers(-50, 50)
    bounds = st.one_of(st.just({}), i.map(lambda a: {'min': a}), i.map(lambda a: {'max': a}),
                       st.tuples(i, st.integers(0, 40)).map(lambda t: {'min': t[0], 'max': t[0] + t[1]}))
    fb = st.one_of(st.just({}), st.floats(-1e6, 1e6).map(lambda a: {'min': a}), st.floats(-1e6, 1e6).map(lambda a: {'max': a}),
                   st.tuples(st.integers(-50, 50), st.integers(0, 40)).map(lambda t: {'min': float(t[0]), 'max': float(t[0] + t[1])}))
    choices = st.lists(st.text(st.sampled_from('abAB-c0 \xe9'), min_size=1, max_size=4), min_size=1, max_size=4, unique=True)
    mchoices = st.lists(st.text(st.sampled_from('abABc0-'), min_size=1, max_size=3).filter(lambda s: s.lower() != 'all'),
                        min_size=1, max_size=4, unique_by=lambda s: s.lower())
    regexes = st.sampled_from(['a+b*$', '^[0-9]{2,3}$', 'x', '(foo|bar)\\.?baz', '\\d+', '(?i)abc$', ''])
    fmts = st.sampled_from(['>B', '<hH', '>iI', '>3s', '<qQ', '>d', 'f', '>?', '<2bH'])
    d = lambda k, s: s.map(lambda x: dict(x, k=k))
    return gens.weighted(
        (2, d('int', bounds)), (2, d('float', fb)), (1, st.just({'k': 'bool'})), (1, st.just({'k': 'str'})),
        (2, st.tuples(choices, st.booleans()).map(lambda t: {'k': 'discrete', 'values': t[0], 'ci': t[1]})),
        (1, st.just({'k': 'lru'})), (2, st.just({'k': 'address'})), (2, st.just({'k': 'timestamp'})),
        (1, st.just({'k': 'ts_or_now'})), (2, st.just({'k': 'strict'})),
        (1, fmts.map(lambda f: {'k': 'struct', 'fmt': f})),
        (2, st.tuples(regexes, st.sampled_from([None, 0, re.I, re.X, re.S | re.I])).map(
            lambda t: {'k': 'regex', 're': t[0], 'fl': None if t[1] is None else int(t[1])})),
        (2, st.tuples(mchoices, st.booleans(), st.sampled_from([',', '|']), st.sampled_from(['all', 'all', '', 'x'])).map(
            lambda t: {'k': 'multi', 'values': [v for v in t[0] if v.lower() != t[3]] or ['zy'], 'ci': t[1], 'sep': t[2], 'all': t[3]})))


def values(spec):
    """Values of the Python type the kattype handles: inside and around its domain (JSON form)."""
    from hypothesis import strategies as st
    from kv import gens
    k = spec['k']
    text = st.text(st.characters(exclude_categories=['Cs']), max_size=6)
    if k == 'int':
        near = [b + o for b in (spec.get('min', 0), spec.get('max', 0)) for o in (-1, 0, 1)]
        return st.one_of(st.sampled_from(near), st.integers(-60, 100), st.integers())
    if k == 'float':
        near = [b + o for b in (spec.get('min', 0.0), spec.get('max', 0.0)) for o in (-1e-3, 0.0, 1e-3)]
        lo, hi = spec.get('min', -1e9), spec.get('max', 1e9)
        inside = st.floats(lo, max(lo, hi)) if lo <= hi else st.just(lo)
        return st.one_of(st.sampled_from(near), inside, inside, st.floats(allow_nan=False), st.integers(-60, 100))
    if k == 'bool':
        return st.booleans()
    if k == 'str':
        return text
    if k == 'discrete':
        return st.one_of(st.sampled_from(spec['values']), st.sampled_from(spec['values']).map(str.swapcase), text)
    if k == 'lru':
        return st.one_of(st.integers(0, 1), st.integers(-2, 4), st.sampled_from([0.5, 'nominal', '']))
    if k == 'address':
        v4 = st.one_of(st.sampled_from(['0.0.0.0', '127.0.0.1', 'localhost', 'a-b.c', '']),
                       st.text(st.sampled_from('0123456789.abz-_'), max_size=8))
        v6 = st.one_of(st.sampled_from(['::1', '::', 'fe80::1%eth0', '1:2:3:4:5:6:7:8', 'a:b']),
                       st.text(st.sampled_from('0123456789:abf'), max_size=8).map(lambda s: s + ':'))
        port = st.one_of(st.none(), st.integers(0, 65535), st.sampled_from([0, 1, 65535]))
        return st.tuples(st.one_of(v4, v6), port).map(list)
    if k in ('timestamp', 'ts_or_now'):
        ts = st.one_of(st.integers(0, 2 * 10 ** 12).map(lambda ms: ms / 1000.), st.floats(-1e10, 1e10),
                       st.integers(0, 5000).map(lambda ms: ms * 0.001))
        return st.one_of(ts, st.just('NOW')) if k == 'ts_or_now' else ts
    if k == 'strict':
        return st.one_of(st.floats(0, 1e10), st.floats(0, 1e25), st.integers(0, 10 ** 11), st.floats(-10, 0), st.just(1e-7))
    if k == 'struct':
        f = spec['fmt']
        small = st.one_of(st.integers(-2, 2), st.sampled_from([-128, 127, 128, 255, 256, 32767, 65535, 65536, -32769, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]))
        if 's' in f:
            return st.lists(gens.bytestr(5).map(lambda s: ['b', s]), min_size=1, max_size=1)
        if 'd' in f or f == 'f':
            return st.lists(st.floats(allow_nan=False, width=32), min_size=1, max_size=1)
        if '?' in f:
            return st.lists(st.booleans(), min_size=1, max_size=1)
        n = 3 if '2b' in f else 2 if len(f) > 2 else 1
        return st.lists(small, min_size=max(0, n - 1), max_size=n + 1)
    if k == 'regex':
        return st.one_of(st.sampled_from(['aab', '12', '123', 'x', 'foobaz', 'bar.baz', '5', 'abc', 'ABC', 'xab', '1234', '']), text)
    if k == 'multi':
        return st.lists(st.one_of(st.sampled_from(spec['values']), st.sampled_from(spec['values']).map(str.swapcase),
                                  st.sampled_from(['zz', 'q'])), min_size=1, max_size=4).flatmap(
            lambda l: st.sampled_from([l, l, l, spec['values'] * 4 + l]))
    raise KeyError(k)


def texts(spec):
    """Wire texts (latin-1 JSON form), valid and not."""
    from hypothesis import strategies as st
    from kv import gens
    k = spec['k']
    any_ = gens.bytestr(8)
    num = st.one_of(st.integers(-60, 100).map(str), st.integers().map(str),
                    st.floats().map(repr), st.sampled_from(['', '-', '+', '.', '1.', '.5', '1e5', '0x10', '1,5', '--1', '1 2',
                                                            'nan', 'inf', '1.5.2', '1.-5', '-0.5', '-1', '007', '1e400', 'now', 'NOW']),
                    st.integers(0, 10 ** 13).map(lambda v: '%d.%03d' % (v // 1000, v % 1000)))
    u8 = lambda s: s.encode('utf-8').decode('latin-1')
    if k in ('int', 'float', 'timestamp', 'ts_or_now', 'strict'):
        return gens.weighted((4, num), (1, any_))
    if k == 'bool':
        return st.one_of(st.sampled_from(['0', '1', '2', '', '00', 'true', 'True', '1 ']), any_)
    if k == 'str':
        return st.one_of(any_, st.text(st.characters(exclude_categories=['Cs']), max_size=5).map(u8))
    if k in ('discrete', 'regex'):
        vals = spec.get('values') or ['aab', '12', '123', 'x', 'foobaz', '5', 'abc']
        return st.one_of(st.sampled_from(vals).map(u8), st.sampled_from(vals).map(str.swapcase).map(u8),
                         st.sampled_from(vals).map(lambda s: u8(s) + 'z'), any_)
    if k == 'lru':
        return st.one_of(st.sampled_from(['nominal', 'error', 'Nominal', 'nominal ', '0', '1', '']), any_)
    if k == 'address':
        host = st.one_of(st.sampled_from(['0.0.0.0', 'localhost', '', 'a:b', '[::1]', '[]', '[a', 'a]', '[x]y', '[[::1]', '[::1]]']),
                         st.text(st.sampled_from('[]:.a1'), max_size=6))
        port = st.one_of(st.just(''), st.integers(0, 70000).map(lambda p: ':%d' % p), st.sampled_from([':', ':x', ':-1', ':1:2', ': 1']))
        return gens.weighted((5, st.tuples(host, port).map(''.join)), (1, any_))
    if k == 'struct':
        n = _struct.calcsize(spec['fmt'])
        return st.one_of(st.text(st.characters(max_codepoint=255), min_size=n, max_size=n),
                         st.text(st.characters(max_codepoint=255), max_size=n + 2))
    if k == 'multi':
        item = st.one_of(st.sampled_from(spec['values']), st.sampled_from(spec['values']).map(str.swapcase),
                         st.sampled_from(spec['values']).map(lambda s: ' ' + s + ' '), st.sampled_from(['zz', '', 'all']))
        kw = spec.get('all', 'all')
        return st.one_of(st.lists(item, min_size=1, max_size=3).map(lambda l: spec['sep'].join(l)), st.sampled_from([kw, kw.upper(), 'all', 'ALL']), any_)
    raise KeyError(k)


# ------------------------------------------------------------------ worker side
def to_py(spec, v):
    from katcp import kattypes
    k = spec['k']
    if v is None:
        return None
    if k == 'address':
        return tuple(v)
    if k == 'ts_or_now' and v == 'NOW':
        return kattypes.TimestampOrNow.NOW
    if k == 'struct':
        return tuple(x[1].encode('latin-1') if isinstance(x, list) else x for x in v)
    return v


def build(spec, **kw):
    from katcp import kattypes as kt
    k = spec['k']
    if k == 'int':
        return kt.Int(min=spec.get('min'), max=spec.get('max'), **kw)
    if k == 'float':
        return kt.Float(min=spec.get('min'), max=spec.get('max'), **kw)
    if k == 'discrete':
        return kt.Discrete(tuple(spec['values']), case_insensitive=spec['ci'], **kw)
    if k == 'multi':
        return kt.DiscreteMulti(spec['values'], separator=spec['sep'], case_insensitive=spec['ci'], all_keyword=spec.get('all', 'all'), **kw)
    if k == 'struct':
        return kt.Struct(spec['fmt'], **kw)
    if k == 'regex':
        return kt.Regex(spec['re'] if spec.get('fl') is None else re.compile(spec['re'], spec['fl']), **kw)
    return {'bool': kt.Bool, 'str': kt.Str, 'lru': kt.Lru, 'address': kt.Address, 'timestamp': kt.Timestamp,
            'ts_or_now': kt.TimestampOrNow, 'strict': kt.StrictTimestamp}[k](**kw)


def in_domain(spec, v, major):
    """Is Python value v in the declared domain?  None = not specified (either outcome)."""
    k = spec['k']
    if k in ('int', 'float'):
        return not (('min' in spec and v < spec['min']) or ('max' in spec and v > spec['max']))
    if k == 'discrete':
        return v.lower() in [x.lower() for x in spec['values']] if spec['ci'] else v in spec['values']
    if k == 'multi':
        return all((x.lower() in [y.lower() for y in spec['values']]) if spec['ci'] else x in spec['values'] for x in v)
    if k == 'lru':
        return v in (0, 1)
    if k == 'strict':
        return not v < 0
    if k == 'regex':
        return re.match(spec['re'], v, spec.get('fl') or 0) is not None
    if k == 'struct':
        try:
            _struct.pack(spec['fmt'], *v)
            return True
        except (_struct.error, ValueError, OverflowError):
            return False
    return True


GREY = object()


def ref_decode(spec, data, major):
    """Reference decoding of wire text: a value, ValueError, or GREY where Python's number
    syntax is laxer than the protocol's and either outcome is tolerated."""
    k = spec['k']
    from katcp import kattypes

    def number(conv, strict):
        try:
            v = conv(data)
        except ValueError:
            raise ValueError()
        if not strict.fullmatch(data):
            return GREY, v
        return None, v
    if k == 'int':
        return number(int, re.compile(br'-?[0-9]+'))
    if k == 'float':
        return number(float, re.compile(br'-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?'))
    if k in ('timestamp', 'ts_or_now'):
        if k == 'ts_or_now' and data == b'now':
            return None, kattypes.TimestampOrNow.NOW
        g, v = number(float, re.compile(br'-?[0-9]+(\.[0-9]+)?'))
        return g, v if major >= 5 else v / 1000.
    if k == 'strict':
        g, v = number(float, re.compile(br'-?[0-9]+(\.[0-9]+)?'))
        if g is GREY:
            if not re.fullmatch(br'[\s+_0-9.-]*', data):
                raise ValueError()
        return g, v
    if k == 'bool':
        if data not in (b'0', b'1'):
            raise ValueError()
        return None, data == b'1'
    if k in ('str', 'discrete', 'regex'):
        return None, data.decode('utf-8')
    if k == 'lru':
        return None, {b'nominal': 0, b'error': 1}.get(data, 99)
    if k == 'address':
        m = re.fullmatch(br'\[([^\[]*)\](?::([0-9]+))?', data, re.S) if data.startswith(b'[') else \
            re.fullmatch(br'([^:]*)(?::([0-9]+))?', data, re.S)
        if data.endswith(b'\n'):
            return GREY, None
        if not m:
            raise ValueError()
        return None, (m.group(1).decode('ascii'), int(m.group(2)) if m.group(2) is not None else None)
    if k == 'struct':
        try:
            return None, _struct.unpack(spec['fmt'], data)
        except _struct.error:
            raise ValueError()
    if k == 'multi':
        s = data.decode('utf-8')
        if s and s == spec.get('all', 'all'):
            return None, sorted(spec['values'], key=str.lower)
        return None, sorted([x.strip() for x in s.split(spec['sep'])], key=str.lower)
    raise KeyError(k)


def same(spec, got, want, major):
    """Equality up to the precision of the protocol version."""
    k = spec['k']
    if k in ('timestamp', 'ts_or_now') and isinstance(want, float):
        if want != want:
            return got != got
        if want in (float('inf'), float('-inf')):
            return got == want
        return abs(got - want) <= max(1e-9, abs(want) * 2.0 ** -50)
    if k in ('float', 'strict', 'struct'):
        if isinstance(want, tuple):
            return isinstance(got, tuple) and len(got) == len(want) and all(
                a == b_ or (a != a and b_ != b_) for a, b_ in zip(got, want))
        return got == want or (got != got and want != want)
    if k == 'lru':
        return got == want
    return got == want and type(got) == type(want)
