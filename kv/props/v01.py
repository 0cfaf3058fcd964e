"""V01: what katcp.testutils asserts or waits for passes exactly when it holds."""
ID = 'V01'
CASES = {'quick': 14000, 'thorough': 400000}
RULE = ('a case counts when the stated expectation depends on more than one item (several sensors, messages, requests, arguments or '
        'values), or on a value reached only after a change, or on options that take precedence over each other')

TEXTS = {'str': ['', 'a', 'b', '100%', '%r', '%d', '%%', 'x y', '\u00e9', '5'], 'int': ['-5', '0', '5', '12', 'x', '5.5', ''],
         'float': ['1.5', '-2', '0', '1e3', '100', 'x', ''], 'bool': ['0', '1', '2', 'x', '']}
NAMES = ['a.s', 'b', 'p%d']
STATUS = ['nominal', 'warn', 'error', 'unknown', 'failure', 'unreachable', 'inactive']
MSGS = [None, 'got %r', 'plain', '50% of %r', 'at 100%', '%s %d']
DEFAULTS = ['help', 'halt', 'watchdog', 'sensor-list', 'client-list']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    sf, samp, i = st.fixed_dictionaries, st.sampled_from, st.integers
    typ = samp(['str', 'str', 'int', 'float', 'bool'])
    sens = typ.flatmap(lambda t: st.tuples(st.just(t), samp(TEXTS[t]), samp(STATUS)))
    fault = gens.weighted((8, st.just('')), (1, samp(['fail', 'failbare', 'none', 'two', 'short', 'long', 'badstatus', 'badts'])))
    # offset of the expected value: 0 is the value itself
    off = gens.weighted((3, st.just(0)), (1, samp([0.3, -0.2, 2, -3, 20])))
    want = st.tuples(i(0, 2), off, samp([None, None, 0, 1, 3, 5]))
    one = sf({'mode': st.just('one'), 's': sens, 'name': samp(NAMES), 'fault': fault, 'op': samp(['get', 'equals', 'equals', 'not', 'status', 'parts']),
              'off': off, 'places': samp([None, 0, 1, 3, 6]), 'msg': samp(MSGS), 'status': samp([None, None] + STATUS), 'statsame': st.booleans()})
    fsens = st.tuples(st.just('float'), samp(['1.5', '-2', '100']), samp(STATUS))
    many = sf({'mode': st.just('many'), 's': st.lists(st.one_of(sens, fsens), min_size=3, max_size=3), 'want': st.lists(want, min_size=0, max_size=3),
               'neg': st.booleans(), 'msg': samp(MSGS)})
    line = st.lists(i(0, 2), min_size=5, max_size=5)
    wait = sf({'mode': st.just('wait'), 'op': samp(['one', 'many', 'cond']), 'lines': st.lists(line, min_size=1, max_size=3),
               'timeout': i(0, 4), 'period': samp([None, None, 0.1, 0.05]), 'type': samp(['str', 'int', 'float']), 'k': i(0, 2), 'msg': samp(MSGS)})
    word = samp(['a', 'b', 'b c', '', '%'])
    fl = samp(['-10', '-10.0', '1e1', '10', '0.5', '10.0'])
    row = st.tuples(samp(['float', 'integer', 'discrete', 'float']), word, word, st.lists(fl, min_size=0, max_size=2))
    change = samp(['', '', '', 'drop', 'add', 'desc', 'unit', 'type', 'param', 'respell', 'order', 'bytes', 'descmore'])
    slist = sf({'mode': st.just('list'), 'rows': st.lists(row, max_size=4), 'change': change, 'at': i(0, 3), 'ignore': st.booleans(), 'fail': samp([0, 0, 0, 0, 0, 1])})
    helps = sf({'mode': st.just('help'), 'rows': st.lists(st.tuples(word, word), max_size=4), 'defaults': st.lists(samp(DEFAULTS), max_size=2, unique=True),
                'form': samp(['names', 'first', 'all', 'full']), 'change': samp(['', '', '', 'drop', 'add', 'desc', 'descmore', 'order', 'default']), 'at': i(0, 3),
                'full': st.booleans(), 'exclude': samp([None, True, False]), 'fail': samp([0, 0, 0, 0, 0, 1])})
    arg = samp(['a', 'b', '1', '', '\u00e9', 'x y', '%s', '1.5'])
    args = st.lists(arg, max_size=3)
    cmpw = samp(['same', 'same', 'other', 'more', 'none', 'none'])
    req = sf({'mode': st.just('req'), 'params': st.lists(st.one_of(arg, i(-3, 3), samp([1.5, 1e20, True, False])), max_size=3),
              'status': samp(['ok', 'ok', 'ok', 'fail', 'invalid', 'OK']), 'args': st.one_of(st.just('echo'), args), 'name': samp([0, 0, 0, 0, 0, 0, 1]),
              'informs': st.lists(args, max_size=3), 'op': samp(['ok', 'ok', 'fail']), 'echo': samp([None, False, True]),
              'equal': cmpw, 'in': samp(['none', 'none', 'has', 'hasnot', 'empty']), 'length': samp([None, None, 0, 1]), 'count': samp([None, None, 0, 1, -1]), 'iargs': st.one_of(cmpw, st.just('rev')),
              'seq': samp(['none', 'none', 'same', 'other', 'part']), 'err': cmpw, 'other': args})
    setter = sf({'mode': st.just('setter'), 'type': samp(['int', 'float', 'bool', 'str']), 'good': st.one_of(st.lists(i(1, 3), min_size=1, max_size=1), st.lists(i(0, 5), max_size=3)),
                 'bad': st.one_of(st.just([]), st.lists(i(6, 9), max_size=2), st.lists(i(0, 9), max_size=2)), 'limit': samp([9, 9, 5, 5, 5, 3]), 'floor': samp([-1, -1, -1, 6]), 'echo': st.booleans(), 'noecho': samp([0, 0, 0, 1]),
                 'clamp': samp([0, 0, 0, 1]), 'multi': st.booleans(), 'when': samp([(0, None, 0), (0, None, 0), (0.5, None, 0), (0.5, 0.5, 0.8), (0.5, 0.5, 0.8), (0, 0.5, 0.4), (1, None, 0.8),
                                                          (0, None, 0.4), (0.5, None, 0.8), (0.5, 0.5, 0.4)]),
                 'statuses': st.lists(st.tuples(i(0, 1), samp(['nominal', 'nominal', 'nominal', 'warn'])), max_size=2)})
    rname = samp(['a', 'b', 'c-d', 'ab'])
    rec = sf({'white': st.lists(rname, max_size=2), 'black': st.lists(rname, max_size=2), 'regex': samp([None, None, '#a', '.*x', '[#!]b', 'a']),
              'informs': samp([True, True, False]), 'replies': st.booleans(), 'direct': st.booleans()})
    rop = gens.weighted((6, st.tuples(st.just('msg'), samp('#!'), rname, st.lists(samp(['x', 'y', 'a']), max_size=2))),
                        (2, st.tuples(st.just('get'), i(0, 2), i(0, 3), samp(['get', 'call', 'wait']), samp([0, 0, None]))),
                        (1, st.tuples(st.just('late'), i(0, 2), i(1, 3), samp([20, None]))))
    recorder = sf({'mode': st.just('recorder'), 'recs': st.lists(rec, min_size=1, max_size=3), 'ops': st.lists(rop, min_size=1, max_size=12)})
    test = st.one_of(i(0, 3).map(lambda v: ['=', v]), st.tuples(samp(['<', '>=', 'any', 'never', '==']), i(0, 3)))
    two = ['nominal', 'unknown']
    upd = st.tuples(i(0, 3), samp(two))
    waiter = sf({'mode': st.just('waiter'), 'tests': st.lists(test, max_size=5), 'init': upd, 'ups': st.lists(upd, max_size=8), 'status': st.booleans(),
                 'tstat': samp(two), 'pre': st.integers(0, 8), 'late': samp([0, 0, 0, 1]), 'op': samp(['wait', 'wait', 'values', 'sensor', 'async', 'async', 'follow']),
                 'timeout': samp([0, 0.004, None]), 'stop': st.booleans(), 'reset': st.booleans(), 'k': i(0, 3), 'kstat': samp([None, None, None] + two)})
    mw = st.tuples(samp('?!#'), rname, st.lists(samp(['a', 'b', 'ab']), max_size=2))
    msgs = sf({'mode': st.just('msgs'), 'msgs': st.lists(mw, max_size=4), 'mid': samp([None, None, '1', '77']), 'wantmid': samp([0, 0, 1]), 'op': samp(['length', 'equal', 'match', 'like']),
               'change': samp(['', '', 'drop', 'add', 'alter', 'pre', 'suf', 'loose', 'inpre', 'insuf']), 'at': i(0, 3), 'cut': st.lists(st.tuples(i(0, 9), i(0, 9)), min_size=4, max_size=4)})
    cmps = sf({'mode': st.just('cmp'), 's': st.lists(st.tuples(i(0, 3), samp(STATUS[:3]), word, word, i(1, 3)), min_size=1, max_size=3),
               'change': samp(['', '', 'value', 'status', 'units', 'description', 'timestamp', 'params', 'name', 'drop', 'add', 'order', 'zero', 'zero']), 'at': i(0, 2),
               'keys': st.lists(samp(['value', 'status', 'units', 'description', 'timestamp', 'params', 'type']), max_size=5, unique=True),
               'op': samp(['equal', 'equal', 'descr', 'descrs', 'descrs', 'cond']), 'bare': st.booleans()})
    calls = sf({'mode': st.just('calls'), 'n': i(1, 4), 'ops': st.lists(samp(['call', 'call', 'call', 'raise', 'reset', 'wait', 'assert']), min_size=1, max_size=10),
                'own': st.booleans(), 'what': samp(['counting', 'mock', 'mock', 'queue', 'amock'])})
    mock = sf({'mode': st.just('mock'), 'req': samp(['echo', 'echo', 'fail', 'inform', 'raise', 'nope', 'watchdog', 'typed']), 'args': args, 'handled': st.booleans(), 'n': i(0, 3)})
    return gens.weighted((4, one), (2, many), (2, wait), (3, slist), (3, helps), (5, req), (4, setter), (3, recorder), (4, waiter), (2, msgs), (2, cmps), (2, calls), (1, mock))


# what the texts above mean to the types above (None: not a value of that type)
def conv(t, text):
    if t == 'str':
        return text
    if t == 'float':
        return {'x': None, '': None}.get(text, 0) if text in ('x', '') else float(text)
    v = int(text) if text.lstrip('-').isdigit() else None
    return v if t == 'int' or v is None else bool(v)


PY = {'str': str, 'int': int, 'float': float, 'bool': bool}


def other(t, v, off, places):
    """The expected value: v itself or one that differs by off (in units of the last place compared for floats)."""
    if v is None:
        v = {'str': 'q', 'int': 1, 'float': 1.0, 'bool': True}[t]
        return v, True
    if t == 'float':
        w = v + off * 10.0 ** -(7 if places is None else places)
        return w, abs(off) < 1
    if not off:
        return v, True
    return {'str': lambda: v + 'z', 'int': lambda: v + (1 if off > 0 else -1), 'bool': lambda: not v}[t](), False


def outcome(f, *a, **k):
    """('ok', result), or ('assert', text) when the assertion failed; anything else is the library's fault."""
    from kv.core import Violation
    try:
        return 'ok', f(*a, **k)
    except AssertionError as e:
        return 'assert', str(e)
    except Violation:
        raise
    except Exception as e:
        raise Violation('helper-raised', '%s%r raised %s: %s' % (getattr(f, '__name__', f), a, type(e).__name__, e))


def client(answer, port=1):
    """A BlockingTestClient whose requests are answered by answer(name, args) -> (reply name, args, [informs])."""
    import unittest
    from katcp import Message
    from katcp.testutils import BlockingTestClient
    from kv import harness as H

    class T(unittest.TestCase):
        def runTest(self):
            pass

    class C(BlockingTestClient):
        def blocking_request(self, msg, *a, **k):
            m = H.parse(bytes(msg))
            name, args, informs = answer(m.name, [x.decode('utf-8') for x in m.args])
            return Message.reply(name, *args), [Message.inform(m.name, *x) for x in informs]
    return C(T(), '127.0.0.1', port)


def sensor_answer(sensors, fault='', ts=12345.5):
    """Answers ?sensor-value; sensors: name -> (text, status), looked up at each request."""
    from kv.core import check

    def answer(name, args):
        check(name == 'sensor-value' and len(args) == 1, 'wrong-request', lambda: '%s %r' % (name, args))
        if args[0] not in sensors or fault == 'fail':
            return name, ['fail', 'Unknown sensor.'], []
        if fault == 'failbare':
            return name, ['fail'], []
        text, status = sensors[args[0]]
        row = [repr(ts), '1', args[0], 'wrong' if fault == 'badstatus' else status, text]
        if fault == 'badts':
            row[0] = 'soon'
        if fault == 'short':
            row.pop()
        if fault == 'long':
            row.append('x')
        rows = {'none': [], 'two': [row, row]}.get(fault, [row])
        return name, ['ok', str(len(rows))], rows
    return answer


def run(case, ctx):
    ctx.tag(case['mode'])
    return globals()['run_' + case['mode']](case, ctx)


def verdict(got, want, sig, what):
    from kv.core import check
    check((got[0] == 'ok') == want, sig, lambda: '%s: %s, expected to %s' % (what, got, 'pass' if want else 'fail'))


def run_one(case, ctx):
    from kv.core import check, equal
    t, text, status = case['s']
    name, places = case['name'], case['places']
    c = client(sensor_answer({name: (text, status)}, case['fault']))
    v = conv(t, text)
    readable = v is not None and not case['fault']
    exp, same = other(t, v, case['off'], places)
    kw = {} if places is None else {'places': places}
    if case['msg'] is not None:
        kw['msg'] = case['msg']
    op = case['op']
    ctx.nt(op != 'get' and (case['off'] or case['status'] or '%' in text + name))
    what = '%s %r of %s%s, expected %r %r' % (op, text, t, ' (%s)' % case['fault'] if case['fault'] else '', exp, kw)
    if op == 'get':
        got = outcome(c.get_sensor, name, PY[t])
        verdict(got, readable, 'get-sensor', what)
        if readable:
            equal(got[1], (v, status, 12345.5), 'get-sensor-value', what)
            equal(type(got[1][0]), PY[t], 'get-sensor-type', what)
    elif op == 'parts':
        got = outcome(c.get_sensor_value, name, PY[t])
        verdict(got, readable, 'get-sensor', what)
        if readable:
            equal(got[1], v, 'get-sensor-value', what)
        if not case['fault']:
            equal((c.get_sensor_status(name), c.get_sensor_timestamp(name)), (status, 12345.5), 'get-sensor-value', what)
        verdict(outcome(c.get_sensor_value, name + 'x', PY[t]), False, 'get-unknown-sensor', what)
    elif op == 'equals':
        ws = status if case['statsame'] and case['status'] else case['status']
        got = outcome(c.assert_sensor_equals, name, exp, PY[t], status=ws, **kw)
        verdict(got, readable and same and ws in (None, status), 'sensor-equals', what + ' status %r/%r' % (status, ws))
        if readable and not same and case['msg'] and '%r' in case['msg']:
            check(case['msg'].replace('%r', repr(v)) in got[1], 'custom-message', lambda: '%s: %r' % (what, got[1]))
    elif op == 'not':
        got = outcome(c.assert_sensor_not_equal, name, exp, PY[t], **kw)
        verdict(got, readable and not same, 'sensor-not-equal', what)
    else:
        ws = status if case['statsame'] else case['status'] or 'nominal'
        kw.pop('places', None)
        got = outcome(c.assert_sensor_status_equals, name, ws, **kw)
        verdict(got, not case['fault'] and ws == status, 'sensor-status-equals', what + ' status %r/%r' % (status, ws))


def run_many(case, ctx):
    sensors = dict((n, (s[1], s[2])) for n, s in zip(NAMES, case['s']))
    c = client(sensor_answer(sensors))
    tuples, good = [], True
    for i, off, places in case['want']:
        t, text, _ = case['s'][i]
        v = conv(t, text)
        exp, same = other(t, v, off, places)
        if v is None:
            good = False
        elif same == case['neg']:
            good = False
        tup = (NAMES[i], exp) if t == 'str' and places is None else (NAMES[i], exp, PY[t])
        tuples.append(tup if places is None else (NAMES[i], exp, PY[t], places))
    ctx.nt(len(tuples) > 1)
    f = c.assert_sensors_not_equal if case['neg'] else c.assert_sensors_equal
    verdict(outcome(f, tuples, msg=case['msg']), good, 'sensors-equal', '%r of %r' % (tuples, sensors))


class Slept(object):
    """Virtual time for a helper that polls and sleeps."""
    def __enter__(self):
        import time
        from kv.vnet import CLOCK, Clock
        self.old, self.steps = time.sleep, 0
        CLOCK.now, CLOCK.active = Clock.BASE, True
        time.sleep = self.sleep
        return self

    def sleep(self, dt):
        from kv.core import check
        from kv.vnet import CLOCK
        check(dt >= 0, 'negative-sleep')
        self.steps += 1
        check(self.steps < 20000, 'polls-too-often')
        CLOCK.now += dt

    def __exit__(self, *exc):
        import time
        from kv.vnet import CLOCK
        time.sleep = self.old
        CLOCK.active = False
        return False

    @property
    def now(self):
        from kv.vnet import CLOCK, Clock
        return CLOCK.now - Clock.BASE


def run_wait(case, ctx):
    """Values change at 0.5, 1.5, 2.5 and 3.5; the wait ends at a whole second."""
    from kv.core import check, equal
    lines, timeout, k, op = case['lines'], case['timeout'], case['k'], case['op']
    t = case['type'] if op != 'cond' else 'int'
    if op != 'many':
        lines = lines[:1]
    with Slept() as vt:
        def seg():
            return min(4, int(vt.now + 0.5))

        class Sensors(object):
            def __contains__(self, name):
                return True

            def __getitem__(self, name):
                vt.sleep(0.001)
                return str(lines[int(name[1:])][seg()]), 'nominal'
        c = client(sensor_answer(Sensors()))
        val = PY[t](k)
        ok = [all(ln[s] == k for ln in lines) for s in range(5)]
        torn = op == 'many' and any(all(ln[s] == k or ln[s + 1] == k for ln in lines) and not (ok[s] or ok[s + 1]) for s in range(4))
        if op == 'one':
            kw = {} if case['period'] is None else {'pollperiod': case['period']}
            got = outcome(c.wait_until_sensor_equals, timeout, 's0', val, PY[t], **kw)
        elif op == 'many':
            tup = [('s%d' % i, val, PY[t]) for i in range(len(lines))]
            got = outcome(c.wait_until_sensors_equal, timeout, tup, msg=case['msg'])
        else:
            seen = []

            def pred(x, y=0):
                seen.append((x, y))
                vt.sleep(0.001)
                return lines[0][seg()] == k and 'yes'
            kw = {} if case['period'] is None else {'poll_period': case['period']}
            got = outcome(c.wait_condition, timeout, pred, 7, y=8, **kw)
            equal(set(seen), set([(7, 8)]), 'condition-arguments')
            cond, text = got[1]
            equal((cond, bool(text)), ('yes', False) if cond else (False, True), 'condition-result')
            got = ('ok' if cond else 'assert', text)
        took = vt.now
    what = '%s until %r in %r, timeout %s: %s after %.3f' % (op, k, lines, timeout, got, took)
    first = [s for s in range(5) if ok[s] and (s == 0 or s - 0.5 < timeout)]
    ctx.nt(first and first[0] > 0 or not first and any(ok))
    if torn or (timeout == 0 and ok[0] and op == 'one'):
        return
    check((got[0] == 'ok') == bool(first), 'wait-outcome', what)
    if first:
        start = max(0, first[0] - 0.5)
        check(start <= took <= start + 0.3, 'wait-success-late', what)
    else:
        check(timeout - 0.001 <= took <= timeout + 0.3, 'wait-timeout', what)


def run_list(case, ctx):
    rows = [['s%d' % i, d, u, t] + list(p) for i, (t, d, u, p) in enumerate(case['rows'])]
    want = [list(r) for r in rows]
    ch, at, same, text = case['change'], case['at'], True, False
    if ch == 'order':
        want.reverse()
    elif ch == 'add':
        want.append(['new', 'a', 'b', 'integer'])
        same = False
    elif want and ch:
        r = want[at % len(want)]
        if ch == 'drop':
            want.remove(r)
            same = False
        elif ch in ('desc', 'descmore'):
            r[1] += ' more' if ch == 'descmore' else 'x'
            same = case['ignore']
        elif ch == 'unit':
            r[2] += 'x'
            same = False
        elif ch == 'type':
            r[3] = 'string'
            same = False
        elif ch == 'param':
            r.append('99')
            same = False
        elif ch == 'respell' and r[3] == 'float' and len(r) > 4:
            r[-1] = '%.3f' % float(r[-1])
        elif ch == 'bytes':
            r[:] = [x.encode() for x in r]
    c = client(lambda name, args: (name, ['fail', 'no'], []) if case['fail'] else (name, ['ok', str(len(rows))], rows))
    ctx.nt(len(rows) > 1 and ch)
    verdict(outcome(c.test_sensor_list, [tuple(r) for r in want], ignore_descriptions=case['ignore']), same and not case['fail'], 'sensor-list',
            '%r expected %r ignore=%s' % (rows, want, case['ignore']))


def run_help(case, ctx):
    form = case['form']
    rows = [['r%d' % i, a + 'A' + ('\nsecond ' + z if z else '')] for i, (a, z) in enumerate(case['rows'])]
    dev = rows + [[n, 'Default.'] for n in case['defaults']]
    exclude = case['exclude'] is not False
    want = [list(r) for r in (rows if exclude else dev)]
    ch, at, same = case['change'], case['at'], True
    full = case['full']
    cut = form == 'first'
    if ch == 'order':
        want.reverse()
    elif ch == 'add':
        want.append(['new', 'New.'])
        same = False
    elif ch == 'default' and exclude:
        want.append(['help', 'Default.'])
        same = False
    elif want and ch in ('drop', 'desc', 'descmore'):
        r = want[at % len(want)]
        if ch == 'drop':
            want.remove(r)
            same = False
        elif form != 'names':
            if ch == 'desc':
                r[1] = 'x' + r[1]
                same = False
            else:
                r[1] += '\nmore'
                same = not full
    if form == 'names':
        exp = [r[0] for r in want]
    else:
        if cut:
            if full and any('\n' in r[1] for r in want):
                same = False
            if full and ch == 'descmore' and not any('\n' in r[1] for r in (rows if exclude else dev)):
                same = True
            exp = [(r[0], r[1].split('\n')[0]) for r in want]
        else:
            exp = [tuple(r) for r in want]
    if form != 'names' and exp:
        # the truth, whatever was done above
        key = (lambda d: d) if full else (lambda d: d.split('\n')[0])
        names = set(DEFAULTS) if exclude else ()
        same = set((n, key(d)) for n, d in exp) == set((n, key(d)) for n, d in dev if n not in names)
    c = client(lambda name, args: (name, ['fail', 'no'], []) if case['fail'] else (name, ['ok', str(len(dev))], dev))
    kw = {} if case['exclude'] is None else {'exclude_defaults': case['exclude']}
    ctx.nt(len(dev) > 1 and (ch or full))
    verdict(outcome(c.test_help, exp, full_descriptions=full, **kw), same and not case['fail'], 'help-list', '%r expected %r full=%s %r' % (dev, exp, full, kw))


def wire(x):
    return ('1' if x else '0') if isinstance(x, bool) else x if isinstance(x, str) else repr(x)


def pick(how, actual, alt):
    return {'same': list(actual), 'other': list(alt), 'more': list(actual) + ['z'], 'none': None}[how]


def run_req(case, ctx):
    from kv.core import equal
    params = case['params']
    sent = [wire(p) for p in params]
    args = sent if case['args'] == 'echo' else case['args']
    seen = []

    def answer(name, got):
        seen.append((name, got))
        return 'odd' if case['name'] else name, [case['status']] + args, case['informs']
    c = client(answer)
    named = not case['name']
    if case['op'] == 'fail':
        kw, ok = {}, named and case['status'] != 'ok'
        if case['seq'] != 'none':
            kw['status_equals'] = {'same': case['status'], 'other': 'fail', 'part': case['status'][:-1]}[case['seq']]
            ok = ok and kw['status_equals'] == case['status']
        err = args[0] if args else None
        if case['err'] != 'none':
            kw['error_equals'] = {'same': err if err is not None else 'a', 'other': 'a', 'more': (err or '') + 'z'}[case['err']]
            ok = ok and kw['error_equals'] == err
        got = outcome(c.assert_request_fails, 'do-it', *params, **kw)
        verdict(got, ok, 'request-fails', '%r %r %r' % (case['status'], args, kw))
        ctx.nt(len(kw) > 1)
        if ok:
            s, e = got[1]
            equal((s.decode() if isinstance(s, bytes) else s, e), (case['status'], err), 'request-fails-result')
    else:
        kw, ok = {}, named and case['status'] == 'ok'
        if case['echo'] is not None:
            kw['args_echo'] = case['echo']
        eq = pick(case['equal'], args, case['other'])
        if eq is not None:
            kw['args_equal'] = eq
        isin = {'none': None, 'has': [case['other'], args], 'hasnot': [case['other'] + ['z'], args + ['z']], 'empty': []}[case['in']]
        if isin is not None:
            kw['args_in'] = isin
        if case['length'] is not None:
            kw['args_length'] = len(args) + case['length']
        if case['count'] is not None:
            kw['informs_count'] = len(case['informs']) + case['count']
            ok = ok and not case['count']
        ia = {'rev': case['informs'][::-1], 'same': case['informs'], 'other': [case['other']], 'more': case['informs'] + [[]], 'none': None}[case['iargs']]
        if ia is not None:
            kw['informs_args_equal'] = ia
            ok = ok and ia == case['informs']
        if case['echo']:
            ok = ok and args == sent
        elif eq is not None:
            ok = ok and args == eq
        elif isin is not None:
            ok = ok and args in isin
        elif case['length'] is not None:
            ok = ok and not case['length']
        got = outcome(c.assert_request_succeeds, 'do-it', *params, **kw)
        verdict(got, ok, 'request-succeeds', '%r reply %r %r informs %r with %r' % (params, case['status'], args, case['informs'], kw))
        ctx.nt(len(kw) > 1)
        if ok:
            equal(got[1], args, 'request-succeeds-result')
    equal(seen, [('do-it', sent)], 'request-sent')


def run_setter(case, ctx):
    from kv.core import check
    t = case['type']
    lag, delay, devlag = case['when']
    mk = {'int': int, 'float': lambda x: x + 0.5, 'bool': lambda x: x % 2 == 1, 'str': str}[t]
    multi = case['multi']
    num = {'int': int, 'float': lambda s: float(s) - 0.5, 'bool': int, 'str': int}[t]
    with Slept() as vt:
        queue = []          # (time, value index)
        state = ['0' if t != 'float' else '0.5', 'nominal']

        class Sensors(object):
            def __contains__(self, name):
                return name in ('s', 's1')

            def __getitem__(self, name):
                while queue and queue[0][0] <= vt.now + 1e-9:
                    state[0] = queue.pop(0)[1]
                return state[0], state[1]
        value = sensor_answer(Sensors())

        def answer(name, args):
            if name == 'sensor-value':
                return value(name, args)
            check(name == 'set-it' and len(args) == 1, 'wrong-request', lambda: '%s %r' % (name, args))
            n = num(args[0])
            if n > case['limit'] or n <= case['floor']:
                return name, ['fail', 'no'], []
            text = args[0]
            if case['clamp'] and n > 2:
                text = wire(mk(2))
            queue.append((vt.now + devlag, text))
            return name, ['ok'] + ([] if case['noecho'] else args), []
        c = client(answer)
        c.test.sensor_lag = lag
        ok, cur = True, num(state[0])
        slept = lag + (delay or 0 if multi else 0)
        for g in case['good']:
            g = num(wire(mk(g)))
            acc = case['floor'] < g <= case['limit']
            new = 2 if case['clamp'] and g > 2 else g
            if not acc or (case['echo'] and case['noecho'] and not multi):
                ok = False
                break
            seen = cur if slept < devlag else new
            if seen != g:
                ok = False
            if multi and any(s != 'nominal' for _, s in case['statuses']):
                ok = False
            if slept < devlag and len(case['good']) + len(case['bad']) > 1:
                return     # the order of what is still to come is not of interest
            if not ok:
                break
            cur = new
        for x in case['bad']:
            x = num(wire(mk(x)))
            if case['floor'] < x <= case['limit']:
                ok = False
        good, bad = [mk(g) for g in case['good']], [mk(x) for x in case['bad']]
        if multi:
            opt = {}
            if delay is not None:
                opt['delay'] = delay
            if case['statuses']:
                opt['statuses'] = [(['s', 's1'][i], s) for i, s in case['statuses']]
            tup = [((g,), [('s', g, PY[t])]) + ((opt,) if opt else ()) for g in good]
            got = outcome(c.test_multi_setter_request, 'set-it', good=tup, bad=[(x,) for x in bad])
        else:
            got = outcome(c.test_setter_request, 'set-it', 's', PY[t], good=good, bad=bad, args_echo=case['echo'])
    ctx.tag('setter-ok' if ok else 'setter-bad')
    ctx.nt(len(good) + len(bad) > 1)
    verdict(got, ok, 'setter-request', '%r' % (case,))


def run_recorder(case, ctx):
    from kv import harness as H
    from kv.vnet import Env
    with Env() as env:
        lsock = H.listen()
        c = client(None, port=lsock.getsockname()[1])
        c.set_ioloop(env.loop)
        c.start()
        env.settle()
        peer = H.accept(lsock)
        try:
            _recorder(case, ctx, env, c, peer)
        finally:
            c.stop()
            env.settle()


def _recorder(case, ctx, env, c, peer):
    import re
    import threading
    from katcp import Message
    from katcp.testutils import MessageRecorder
    from kv import harness as H
    from kv.core import check, equal
    recs = []
    for r in case['recs']:
        if r['direct']:
            types = ([Message.INFORM] if r['informs'] else []) + ([Message.REPLY] if r['replies'] else [])
            mr = MessageRecorder(types, r['white'], r['regex'], r['black'])
        else:
            mr = c.message_recorder(whitelist=r['white'], blacklist=r['black'], regex_filter=r['regex'], informs=r['informs'], replies=r['replies'])
        recs.append((r, mr, []))

    def wanted(r, m, text):
        if not (r['informs'] if m.mtype == Message.INFORM else r['replies']):
            return False
        if r['white']:
            if m.name not in r['white']:
                return False
        elif m.name in r['black']:
            return False
        return r['regex'] is None or bool(re.match(r['regex'], text))

    def feed(t, name, args):
        m = (Message.inform if t == '#' else Message.reply)(name, *args)
        text = ' '.join([t + name] + args)
        for r, mr, want in recs:
            if r['direct']:
                mr.append_msg(m)
            if wanted(r, m, text):
                want.append(text)
        peer.send(H.fmt(t, name, None, args) + b'\n')
        env.settle()
    for op in case['ops']:
        if op[0] == 'msg':
            feed(*op[1:])
        elif op[0] == 'get':
            r, mr, want = recs[op[1] % len(recs)]
            n, how, timeout = op[2:]
            if timeout is None and len(want) < n:
                timeout = 0
            if how == 'wait':
                equal(bool(mr.wait_number(n, timeout)), len(want) >= n, 'wait-number')
            else:
                got = [str(m) for m in (mr.get_msgs if how == 'get' else mr)(n, timeout)]
                equal(got, want, 'recorded', lambda: '%r' % (r,))
                del want[:]
                ctx.nt(got and len(recs) > 1 and (r['white'] or r['black'] or r['regex']))
        else:
            # messages that arrive while someone waits for them
            r, mr, want = recs[op[1] % len(recs)]
            name = r['white'][0] if r['white'] else next((x for x in ('a', 'b', 'c-d', 'ab') if x not in r['black']), None)
            t = '#' if r['informs'] else '!'
            if name is None or not (r['informs'] or r['replies']) or not wanted(r, (Message.inform if t == '#' else Message.reply)(name, 'x'), t + name + ' x'):
                continue
            n = len(want) + op[2]
            box = []
            th = threading.Thread(target=lambda: box.append(mr.get_msgs(n, op[3])))
            th.daemon = True
            th.start()
            if op[2] > 1:
                th.join(0.002)
            for _ in range(op[2]):
                feed(t, name, ['x'])
            th.join(12)
            check(not th.is_alive(), 'waiter-not-woken', lambda: '%r' % (r,))
            equal([str(m) for m in box[0]], want, 'recorded-late')
            del want[:]
            ctx.nt()
    for r, mr, want in recs:
        equal([str(m) for m in mr.get_msgs()], want, 'recorded', lambda: '%r' % (r,))


def run_waiter(case, ctx):
    import threading
    import time
    from katcp import Sensor
    from katcp import testutils as tu
    from kv import ksensors as ks
    from kv.core import check, equal
    sen = Sensor.integer('s', 'd', '', [-100, 100])
    op = case['op']

    def put(u):
        sen.set(1000.0, ks.status(u[1]), u[0])
    put(case['init'])
    both = case['status']
    pos = 1 if both else None

    def item(u):
        return (ks.status(u[1]), u[0]) if both else u[0]

    def mk(t):
        kind, n = t
        if kind == '=':
            return (ks.status(case['tstat']), n) if both else n
        f = {'<': lambda x: x < n, '>=': lambda x: x >= n, 'any': lambda x: True, 'never': lambda x: False, '==': lambda x: x == n}[kind]
        return (lambda x: f(x[pos])) if both else f

    def holds(t, v):
        return bool(t(v)) if callable(t) else v == t
    tests = [mk(t) for t in case['tests']]
    ups = case['ups']

    def reference(tests):
        """(outcome, values read) by the documented rules; outcome None: still waiting when there are no more values."""
        read = [item(case['init'])]
        rest = [item(u) for u in ups]
        for i in range(len(tests) - 1):
            if holds(tests[i + 1], read[-1]):
                continue
            while True:
                while rest and rest[0] == read[-1]:
                    rest.pop(0)
                if not rest:
                    return None, read
                read.append(rest.pop(0))
                if holds(tests[i + 1], read[-1]):
                    break
                if not holds(tests[i], read[-1]):
                    return False, read
        return True, read
    cls = tu.SensorTransitionStatusWaiter if both else tu.SensorTransitionWaiter
    before = len(sen._observers) if hasattr(sen, '_observers') else None

    def detached():
        if before is not None:
            equal(len(sen._observers), before, 'waiter-left-attached')

    def feed():
        time.sleep(0.001)
        for u in ups[pre:]:
            put(u)
    pre = case['pre'] if case['late'] else len(ups)
    if op == 'wait':
        if tests and not holds(tests[0], item(case['init'])):
            try:
                cls(sen, tests)
            except ValueError:
                return
            check(False, 'initial-condition', lambda: '%r' % (case,))
        w = cls(sen, tests or [lambda x: True])
        res, read = reference(tests)
        timeout = case['timeout']
        if timeout is None and res is None:
            timeout = 0
        if case['late'] and pre < len(ups):
            if res is None:
                return w.teardown()
            timeout = None if timeout is None else 12
        for u in ups[:pre]:
            put(u)
        th = threading.Thread(target=feed)
        th.daemon = True
        if case['late']:
            th.start()
        got = w.wait(timeout=timeout)
        if case['late']:
            th.join()
        equal(got, bool(res), 'transition', lambda: '%r' % (case,))
        equal(w.timed_out, res is None, 'transition-timed-out', lambda: '%r' % (case,))
        equal(list(w.received_values), read, 'transition-values', lambda: '%r' % (case,))
        detached()
        try:
            w.wait(timeout=0)
        except RuntimeError:
            pass
        else:
            check(False, 'wait-twice')
        ctx.nt(len(read) > 2 and len(tests) > 2)
    elif op == 'values':
        w = cls(sen)
        want = [item(case['init'])]
        for u in ups[:case['pre']]:
            put(u)
            want.append(item(u))
        equal(list(w.get_received_values(stop=case['stop'], reset=case['reset'])), want, 'received-values')
        if case['reset']:
            want = []
        for u in ups[case['pre']:]:
            put(u)
            if not case['stop']:
                want.append(item(u))
        equal(list(w.get_received_values()), want, 'received-values', lambda: '%r' % (case,))
        detached()
        ctx.nt(len(ups) > case['pre'] > 0)
    elif op in ('sensor', 'follow'):
        k, ks_ = case['k'], case['kstat']
        hit = any(u[0] == k and ks_ in (None, u[1]) for u in [case['init']] + ups)
        th = threading.Thread(target=lambda: [time.sleep(0.001)] + [put(u) for u in ups])
        th.daemon = True
        th.start()
        if op == 'sensor':
            th.join()
            last = (ups or [case['init']])[-1]
            hit = last[0] == k and ks_ in (None, last[1])
        elif not hit or not ups or not (ups[-1][0] == k and ks_ in (None, ups[-1][1])):
            return th.join()
        got = tu.wait_sensor(sen, k, None if ks_ is None else ks.status(ks_), timeout=12 if hit else 0.004)
        th.join()
        equal(got, hit, 'wait-sensor', lambda: '%r' % (case,))
        detached()
        ctx.nt(len(ups) > 1)
    else:
        from kv import harness as H
        from kv.vnet import Env
        k, ks_ = case['k'], case['kstat']

        def match(u):
            return u[0] == k and ks_ in (None, u[1])
        with Env() as env:
            f = tu.wait_sensor_async(sen, k, None if ks_ is None else ks.status(ks_))
            done = match(case['init'])
            for j, u in enumerate(ups):
                if j >= case['pre']:
                    env.settle()
                    equal(f.done(), done, 'wait-async', lambda: '%r' % (case,))
                put(u)
                done = done or match(u)
            env.settle()
            equal(f.done(), done, 'wait-async', lambda: '%r' % (case,))
            if done:
                check(f.result() is True, 'wait-async-result')
                detached()
            H.no_loop_errors(env, 'wait-async-error')
            ctx.nt(len(ups) > 1 and done)


def run_msgs(case, ctx):
    import re
    import unittest
    from katcp import Message
    from katcp.testutils import TestUtilMixin

    class T(TestUtilMixin, unittest.TestCase):
        def runTest(self):
            pass
    t = T()
    mk = {'?': Message.REQUEST, '!': Message.REPLY, '#': Message.INFORM}
    mid = case['mid']
    msgs = [Message(mk[a], n, [x.encode() for x in args], mid=mid) for a, n, args in case['msgs']]
    plain = [' '.join([a + n] + args) for a, n, args in case['msgs']]
    real = [' '.join([a + n + ('[%s]' % mid if mid else '')] + args) for a, n, args in case['msgs']]
    wm = (mid if not case['wantmid'] else '5') if mid else None if not case['wantmid'] else '5'
    op, ch, at = case['op'], case['change'], case['at']
    n = len(msgs) + {'drop': -1, 'add': 1}.get(ch, 0)
    ctx.nt(len(msgs) > 1)
    what = '%s %r %r %r' % (op, real, ch, wm)
    if op == 'length':
        if n >= 0:
            verdict(outcome(t._assert_msgs_length, msgs, n), n == len(msgs), 'msgs-length', what)
        return
    exp = list(plain if op != 'match' else real)
    if ch == 'drop' and exp:
        exp.pop(at % len(exp))
    elif ch == 'add':
        exp.insert(at % (len(exp) + 1), '#a')
    elif ch == 'alter' and exp:
        exp[at % len(exp)] += 'q'

    def full(s):
        if not wm:
            return s
        head, sep, tail = s.partition(' ')
        return head + '[%s]' % wm + sep + tail
    if op == 'equal':
        verdict(outcome(t._assert_msgs_equal, msgs, exp, mid=wm) if wm else outcome(t._assert_msgs_equal, msgs, exp),
                [full(e) for e in exp] == real, 'msgs-equal', what)
    elif op == 'match':
        pats = [re.escape(e) + ('' if ch == 'loose' else '$') for e in exp]
        if ch == 'pre' and pats:
            pats[0] = re.escape(exp[0][1:])
        verdict(outcome(t._assert_msgs_match, msgs, pats), len(pats) == len(real) and all(re.match(p, r) for p, r in zip(pats, real)), 'msgs-match', what)
    else:
        pairs = [(e[:max(0, a)], e[len(e) - min(len(e), z):]) for e, (a, z) in zip(exp, case['cut'] + [(2, 2)])]
        if wm:
            pairs = [(e.split(' ')[0] if a else e.split(' ')[0] + ' ', z) if True else None for e, (a, z) in zip(exp, pairs)]
        if ch == 'pre' and pairs:
            pairs[0] = ('~', pairs[0][1])
        if ch == 'suf' and pairs:
            pairs[0] = (pairs[0][0], '~')
        if ch == 'inpre' and pairs and not wm:
            pairs[0] = (exp[0][1:3], '')
        if ch == 'insuf' and pairs:
            pairs[0] = (pairs[0][0], exp[0][-3:-1])
        good = len(pairs) == len(real) and all((not p and not wm or r.startswith(full(p))) and r.endswith(s) for (p, s), r in zip(pairs, real))
        verdict(outcome(t._assert_msgs_like, msgs, pairs, mid=wm) if wm else outcome(t._assert_msgs_like, msgs, pairs), good, 'msgs-like', what + ' %r' % (pairs,))


def run_cmp(case, ctx):
    import unittest
    from katcp import Sensor
    from katcp.testutils import SensorComparisonMixin
    from kv import ksensors as ks
    from kv.core import check

    class T(SensorComparisonMixin, unittest.TestCase):
        def runTest(self):
            pass
    t = T()

    def build(i, row, ch=''):
        v, status, desc, units, ts = row
        if ch == 'value':
            v += 1
        if ch == 'status':
            status = 'failure'
        s = Sensor.integer('s%d' % i + ('x' if ch == 'name' else ''), desc + ('x' if ch == 'description' else ''),
                           units + ('x' if ch == 'units' else ''), [-100, 101 if ch == 'params' else 100])
        s.set(1000.0 + ts + (0.5 if ch == 'timestamp' else 0), ks.status(status), v)
        return s

    def descr(i, row, keys, ch=''):
        v, status, desc, units, ts = row
        d = {'name': 's%d' % i + ('x' if ch == 'name' else ''), 'value': v + (ch == 'value'), 'status': ks.status('failure' if ch == 'status' else status),
             'description': desc + ('x' if ch == 'description' else ''), 'units': units + ('x' if ch == 'units' else ''),
             'timestamp': 1000.0 + ts + (0.5 if ch == 'timestamp' else 0), 'params': [-100, 101 if ch == 'params' else 100], 'type': Sensor.INTEGER}
        if ch == 'zero':
            d.update(value=0, units='')
        return dict((k, x) for k, x in d.items() if k in keys or k == 'name')
    def zero(r, c):
        return c == 'zero' and not (r[0] and 'value' in keys) and not (r[3] and 'units' in keys)
    rows, ch, at, op = case['s'], case['change'], case['at'] % len(case['s']), case['op']
    actual = [build(i, r) for i, r in enumerate(rows)]
    params = list(actual[0].params)
    keys = case['keys']
    what = '%s %r keys %r' % (op, ch, keys)
    field = ch in ('zero', 'value', 'status', 'units', 'description', 'timestamp', 'params', 'name')
    ctx.nt(field and len(keys) > 1)
    if op == 'equal':
        for i, r in enumerate(rows):
            c = ch if i == at and field and ch != 'zero' else ''
            want = not c or c in keys
            verdict(outcome(t.assert_sensor_equal, actual[i], build(i, r, c), ignore_attributes=tuple(keys)), want, 'sensor-equal', what)
    elif op == 'descr':
        for i, r in enumerate(rows):
            c = ch if i == at and field else ''
            d = descr(i, r, keys, c)
            if 'params' in d and c != 'params':
                d['params'] = params
            if case['bare'] and c != 'name':
                del d['name']
            n = dict(d)
            verdict(outcome(t.assert_sensor_equal_description, actual[i], d), zero(r, c) or (c not in ('', 'name', 'zero') and c not in keys) or not c, 'sensor-description', what)
            check(d == n, 'description-modified', what)
    elif op == 'descrs':
        ds = []
        for i, r in enumerate(rows):
            c = ch if i == at and field else ''
            d = descr(i, r, keys, c)
            if 'params' in d and c != 'params':
                d['params'] = params
            ds.append(d)
        if ch == 'order':
            ds.reverse()
        if ch == 'drop':
            ds.pop(at)
        if ch == 'add':
            ds.append({'name': 'new'})
        verdict(outcome(t.assert_sensors_equal_description, actual, ds), ch in ('', 'order') or zero(rows[at], ch) or (field and ch not in ('name', 'zero') and ch not in keys), 'sensors-description', what)
    else:
        seen = []

        def cond(i):
            def test(v):
                seen.append((i, v))
                assert not (i == at and ch == 'value')
            return test
        tests = dict(('s%d' % i, cond(i)) for i in range(len(rows)) if not (ch == 'drop' and i == at))
        if ch == 'add':
            tests['new'] = cond(9)
        good = ch not in ('value', 'add')
        verdict(outcome(t.assert_sensors_value_conditions, actual, tests), good, 'value-conditions', what)
        if good:
            check(sorted(seen) == [(i, r[0]) for i, r in enumerate(rows) if 's%d' % i in tests], 'value-conditions-calls', what)


def run_calls(case, ctx):
    import queue
    import threading
    import time
    from katcp import testutils as tu
    from kv.core import check, equal
    n, what = case['n'], case['what']
    if what == 'counting':
        ev = threading.Event() if case['own'] else None
        seen = []

        def cb(x, y=None):
            seen.append((x, y))
            if y == 'raise':
                raise KeyError(x)
            return x + 1
        f = tu.counting_callback(*([ev] if case['own'] else []), number_of_calls=n)(cb)
        if case['own']:
            check(f.done is ev, 'counting-event')
        calls = total = 0
        for op in case['ops']:
            if op == 'call':
                equal(f(total), total + 1, 'counting-result')
                calls += 1
                total += 1
            elif op == 'raise':
                try:
                    f(total, y='raise')
                    check(False, 'counting-swallowed')
                except KeyError:
                    total += 1
            elif op == 'reset':
                f.reset()
                calls = 0
            elif op == 'wait':
                equal(bool(f.wait(timeout=0)), calls >= n, 'counting-wait')
            else:
                verdict(outcome(f.assert_wait, timeout=0), calls >= n, 'counting-assert', 'calls=%d n=%d' % (calls, n))
            if op != 'raise':
                equal(f.get_no_calls() >= calls, True, 'counting-number')
            equal(f.done.is_set(), calls >= n, 'counting-done')
            if 'raise' not in case['ops']:
                equal(f.get_no_calls(), calls, 'counting-number')
        equal(len(seen), total, 'counting-calls')
        ctx.nt(calls > n)
    elif what == 'mock':
        m = tu.WaitingMock()
        calls = 0
        for op in case['ops']:
            if op in ('call', 'raise'):
                if case['own']:
                    t0 = time.time()
                    th = threading.Thread(target=lambda: [time.sleep(0.002), m(calls)])
                    th.start()
                    verdict(outcome(m.assert_wait_call_count, calls + 1, timeout=12), True, 'mock-wait-thread', case['ops'])
                    check(time.time() - t0 < 10, 'mock-wait-late')
                    th.join()
                else:
                    m(calls)
                calls += 1
            elif op == 'reset':
                m.reset_mock()
                calls = 0
            else:
                verdict(outcome(m.assert_wait_call_count, n, timeout=0.002), calls >= n, 'mock-wait', '%r n=%d' % (case['ops'], n))
            equal(int(m.call_count), calls, 'mock-count')
            equal([a[0][0] for a in m.call_args_list], list(range(calls)), 'mock-calls')
        ctx.nt(calls > 1)
    elif what == 'amock':
        import tornado.gen
        import tornado.ioloop
        early = len([o for o in case['ops'] if o == 'raise'])
        late = len([o for o in case['ops'] if o == 'call'])
        loop = tornado.ioloop.IOLoop(make_current=False)
        try:
            m = tu.AsyncWaitingMock(return_value=7)
            for i in range(early):
                equal(m(i), 7, 'amock-result')
            enough = early + late >= n

            @tornado.gen.coroutine
            def caller():
                for i in range(late):
                    yield tornado.gen.moment
                    m(early + i)

            @tornado.gen.coroutine
            def main():
                f = caller()
                try:
                    yield m.assert_wait_call_count(n, timeout=12. if enough else 0.003)
                    ok = True
                    check(m.call_count >= n, 'amock-early')
                except AssertionError:
                    ok = False
                yield f
                raise tornado.gen.Return(ok)
            equal(loop.run_sync(main), enough, 'amock-wait', lambda: '%d %d %d' % (early, late, n))
        finally:
            loop.close()
        ctx.nt(late > 0)
    else:
        q = queue.Queue()
        vals = [len(o) for o in case['ops']]
        for v in vals:
            q.put(v)
        got = list(tu.suppress_queue_repeats(q, n, 0.002))
        want, cur = [], n
        for v in vals:
            if v != cur:
                want.append(v)
                cur = v
        equal(got, want, 'queue-repeats', vals)
        check(q.empty(), 'queue-left')
        ctx.nt(len(want) < len(vals))


def run_mock(case, ctx):
    import katcp
    from katcp import Message
    from katcp.kattypes import Int, Str, request, return_reply
    from katcp.testutils import handle_mock_req, mock_req
    from kv.core import check, equal
    from kv.vnet import Env
    name, args, n = case['req'], case['args'], case['n']

    class Dev(katcp.DeviceServer):
        VERSION_INFO = ('d', 1, 0)
        BUILD_INFO = ('d', 1, 0, '')

        def setup_sensors(self):
            pass

        def request_echo(self, req, msg):
            """Echo."""
            return req.make_reply('ok', *msg.arguments)

        def request_fail(self, req, msg):
            """Fail."""
            raise katcp.server.FailReply('no luck')

        def request_raise(self, req, msg):
            """Raise."""
            raise KeyError('oops')

        def request_inform(self, req, msg):
            """Inform."""
            for i in range(n):
                req.inform(str(i), *msg.arguments)
            return req.make_reply('ok', str(n))

        @request(Str(default='x'), Int(default=4))
        @return_reply(Str(), Int())
        def request_typed(self, req, a, i):
            """Typed."""
            return 'ok', a, i + 1
    with Env() as env:
        def key(m):
            return m.mtype, m.name, [bytes(a) for a in m.arguments]
        req = mock_req(name, *args)
        equal(key(req.msg), (Message.REQUEST, name, [a.encode('utf-8') for a in args]), 'mock-msg')
        if not case['handled']:
            r = req.make_reply('ok', *args)
            equal(key(r), (Message.REPLY, name, [b'ok'] + [a.encode('utf-8') for a in args]), 'mock-make-reply')
            for i in range(n):
                req.inform(str(i))
            f = req.reply_and_inform_msgs_future
            check(not f.done(), 'mock-early')
            req.reply('fail', 'x')
            equal(key(f.result()[0]), (Message.REPLY, name, [b'fail', b'x']), 'mock-reply')
            equal([key(m) for m in f.result()[1]], [(Message.INFORM, name, [str(i).encode()]) for i in range(n)], 'mock-informs')
            return
        dev = Dev('127.0.0.1', 0)
        f = handle_mock_req(dev, req)
        env.settle()
        check(f.done(), 'mock-no-reply', name)
        reply, informs = f.result()
        a = [x.encode('utf-8') for x in args]
        equal((reply.mtype, reply.name), (Message.REPLY, name), 'mock-reply')
        got = [bytes(x) for x in reply.arguments]
        if name == 'echo':
            equal(got, [b'ok'] + a, 'mock-reply')
        elif name == 'inform':
            equal(got, [b'ok', str(n).encode()], 'mock-reply')
        elif name == 'watchdog':
            equal(got[0], b'ok', 'mock-reply')
        elif name == 'typed':
            if len(args) < 2 or (len(args) == 2 and args[1] == '1'):
                equal(got, [b'ok', a[0] if args else b'x', b'2' if len(args) == 2 else b'5'], 'mock-reply')
            else:
                equal(got[0], b'fail', 'mock-reply')
        elif name == 'nope':
            equal(got[0], b'invalid', 'mock-reply')
        else:
            equal(got[0], b'fail', 'mock-reply')
            if name == 'fail':
                equal(got, [b'fail', b'no luck'], 'mock-reply')
        equal([key(m) for m in informs], [(Message.INFORM, name, [str(i).encode()] + a) for i in range(n)] if name == 'inform' else [], 'mock-informs')
        ctx.nt(bool(args) and name in ('inform', 'typed', 'echo'))
