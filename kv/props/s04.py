"""S04: log informs honour the log level."""
ID = 'S04'
CASES = {'quick': 3000, 'thorough': 80000}
RULE = 'a case counts when the level changed, a message was broadcast, a message was suppressed and an invalid level name was refused'
PY = [0, 0, 10, 20, 30, 40, 50, 60]
LEVELS = ['all', 'trace', 'debug', 'info', 'warn', 'error', 'fatal', 'off']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    lv = st.sampled_from(LEVELS)
    bad = st.one_of(st.sampled_from(['', 'WARN', 'warning', 'warn ', '7', 'none', '\xff', 'al', 'notset', 'root']), gens.bytestr(5))
    text = st.one_of(st.sampled_from(['', 'x', 'a b', '\n', '\xe9\u20ac', '100%', '50% done', '%s', '%d', '%s %s', '%%', '%(a)s', '{0}',
                                      'x %5.2f y', '%y', '\\_']), st.text(st.characters(exclude_categories=['Cs']), max_size=8))
    arg = gens.weighted((3, st.integers(-5, 5)), (3, st.text(st.sampled_from('ab% \xe9'), max_size=3)), (3, st.floats(-5, 5)),
                        (1, st.lists(st.integers(0, 3), max_size=2)))
    log = st.fixed_dictionaries({'op': st.just('log'), 'level': st.sampled_from(LEVELS[:7]), 'text': text, 'args': st.lists(arg, max_size=3),
                                 'name': st.one_of(st.none(), st.sampled_from(['root', 'a.b.c', '\xe9', 'x y', ''])), 'how': st.booleans(),
                                 'ts': st.one_of(st.none(), st.integers(0, 4 * 10 ** 12).map(lambda v: v / 1000.), st.floats(0, 4e9))})
    op = gens.weighted((6, log), (2, st.fixed_dictionaries({'op': st.just('req'), 'level': lv, 'c': st.integers(0, 2)})),
                       (2, st.fixed_dictionaries({'op': st.just('req'), 'level': bad, 'c': st.integers(0, 2)})),
                       (1, st.fixed_dictionaries({'op': st.just('query'), 'c': st.integers(0, 2)})),
                       (2, st.fixed_dictionaries({'op': st.sampled_from(['set', 'byname']), 'level': lv, 'bytes': st.booleans()})),
                       (1, st.fixed_dictionaries({'op': st.just('byname'), 'level': bad, 'bytes': st.booleans()})),
                       (1, st.fixed_dictionaries({'op': st.sampled_from(['open', 'close']), 'c': st.integers(0, 2)})),
                       (1, st.fixed_dictionaries({'op': st.just('adv'), 'dt': st.integers(0, 5000)})))
    return st.fixed_dictionaries({'v4': st.booleans(), 'mode': st.sampled_from(['async', 'loop']), 'ops': gens.oplist(op, 3, 25)})


def run(case, ctx):
    import logging
    import katcp
    from katcp import ProtocolFlags
    from kv import harness as H
    from kv.core import check, equal, b
    from kv.vnet import Env
    base = katcp.AsyncDeviceServer if case['mode'] == 'async' else katcp.DeviceServer
    major = 4 if case['v4'] else 5
    Dev = type(base)('Dev', (base,), {'PROTOCOL_INFO': ProtocolFlags(major, 0, [b'M']), 'setup_sensors': lambda self: None})
    with Env() as env:
        lg = logging.getLogger('kv.s04')
        lg.setLevel(logging.WARN)
        lg.propagate = False
        lg.handlers[:] = []
        records = []
        h = logging.Handler()
        h.emit = records.append
        lg.addHandler(h)
        pylevel = logging.WARN
        dev = Dev('127.0.0.1', 0, logger=lg)
        if case['mode'] != 'async':
            dev.set_concurrency_options(thread_safe=True, handler_thread=False)
        port = H.start_device(env, dev)
        raws = [None] * 3

        def connect(i):
            raws[i] = H.Raw(port)
            env.settle()
            raws[i].msgs()
        connect(0)
        connect(1)
        level = [4]
        changed = sent = suppressed = refused = False
        other_names = set()

        def nothing(skip=None):
            for i, r in enumerate(raws):
                if r is not None and i != skip:
                    got = r.msgs()
                    check(not got, 'surplus-message', got)
        for op in case['ops']:
            k = op['op']
            if k == 'log':
                text, args = op['text'], tuple(tuple(a) if isinstance(a, list) else a for a in op['args'])
                kw = {}
                if op['name'] is not None:
                    kw['name'] = op['name']
                if op['ts'] is not None:
                    kw['timestamp'] = op['ts']
                n = LEVELS.index(op['level'])
                del records[:]
                if op['how'] and op['level'] != 'all':
                    getattr(dev.log, op['level'])(text, *args, **kw)
                else:
                    dev.log.log(n, text, *args, **kw)
                t0 = env.now
                mine = [r for r in records if text in str(r.msg) and r.levelno == PY[n] and (r.args or ()) == args]
                if PY[n] > 0:
                    # (Python's own level 0 means that of the parent logger)
                    eff = pylevel or logging.getLogger().getEffectiveLevel()
                    equal(len(mine), int(PY[n] >= eff), 'python-log', lambda: '%r at python level %s: %r' % (op, pylevel, records))
                env.settle()
                try:
                    want = (text % args).encode('utf-8')
                except (TypeError, ValueError, KeyError):
                    want = None
                    ctx.tag('unformattable')
                for r in raws:
                    if r is None:
                        continue
                    got = r.msgs()
                    if n < level[0]:
                        check(not got, 'below-level-sent', lambda: '%r at level %s' % (got, LEVELS[level[0]]))
                        suppressed = True
                        continue
                    check(len(got) == 1, 'at-level-not-sent-once', lambda: '%r at level %s, message %r' % (got, LEVELS[level[0]], op))
                    m = got[0]
                    check((m.t, m.name, m.mid) == ('#', 'log', None) and len(m.args) == 4, 'log-inform-shape', m)
                    equal(m.args[0], op['level'].encode(), 'log-level-name')
                    equal(m.args[2], ('root' if op['name'] is None else op['name']).encode('utf-8'), 'logger-name')
                    ts = op['ts'] if op['ts'] is not None else t0
                    import re
                    check(re.fullmatch(br'\d+' if major == 4 else br'\d+\.\d+', m.args[1]) and
                          abs(float(m.args[1]) / (1000. if major == 4 else 1) - ts) <= (1.01e-3 if major == 4 else 1e-6),
                          'log-timestamp', lambda: '%r want %r' % (m, ts))
                    if want is not None:
                        equal(m.args[3], want, 'log-text')
                    elif text.isprintable():
                        check(m.args[3].startswith(text.strip().encode('utf-8')), 'log-text-unformattable', lambda: '%r for %r' % (m, op))
                    sent = True
            elif k in ('req', 'query'):
                r = raws[op['c']]
                if r is None:
                    continue
                args = [] if k == 'query' else [b(op['level'])]
                r.send(H.fmt('?', 'log-level', 7, args) + b'\n')
                env.settle()
                got = r.msgs()
                check(len(got) == 1 and (got[0].t, got[0].name, got[0].mid) == ('!', 'log-level', '7'), 'log-level-reply', got)
                if k == 'req':
                    if op['level'] in LEVELS:
                        changed = changed or LEVELS.index(op['level']) != level[0]
                        level[0] = LEVELS.index(op['level'])
                    else:
                        check(got[0].args[0] == b'fail' and len(got[0].args) == 2, 'invalid-level-accepted', lambda: '%r %r' % (op, got[0]))
                        refused = True
                if k == 'query' or op['level'] in LEVELS:
                    equal(got[0].args, [b'ok', LEVELS[level[0]].encode()], 'log-level-reported')
                nothing()
            elif k == 'set':
                dev.log.set_log_level(LEVELS.index(op['level']))
                level[0] = LEVELS.index(op['level'])
                changed = True
            elif k == 'byname':
                nm = b(op['level']) if op['bytes'] else op['level']
                try:
                    dev.log.set_log_level_by_name(nm)
                    check(op['level'] in LEVELS, 'invalid-level-accepted', nm)
                    level[0] = LEVELS.index(op['level'])
                except ValueError:
                    check(op['level'] not in LEVELS, 'valid-level-refused', nm)
                    refused = True
            elif k == 'open':
                if raws[op['c']] is None:
                    connect(op['c'])
            elif k == 'close':
                if raws[op['c']] is not None:
                    raws[op['c']].close()
                    raws[op['c']] = None
                    env.settle()
            elif k == 'adv':
                env.advance(op['dt'] / 1000.)
            if k in ('req', 'set', 'byname') and op['level'] in LEVELS and not (k == 'req' and raws[op['c']] is None):
                pylevel = PY[level[0]]
            equal(lg.level, pylevel, 'python-level', lambda: '%r' % (op,))
            equal(dev.log.level_name(), LEVELS[level[0]], 'level-name', lambda: '%r' % (op,))
            nothing()
        H.no_loop_errors(env)
    ctx.nt(changed and sent and suppressed and refused)
