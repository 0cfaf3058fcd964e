"""T02: an aggregate sensor tree applies each rule to its current children, and only while they are all registered."""
ID = 'T02'
CASES = {'quick': 6000, 'thorough': 300000}
RULE = ('a case counts when a delayed rule became active, one with a deregistered child became inactive, another rule sharing a child '
        'stayed active, and a child was updated afterwards')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    p, c = st.integers(0, 3), gens.weighted((3, st.integers(3, 8)), (1, st.integers(0, 8)))
    names = st.lists(gens.weighted((2, st.integers(4, 6)), (1, st.integers(0, 8))), min_size=1, max_size=3, unique=True)
    op = gens.weighted(
        (2, st.tuples(st.just('add'), p, names, st.sampled_from(['tuple', 'list', 'set']), st.sampled_from(['sum', 'strict']))),
        (4, st.tuples(st.just('delayed'), p, names, st.sampled_from(['tuple', 'list', 'set']), st.sampled_from(['sum', 'strict']))),
        (6, st.tuples(st.just('register'), c, st.integers(0, 4))), (3, st.tuples(st.just('deregister'), c)),
        (1, st.tuples(st.just('remove'), p)), (7, st.tuples(st.just('set'), c, st.integers(0, 4), st.integers(-50, 50))))
    first = st.lists(st.tuples(st.just('delayed'), p, names, st.just('list'), st.sampled_from(['sum', 'strict'])), max_size=3)
    return st.fixed_dictionaries({'first': first, 'ops': gens.oplist(op, 5, 40), 'pre': st.one_of(st.integers(0, 511), st.just(0))})


def run(case, ctx):
    from katcp import Sensor, AggregateSensorTree
    from kv.core import check, equal

    class TSensor(Sensor):
        def __init__(self, *a, **k):
            self.watch = []
            Sensor.__init__(self, *a, **k)

        def attach(self, o):
            self.watch.append(o)
            Sensor.attach(self, o)

        def detach(self, o):
            if o in self.watch:
                self.watch.remove(o)
            Sensor.detach(self, o)
    # names 0-3 are aggregates (they may depend on higher numbers), 4-8 plain sensors; two objects exist for each plain name
    N = 9
    objs = [[TSensor(Sensor.INTEGER, 'n%d' % k, 'd', '') for _ in range(2)] for k in range(N)]
    everything = [o for pair in objs for o in pair]
    tree = AggregateSensorTree()
    rules = {}          # parent index -> dict(need={name: object or None}, fn=, calls=[])
    reg = {}
    calls = {k: [] for k in range(4)}

    def obj(k, alt):
        return objs[k][1 if alt == 0 and k > 3 else 0]

    def make(p, kind, cs):
        want = sorted('n%d' % c for c in cs)

        def rule(parent, children):
            calls[p].append((parent, list(children)))
            if kind == 'strict' and sorted(x.name for x in children) != want:
                raise KeyError('child missing')
            parent.set_value(sum(x.value() for x in children))
        return rule

    def active(p):
        return p in rules and all(v is not None for v in rules[p]['need'].values())

    def refused(fn, sig):
        try:
            fn()
        except ValueError:
            return
        check(False, sig)
    became = lost = shared = after = False

    def depends(p, o):
        """Does active rule p depend on o, directly or through other active rules?"""
        return active(p) and any(v is o or (v.name[1:] in '0123' and depends(int(v.name[1:]), o)) for v in rules[p]['need'].values())

    def verify(op):
        mem = set()
        for p, r in rules.items():
            parent = objs[p][0]
            if active(p):
                want = set(r['need'].values())
                check(calls[p], 'active-rule-not-computed', lambda: '%r' % (op,))
                equal(calls[p][-1][0], parent, 'rule-parent')
                equal(sorted(x.name for x in calls[p][-1][1]), sorted(x.name for x in want), 'rule-children', lambda: '%r' % (op,))
                check(set(calls[p][-1][1]) == want, 'rule-child-objects', lambda: '%r' % (op,))
                equal(parent.value(), sum(x.value() for x in want), 'aggregate-value', lambda: 'n%d after %r' % (p, op))
                equal(tree.children(parent), want, 'children')
                fn, ch = tree.fetch(parent)
                check(fn is r['fn'] and set(ch) == want, 'fetch')
                mem.add(parent)
                mem.update(want)
            else:
                try:
                    tree.fetch(parent)
                    check(False, 'fetch-of-inactive-rule')
                except KeyError:
                    pass
        for o in everything:
            equal(o in tree, o in mem, 'membership', lambda: '%s after %r' % (o.name, op))
            equal(o.watch.count(tree), 1 if o in mem else 0, 'observed', lambda: '%s after %r' % (o.name, op))
            if o in mem:
                equal(tree.parents(o), set(objs[p][0] for p in rules if active(p) and o in rules[p]['need'].values()), 'parents')

    def complete():
        """Rules that became active because of the registrations."""
        for p, r in rules.items():
            for c in r['need']:
                if r['need'][c] is None and c in reg:
                    r['need'][c] = reg[c]
    ops = [['register', k, 1] for k in range(N) if case['pre'] >> k & 1] + list(case['first']) + list(case['ops'])
    for op in ops:
        k = op[0]
        if k in ('add', 'delayed'):
            p, cs = op[1], [c for c in op[2] if c > op[1]]
            if not cs:
                continue
            fn = make(p, op[4], cs)
            conv = {'tuple': tuple, 'list': list, 'set': set}[op[3]]
            if k == 'add':
                call = lambda: tree.add(objs[p][0], fn, conv([objs[c][0] for c in cs]))
            else:
                call = lambda: tree.add_delayed(objs[p][0], fn, conv(['n%d' % c for c in cs]))
            if p in rules:
                refused(call, 'second-rule-accepted')
            else:
                del calls[p][:]
                rules[p] = {'need': {c: objs[c][0] if k == 'add' else reg.get(c) for c in cs}, 'fn': fn}
                if k == 'delayed' and active(p):
                    became = True
                call()
                if not active(p):
                    check(not calls[p], 'incomplete-rule-computed', lambda: '%r' % (op,))
        elif k == 'register':
            o = obj(op[1], op[2])
            if op[1] in reg:
                refused(lambda: tree.register_sensor(o), 'second-registration-accepted')
                continue
            before = [p for p in rules if not active(p)]
            n = {p: len(calls[p]) for p in calls}
            tree.register_sensor(o)
            reg[op[1]] = o
            complete()
            for p in before:
                if active(p):
                    became = True
                else:
                    equal(len(calls[p]), n[p], 'incomplete-rule-computed', lambda: '%r' % (op,))
        elif k == 'deregister':
            o = reg.get(op[1], objs[op[1]][0])
            if op[1] not in reg:
                refused(lambda: tree.deregister_sensor(o), 'unknown-deregistration-accepted')
                continue
            tree.deregister_sensor(o)
            del reg[op[1]]
            for p, r in rules.items():
                if r['need'].get(op[1]) is o:
                    lost = lost or active(p)
                    r['need'][op[1]] = None
        elif k == 'remove':
            p = op[1]
            if active(p):
                tree.remove(objs[p][0])
                del rules[p]
            else:
                refused(lambda: tree.remove(objs[p][0]), 'unknown-rule-removed')
        elif k == 'set':
            if op[1] < 4 and active(op[1]):
                continue
            o = obj(op[1], op[2])
            n = {p: len(calls[p]) for p in calls}
            o.set_value(op[3])
            for p in rules:
                if not depends(p, o):
                    equal(len(calls[p]), n[p], 'inactive-rule-computed', lambda: 'rule n%d after %r' % (p, op))
                else:
                    check(len(calls[p]) > n[p], 'active-rule-not-computed', lambda: 'rule n%d after %r' % (p, op))
                    after = after or (lost and became)
                    shared = shared or sum(1 for q in rules if set(rules[q]['need']) & set(rules[p]['need'])) > 1
        verify(op)
    ctx.nt(became and lost and shared and after)
