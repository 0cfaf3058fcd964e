"""T01: a boolean sensor tree always equals the conjunction of its children."""
ID = 'T01'
CASES = {'quick': 6000, 'thorough': 300000}
RULE = ('a case counts when the tree had three levels or a shared child, a link was removed from a parent that kept others, '
        'and a leaf was updated after that')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    i = st.integers(0, 6)
    op = gens.weighted(
        (5, st.tuples(st.just('add'), i, i)), (3, st.tuples(st.just('remove'), st.integers(0, 3), i, st.just(True))), (1, st.tuples(st.just('remove'), i, i, st.just(False))),
        (6, st.tuples(st.just('set'), i, st.booleans(), st.sampled_from(['nominal', 'error', 'unknown', 'warn']))),
        (1, st.tuples(st.just('bad'), i, st.booleans())), (1, st.tuples(st.just('links'), i, st.lists(i, min_size=1, max_size=3), st.booleans())))
    pre = st.lists(st.tuples(st.just('add'), st.integers(0, 3), st.integers(1, 6)), max_size=8)
    return st.fixed_dictionaries({'init': st.sampled_from([127, 127, 126, 63, 0, 95]), 'pre': pre, 'ops': gens.oplist(op, 4, 30)})


def links_before(tree, sensor):
    return bool(tree.children(sensor))


def run(case, ctx):
    from katcp import Sensor, BooleanSensorTree, GenericSensorTree
    from kv.core import check, equal

    class TSensor(Sensor):
        def __init__(self, *a, **k):
            self.watch = []
            Sensor.__init__(self, *a, **k)

        def attach(self, o):
            self.watch.append(o)
            Sensor.attach(self, o)

        def detach(self, o):
            if o in self.watch:
                self.watch.remove(o)
            Sensor.detach(self, o)
    N = 7
    ss = [TSensor(Sensor.BOOLEAN, 's%d' % k, 'd', '') for k in range(N)]
    for k in range(N):
        ss[k].set(1., Sensor.NOMINAL, bool(case['init'] >> k & 1))
    other = TSensor(Sensor.INTEGER, 'int', 'd', '')
    tree = BooleanSensorTree()

    # a generic tree over the same sensors that records how it is told to recalculate
    class Rec(GenericSensorTree):
        def __init__(self):
            GenericSensorTree.__init__(self)
            self.calls = []

        def recalculate(self, parent, updates):
            self.calls.append((parent, list(updates)))
    rec = Rec()
    links = [set() for _ in range(N)]       # parent -> children (index order keeps it acyclic)
    value = [bool(case['init'] >> k & 1) for k in range(N)]
    removed = updated = deep = False

    def members():
        return set(k for k in range(N) if links[k]) | set(c for k in range(N) for c in links[k])

    def parents(k):
        return set(p for p in range(N) if k in links[p])

    def propagate():
        for k in range(N - 1, -1, -1):
            if links[k]:
                value[k] = all(value[c] for c in links[k])

    def verify(op):
        mem = members()
        for k in range(N):
            equal(ss[k].value(), value[k], 'tree-value', lambda: 's%d after %r links %r' % (k, op, links))
            equal(ss[k] in tree, k in mem, 'membership', lambda: 's%d %r' % (k, links))
            equal(ss[k].watch.count(tree), 1 if k in mem else 0, 'observed', lambda: 's%d after %r links %r' % (k, op, links))
            equal(ss[k].watch.count(rec), 1 if k in mem else 0, 'observed-generic')
            if k in mem:
                equal(tree.children(ss[k]), set(ss[c] for c in links[k]), 'children')
                equal(tree.parents(ss[k]), set(ss[c] for c in parents(k)), 'parents')
                equal(rec.children(ss[k]), set(ss[c] for c in links[k]), 'children-generic')
                equal(rec.parents(ss[k]), set(ss[c] for c in parents(k)), 'parents-generic')
                # what is returned is the caller's own
                for t in (tree, rec):
                    for f in (t.children, t.parents):
                        try:
                            f(ss[k]).add(other)
                        except (AttributeError, TypeError):
                            continue
                        check(other not in f(ss[k]), 'returned-set-shared')
            else:
                for t in (tree, rec):
                    for f in (t.children, t.parents):
                        try:
                            f(ss[k])
                        except ValueError:
                            continue
                        check(False, 'query-of-non-member')
        check(not other.watch and other not in tree, 'refused-sensor-in-tree')
    for op in case['pre'] + case['ops']:
        k = op[0]
        del rec.calls[:]
        if k == 'add':
            p, c = op[1], op[2]
            if p >= c:
                continue
            links[p].add(c)
            tree.add(ss[p], ss[c])
            del rec.calls[:]
            rec.add_links(ss[p], (ss[c],))
            equal(rec.calls[:1], [(ss[p], [ss[c]])], 'recalculate-on-add')
            propagate()
        elif k == 'links':
            p, cc = op[1], [c for c in op[2] if c > op[1]]
            if not cc or not (op[3] or links[p]):
                continue
            for c in cc:
                (links[p].add if op[3] else links[p].discard)(c)
                if op[3]:
                    tree.add(ss[p], ss[c])
                elif ss[p] in tree and links_before(tree, ss[p]):
                    tree.remove(ss[p], ss[c])
                    if not links[p]:
                        value[p] = ss[p].value()
                        check(value[p] is True, 'empty-conjunction')
            if op[3] or ss[p] in rec:
                del rec.calls[:]
                (rec.add_links if op[3] else rec.remove_links)(ss[p], [ss[c] for c in cc])
                equal(rec.calls[:1], [(ss[p], [ss[c] for c in cc])], 'recalculate-on-links')
            propagate()
        elif k == 'remove':
            p, c = op[1], op[2]
            if op[3] and links[p]:
                c = sorted(links[p])[c % len(links[p])]
            if ss[p] not in tree or p == c:
                continue
            had = c in links[p]
            inner = bool(links[p])
            links[p].discard(c)
            if not had and not inner:
                continue        # a leaf's value is its own business
            tree.remove(ss[p], ss[c])
            del rec.calls[:]
            rec.remove_links(ss[p], [ss[c]])
            equal(rec.calls[:1], [(ss[p], [ss[c]])], 'recalculate-on-remove')
            removed = removed or (had and bool(links[p]))
            if not links[p]:
                value[p] = True
            propagate()
        elif k == 'set':
            i = op[1]
            if links[i]:
                continue
            value[i] = op[2]
            ss[i].set(2., Sensor.STATUSES and {v: q for q, v in Sensor.STATUSES.items()}[op[3]], op[2])
            want = sorted((ss[p].name, (ss[i].name,)) for p in parents(i))
            # only the sensor set here and the parents the boolean tree changed are told about
            got = sorted((a.name, tuple(x.name for x in b)) for a, b in rec.calls if b == [ss[i]])
            equal(got, want, 'recalculate-on-update')
            updated = updated or (removed and bool(parents(i)))
            propagate()
        elif k == 'bad':
            try:
                if op[2]:
                    tree.add(other, ss[op[1]])
                else:
                    tree.add(ss[op[1]], other)
            except ValueError:
                pass
            else:
                check(False, 'non-boolean-accepted')
        for p in range(N):
            if any(links[c] for c in links[p]) or any(len(parents(c)) > 1 for c in links[p]):
                deep = True
            if links[p]:
                equal(ss[p].status(), Sensor.NOMINAL, 'parent-status')
        verify(op)
    ctx.nt(deep and removed and updated)
