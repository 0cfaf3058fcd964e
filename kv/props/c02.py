"""C02: the parser accepts exactly the KATCP grammar."""
ID = 'C02'
CASES = {'quick': 12000, 'thorough': 300000}
RULE = ('a case (1-8 lines) counts when it contains a line the grammar accepts with an escape or id, and a line it rejects '
        'for a reason other than its first character')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    anyb = gens.bytestr(20)
    ws = st.text(st.sampled_from(' \t'), min_size=1, max_size=3)
    esc = st.sampled_from(['\\\\', '\\_', '\\0', '\\n', '\\r', '\\e', '\\t', '\\@'])
    badesc = st.one_of(st.sampled_from(['\\', '\\x', '\\N', '\\ ', '\\1', '\\"']),
                       st.characters(min_codepoint=0, max_codepoint=255).map(lambda c: '\\' + c))
    raw = st.characters(min_codepoint=0, max_codepoint=255)
    plain = st.characters(min_codepoint=33, max_codepoint=255).filter(lambda c: c != '\\')
    atom = gens.weighted((8, plain), (4, esc), (1, badesc), (1, raw))
    arg = st.lists(atom, max_size=5).map(''.join)
    goodarg = st.lists(st.one_of(plain, esc), min_size=1, max_size=5).map(''.join)
    idpart = gens.weighted((5, st.just('')), (5, st.integers(0, 10 ** 12).map(lambda i: '[%d]' % i)),
                           (1, st.sampled_from(['[]', '[-1]', '[1', '1]', '[a]', '[1][2]', '[ 1]', '[01]', '[1.0]', '[\xb2]', '[1]x'])))
    badname = st.one_of(st.sampled_from(['', '-a', '1a', 'a_b', 'a.b', '\xe9', 'a\xe9', 'a\0', '?a', 'a\x80', 'a\\_b', 'a?']),
                        st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=3))
    nm = gens.weighted((8, gens.name(8)), (1, badname))
    structured = st.tuples(
        gens.weighted((12, st.sampled_from('?!#')), (1, st.characters(min_codepoint=0, max_codepoint=255)), (1, st.just(''))),
        nm, idpart, st.lists(st.tuples(ws, gens.weighted((1, arg), (2, goodarg))), max_size=5),
        st.one_of(st.just(''), ws)).map(
        lambda t: t[0] + t[1] + t[2] + ''.join(a + x for a, x in t[3]) + t[4])
    good = st.tuples(
        st.sampled_from('?!#'), gens.name(8),
        st.one_of(st.just(''), st.integers(0, 10 ** 12).map(lambda i: '[%d]' % i), st.sampled_from(['[00]', '[007]'])),
        st.lists(st.tuples(ws, goodarg), max_size=5), st.one_of(st.just(''), ws)).map(
        lambda t: t[0] + t[1] + t[2] + ''.join(a + x for a, x in t[3]) + t[4])
    # one defect or harmless edit somewhere in an otherwise good line
    edit = gens.weighted((3, raw), (2, st.just('')), (3, badesc), (2, st.sampled_from('\\[]-_ \t\0\x1b\r\n0aZ')))
    mutated = st.tuples(good, st.integers(0, 40), st.integers(0, 1), edit).map(
        lambda t: t[0][:t[1] % (len(t[0]) + 1)] + t[3] + t[0][t[1] % (len(t[0]) + 1) + t[2]:])
    line = gens.weighted((5, good), (5, mutated), (3, structured), (1, anyb))
    return st.lists(line, min_size=1, max_size=8)


UN = {ord('\\'): b'\\', ord('_'): b' ', ord('0'): b'\0', ord('n'): b'\n', ord('r'): b'\r', ord('e'): b'\x1b',
      ord('t'): b'\t', ord('@'): b''}


def ref_parse(line):
    """Independent reference: returns (type, name, mid, args) or None."""
    if not line or line[:1] not in (b'?', b'!', b'#'):
        return None
    t = b'?!#'.index(line[:1])
    i, n = 1, len(line)
    al = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    j = i
    while j < n and (line[j] in al or (j > i and line[j] in b'0123456789-')):
        j += 1
    if j == i:
        return None
    name, i, mid = line[i:j].decode('ascii'), j, None
    if i < n and line[i] == ord('['):
        j = i + 1
        while j < n and line[j] in b'0123456789':
            j += 1
        if j == i + 1 or j >= n or line[j] != ord(']'):
            return None
        mid = line[i + 1:j]
        i = j + 1
    if i < n and line[i] not in b' \t':
        return None
    args = []
    while i < n:
        while i < n and line[i] in b' \t':
            i += 1
        if i >= n:
            break
        out = b''
        while i < n and line[i] not in b' \t':
            c = line[i]
            if c in b'\0\n\r\x1b':
                return None
            if c == ord('\\'):
                if i + 1 >= n or line[i + 1] not in UN:
                    return None
                out += UN[line[i + 1]]
                i += 2
            else:
                out += bytes([c])
                i += 1
        args.append(out)
    return t, name, mid, args


def run(case, ctx):
    from katcp.core import MessageParser, KatcpSyntaxError
    from kv.core import Violation, equal, b, check
    parser = MessageParser()
    acc = rej = False
    for text in case:
        line = b(text)
        want = ref_parse(line)
        try:
            m = parser.parse(line)
        except KatcpSyntaxError:
            got = None
        except Exception as e:
            raise Violation('parser-raises-%s' % type(e).__name__, '%r: %s' % (line, e))
        else:
            got = (m.mtype, m.name, m.mid, m.arguments)
        equal(got, want, 'grammar-accepts' if want is None else 'grammar-result', repr(line))
        if got is not None:
            ctx.tag('accepted')
            check(parser.parse(bytes(m)) == m, 'reparse', repr(line))
            if m.mid is not None or b'\\' in line:
                acc = True
        elif line[:1] in (b'?', b'!', b'#'):
            ctx.tag('rejected')
            rej = True
    ctx.nt(acc and rej)
