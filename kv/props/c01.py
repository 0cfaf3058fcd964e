"""C01: messages survive the wire unchanged."""
ID = 'C01'
CASES = {'quick': 12000, 'thorough': 250000}
RULE = ('a case (1-6 messages) counts when some message has an argument containing a byte that must be escaped, '
        'is empty or is not UTF-8, together with a message id or at least two arguments')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    arg = gens.weighted(
        (6, st.tuples(st.just('b'), gens.bytestr(16))),
        (1, st.tuples(st.just('b'), st.tuples(st.integers(0, 255), st.integers(1, 1500)).map(lambda t: chr(t[0]) * t[1]))),
        (2, st.tuples(st.just('t'), st.text(st.characters(exclude_categories=['Cs']), max_size=8))),
        (1, st.tuples(st.just('t'), st.text(st.sampled_from('a \\\xe9\u20ac\ud800\udfff'), max_size=6))),
        (2, st.tuples(st.just('i'), st.one_of(st.integers(-5, 5), st.integers()))),
        (2, st.tuples(st.just('f'), st.floats())),
        (1, st.tuples(st.just('B'), st.booleans())))
    mid = st.one_of(st.none(),
                    st.tuples(st.sampled_from(['int', 'str', 'bytes']), st.integers(0, 10 ** 11)),
                    st.tuples(st.sampled_from(['str', 'bytes']), st.sampled_from(['0', '007', '00', '2147483647'])))
    msg = st.fixed_dictionaries({'t': st.integers(0, 2), 'name': gens.name(12), 'mid': mid,
                                 'args': st.lists(arg, max_size=6),
                                 'other': st.lists(st.tuples(st.just('b'), gens.bytestr(6)), max_size=3)})
    # invalid constructor inputs
    bad = st.fixed_dictionaries({'bad': st.one_of(
        st.tuples(st.just('name'), st.text(st.sampled_from('ab0-_ ?[].\\\n'), max_size=4)),
        st.tuples(st.just('mid'), st.one_of(st.sampled_from(['', '-1', '1.0', ' 1', '1 ', 'a', '1]', '+1']), st.text(st.sampled_from('0123 -x.'), max_size=4))),
        st.tuples(st.just('type'), st.integers(-3, 6)))})
    return st.lists(gens.weighted((9, msg), (1, bad)), min_size=1, max_size=6)


ESC = {0x5c: b'\\\\', 0x20: b'\\_', 0: b'\\0', 10: b'\\n', 13: b'\\r', 27: b'\\e', 9: b'\\t'}


def ref_escape(data):
    if not data:
        return b'\\@'
    return b''.join(ESC.get(c, bytes([c])) for c in data)


def run(case, ctx):
    import re
    from katcp.core import Message, MessageParser, KatcpSyntaxError
    from kv.core import check, equal, b
    parser = MessageParser()
    for m in case:
        if 'bad' in m:
            kind, v = m['bad']
            if kind == 'name':
                valid = re.fullmatch(r'[a-zA-Z][a-zA-Z0-9-]*', v) is not None
                build = lambda: Message(Message.REQUEST, v)
            elif kind == 'mid':
                valid = re.fullmatch(r'[0-9]+', v) is not None
                build = lambda: Message(Message.REQUEST, 'x', [], v)
            else:
                valid = v in (0, 1, 2)
                build = lambda: Message(v, 'x')
            try:
                build()
                ok = True
            except KatcpSyntaxError:
                ok = False
            equal(ok, valid, 'constructor-' + kind, repr(v))
            continue
        args, want = [], []
        special = False
        for k, v in m['args']:
            if k == 'b':
                args.append(b(v))
                want.append(b(v))
                if not v or any(ord(c) in ESC or ord(c) > 126 for c in v):
                    special = True
            elif k == 't':
                args.append(v)
                # what is not a character is sent as a question mark
                want.append(''.join('?' if 0xd800 <= ord(c) < 0xe000 else c for c in v).encode('utf-8'))
            elif k == 'i':
                args.append(v)
                want.append(str(v).encode())
            elif k == 'f':
                args.append(v)
                want.append(repr(v).encode())
            else:
                args.append(v)
                want.append(b'1' if v else b'0')
        mid, wmid = None, None
        if m['mid'] is not None:
            k, v = m['mid']
            wmid = str(v).encode()
            mid = {'int': lambda: int(v), 'str': lambda: str(v), 'bytes': lambda: wmid}[k]()
        ctx.tag('type%d' % m['t'], 'mid' if wmid else 'nomid')
        if special:
            ctx.tag('special')
        ctx.nt(special and (wmid is not None or len(args) > 1))
        msg = Message(m['t'], m['name'], args, mid)
        equal((msg.mtype, msg.name, msg.arguments, msg.mid), (m['t'], m['name'], want, wmid), 'fields')
        line = bytes(msg)
        ref = b'?!#'[m['t']:m['t'] + 1] + m['name'].encode() + (b'[%s]' % wmid if wmid is not None else b'')
        ref += b''.join(b' ' + ref_escape(a) for a in want)
        equal(line, ref, 'wire-format')
        check(not re.search(br'[\0\n\r\x1b\t]', line), 'raw-special')
        back = parser.parse(line)
        equal((back.mtype, back.name, back.arguments, back.mid), (m['t'], m['name'], want, wmid), 'round-trip')
        check(back == msg and not (back != msg), 'round-trip-eq')
        equal(bytes(back), line, 'reserialise')
        # equality discriminates
        for o in (Message((m['t'] + 1) % 3, m['name'], args, mid), Message(m['t'], m['name'] + 'x', args, mid),
                  Message(m['t'], m['name'], args + [b''], mid),
                  Message(m['t'], m['name'], args, (int(wmid) + 1) if wmid is not None else 1)):
            check(o != msg and not (o == msg), 'eq-distinguishes', lambda: '%r %r' % (o, msg))
        # copies and derived messages
        c = msg.copy()
        check(c is not msg and c == msg and c.mid == wmid, 'copy', lambda: '%r %r mid %r %r' % (c, msg, c.mid, msg.mid))
        c.arguments.append(b'extra')
        equal(msg.arguments, want, 'copy-aliases-arguments')
        other = [b(v) for _, v in m['other']]
        rep = Message.reply_to_request(msg, *other)
        equal((rep.mtype, rep.name, rep.arguments, rep.mid), (Message.REPLY, m['name'], other, wmid), 'reply_to_request')
        inf = Message.reply_inform(msg, *other)
        equal((inf.mtype, inf.name, inf.arguments, inf.mid), (Message.INFORM, m['name'], other, wmid), 'reply_inform')
        for meth, t in ((Message.request, 0), (Message.reply, 1), (Message.inform, 2)):
            x = meth(m['name'], *args, mid=mid)
            equal((x.mtype, x.name, x.arguments, x.mid), (t, m['name'], want, wmid), 'helper-%d' % t)
            equal(bool(x.reply_ok()), t == 1 and bool(want) and want[0] == b'ok', 'reply_ok')
        check(isinstance(repr(msg), str), 'repr')
        try:
            text = ref.decode('utf-8')
        except UnicodeDecodeError:
            ctx.tag('nonutf8')
        else:
            equal(str(msg), text, 'str')
