"""Hypothesis strategies shared by the property modules (CPython side only)."""
from hypothesis import strategies as st

SPECIAL = '\\ \0\n\r\x1b\t@_0nret\x80\xff[]?!#-'


def bytestr(max_size=12):
    """One-char-per-byte text, biased to the bytes that matter to the protocol."""
    ch = st.one_of(st.sampled_from(SPECIAL), st.characters(min_codepoint=0, max_codepoint=255),
                   st.sampled_from('abcxyzABC019'))
    return st.one_of(st.text(ch, max_size=max_size), st.just(''),
                     st.text(st.sampled_from('\\@_ \n\t\r0ne'), max_size=6))


def name(max_size=10):
    return st.builds(lambda a, r: a + r,
                     st.sampled_from('abzABZhq'),
                     st.text(st.sampled_from('abzABZ09-'), max_size=max_size - 1))


def mid():
    return st.one_of(st.none(), st.integers(0, 3), st.integers(0, 2 ** 31 - 1), st.integers(0, 10 ** 12))


def weighted(*pairs):
    """one_of with integer weights (not flattened, so the weights are real)."""
    out = []
    for w, s in pairs:
        out.extend([s] * w)
    return st.integers(0, len(out) - 1).flatmap(lambda i: out[i])


finite = st.floats(allow_nan=False, allow_infinity=False)


def oplist(op, lo, hi):
    """A list whose length is spread over lo..hi (plain lists stay short)."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(op, min_size=max(lo, n - 3), max_size=n))
