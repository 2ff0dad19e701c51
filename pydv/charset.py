"""Character sets and a translation of the regexes used by the code to z3."""
import functools
import re
import sys
import z3

try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:          # pragma: no cover
    import sre_parse
    import sre_constants as sre


class CharSet:
    """A finite set of characters or the complement of one."""

    def __init__(self, chars='', neg=False):
        self.chars = frozenset(chars)
        self.neg = neg

    @staticmethod
    def none():
        return CharSet('')

    @staticmethod
    def all():
        return CharSet('', True)

    def __contains__(self, c):
        return (c in self.chars) != self.neg

    def __le__(self, o):
        return self.subset(o)

    def __or__(self, o):
        if not self.neg and not o.neg:
            return CharSet(self.chars | o.chars)
        if self.neg and o.neg:
            return CharSet(self.chars & o.chars, True)
        if self.neg:
            return CharSet(self.chars - o.chars, True)
        return o | self

    def __invert__(self):
        return CharSet(self.chars, not self.neg)

    def __and__(self, o):
        return ~(~self | ~o)

    def __sub__(self, o):
        return self & ~o

    def subset(self, o):
        d = self - o
        return not d.neg and not d.chars

    def __str__(self):
        return ('^' if self.neg else '') + ''.join(sorted(self.chars))

    def z(self, code):
        e = z3.Or([code == ord(c) for c in sorted(self.chars)]) if self.chars else z3.BoolVal(False)
        return z3.Not(e) if self.neg else e


@functools.lru_cache(None)
def category(av):
    """the characters of \\w, \\d, \\s (of str patterns) or their complements"""
    name = str(av)
    rx = re.compile({'WORD': r'\w', 'DIGIT': r'\d', 'SPACE': r'\s'}[name.split('_')[-1]])
    cs = CharSet(rx.findall(''.join(map(chr, range(sys.maxunicode + 1)))))
    return ~cs if '_NOT_' in name else cs


def _in_set(items):
    neg = False
    cs = CharSet.none()
    for op, av in items:
        if op is sre.NEGATE:
            neg = True
        elif op is sre.LITERAL:
            cs = cs | CharSet(chr(av))
        elif op is sre.RANGE:
            if av[1] - av[0] > 5000:
                return None
            cs = cs | CharSet(''.join(chr(x) for x in range(av[0], av[1] + 1)))
        elif op is sre.CATEGORY:
            cs = cs | category(av)
        else:
            return None
    return ~cs if neg else cs


def single_class(pat):
    """The set matched by a pattern that matches exactly one character, or None."""
    try:
        t = list(sre_parse.parse(pat))
    except re.error:
        return None
    while len(t) == 1 and t[0][0] is sre.SUBPATTERN:
        t = list(t[0][1][3])
    if len(t) != 1:
        return None
    op, av = t[0]
    if op is sre.LITERAL:
        return CharSet(chr(av))
    if op is sre.NOT_LITERAL:
        return CharSet(chr(av), True)
    if op is sre.IN:
        return _in_set(av)
    return None


class Rx:
    def __init__(self, z, s, e):
        self._z, self.anchored_start, self.anchored_end = z, s, e

    def z3(self):
        return self._z


def _zset(cs):
    S = z3.ReSort(z3.StringSort())

    def ranges(chars):
        out, pts = [], sorted(map(ord, chars))
        for p in pts:
            if out and out[-1][1] == p - 1:
                out[-1][1] = p
            else:
                out.append([p, p])
        rs = [z3.Range(z3.StringVal('\\u{%x}' % a), z3.StringVal('\\u{%x}' % b)) for a, b in out]
        return z3.Union(*rs) if len(rs) > 1 else (rs[0] if rs else z3.Empty(S))
    if not cs.neg:
        return ranges(cs.chars)
    return z3.Intersect(z3.AllChar(S), z3.Complement(ranges(cs.chars)))


SPACE = CharSet(' \t\n\r\f\v\x1c\x1d\x1e\x1f\x85\xa0')


def regex_parse(pat):
    from .vc import Unsupported
    S = z3.ReSort(z3.StringSort())
    tree = list(sre_parse.parse(pat))
    st = en = False

    def cat(l):
        if op_empty(l):
            return z3.Re('')
        zs = [conv(x) for x in l]
        return z3.Concat(*zs) if len(zs) > 1 else zs[0]

    def op_empty(l):
        return len(l) == 0

    def conv(x):
        op, av = x
        if op is sre.LITERAL:
            return z3.Re(z3.StringVal('\\u{%x}' % av))
        if op is sre.NOT_LITERAL:
            return _zset(CharSet(chr(av), True))
        if op is sre.ANY:
            return _zset(CharSet('\n', True))
        if op is sre.IN:
            cs = CharSet.none()
            neg = False
            for o, a in av:
                if o is sre.NEGATE:
                    neg = True
                elif o is sre.CATEGORY:
                    if a is sre.CATEGORY_SPACE:
                        cs = cs | SPACE
                    elif a is sre.CATEGORY_DIGIT:
                        cs = cs | CharSet('0123456789')
                    else:
                        raise Unsupported('regex category')
                else:
                    s = _in_set([(o, a)])
                    if s is None:
                        raise Unsupported('regex class')
                    cs = cs | s
            return _zset(~cs if neg else cs)
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = av
            r = cat(list(sub))
            if hi is sre.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            return z3.Loop(r, lo, hi)
        if op is sre.SUBPATTERN:
            return cat(list(av[3]))
        if op is sre.BRANCH:
            return z3.Union(*[cat(list(b)) for b in av[1]])
        raise Unsupported('regex %s' % op)
    if tree and tree[0][0] is sre.AT and tree[0][1] in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
        st = True
        tree = tree[1:]
    if tree and tree[-1][0] is sre.AT and tree[-1][1] is sre.AT_END_STRING:
        en = True
        tree = tree[:-1]
    elif tree and tree[-1][0] is sre.AT and tree[-1][1] is sre.AT_END:
        raise Unsupported('regex $')
    return Rx(cat(tree), st, en)
