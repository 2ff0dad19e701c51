"""Symbolic values, path exploration and the loop/comprehension rules.

A contract is a Python function `c(v)` run once per path of the code under
contract.  It builds symbolic inputs, calls the instrumented function, and
states postconditions with `v.prove(...)`; every one of them is a proof
obligation `path condition => post`, decided by z3 for all inputs.
"""
import builtins
import operator
import re
import sys
import time
import types

import z3

from .charset import CharSet, regex_parse, single_class

Q_TIMEOUT = 8000


class Unsupported(BaseException):
    """The code left the supported subset: nothing is proved, nothing refuted."""


class PathEnd(BaseException):
    pass


class Restart(BaseException):
    """New loop facts were discovered: the exploration starts again with them."""


Val = z3.Datatype('Val')
Val.declare('none')
Val.declare('b', ('bv', z3.BoolSort()))
Val.declare('i', ('iv', z3.IntSort()))
Val.declare('s', ('sv', z3.StringSort()))
Val.declare('l', ('lv', z3.IntSort()))
Val.declare('d', ('dv', z3.IntSort()))
Val.declare('o', ('ov', z3.IntSort()))
Val = Val.create()
NONEMPTY = z3.Function('nonempty', z3.IntSort(), z3.BoolSort())

CTX = None      # the active path


# ----------------------------------------------------------------- contexts
class Info:
    """Facts shared by all paths of one contract (monotone, found by restarts)."""

    def __init__(self):
        self.accs = {}          # loop id -> set of access paths of accumulators
        self.stracc = {}        # (loop id, name) -> True: string accumulator
        self.changed = set()    # (loop id, name): the body assigns another value
        self.badcand = set()    # refuted simulation candidates
        self.wchanged = set()   # (while loop id, name): the body assigns another value
        self.wlow = set()       # (while loop id, name): the number may fall below its first value
        self.wempty = set()     # (while loop id, name): the string may become empty
        self.wcs = {}           # (while loop id, name) -> characters of the string
        self.wtape = {}         # (while loop id, path) -> characters that the loop reads of a text
        self.wdrop = {}         # (while loop id, path) -> characters that the loop reads and skips
        self.wunlink = set()    # (while loop id, name): the string isn't extended by what is read
        self.wlists = set()     # (while loop id, name): the loop appends to the list
        self.touched = set()    # functions of the code under contract executed


class Ctx:
    def __init__(self, prefix, info, budget):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.forks = []         # conditions on which this path is one of two
        self.pending = []
        self.info = info
        self.pc = []
        self.lits = {}
        self.keep = []
        self.solver = z3.Solver()
        self.solver.set('timeout', Q_TIMEOUT)
        self.facts = []
        self.n = 0
        self.budget = budget
        self.inputs = {}
        self.loops = []
        self.lastloop = {}
        self.solver_s = 0.0
        self.checks = 0
        self.wticks = {}
        self.probes = ''        # characters that make a difference (see refined)
        self.text_of = None     # item of a list -> the text it consists of
        self.base_text = {}     # unknown part of a list -> its text
        self.run = None
        self.cut = False        # while loops: cut rule instead of unrolling
        self.wstate = {}
        self.sim = None

    def fresh(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def assume(self, e):
        e = zb(e)
        self.pc.append(e)
        self.solver.add(e)

    def sat(self, *es):
        t = time.time()
        self.checks += 1
        r = self.solver.check(*es)
        self.solver_s += time.time() - t
        return r

    def decide(self, e, fact=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = z3.is_not(e)
        base = e.arg(0) if neg else e
        k = base.get_id()
        if k in self.lits:
            return self.lits[k] != neg
        if self.pos < len(self.prefix):
            r, forked = self.prefix[self.pos]
        else:
            forked = False
            if len(self.decisions) > self.budget:
                raise Unsupported('path too long')
            t = self.sat(e) != z3.unsat
            f = self.sat(z3.Not(e)) != z3.unsat
            if t and f:
                self.pending.append(self.decisions + [(False, True)])
                r = forked = True
            elif t:
                r = True
            elif f:
                r = False
            else:
                raise PathEnd('infeasible')
        self.pos += 1
        self.decisions.append((r, forked))
        if forked:
            self.forks.append(base)
        c = e if r else z3.Not(e)
        self.pc.append(c)
        self.solver.add(c)
        self.lits[k] = (r != neg)
        self.keep.append(base)
        return r


def zb(e):
    if isinstance(e, SymBool):
        return e.z
    if isinstance(e, bool):
        return z3.BoolVal(e)
    return e


# ------------------------------------------------------------------- values
class Sym:
    def __deepcopy__(self, memo):
        return self          # opaque values are immutable

    def __copy__(self):
        return self

    __slots__ = ()

    def __hash__(self):
        if not HASHING:
            raise Unsupported('hash of a symbolic value')
        return id(self)


HASHING = 0


def store_key(d, k, x):
    """d[k] = x under a symbolic key, which is found by comparison (API.getitem, API.setitem)"""
    global HASHING
    HASHING += 1
    try:
        d[k] = x
    finally:
        HASHING -= 1


class Poison(Sym):
    """A local that may hold a value of an earlier iteration: must not be read."""

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _u(self, *_a, **_k):
        raise Unsupported('loop-carried value read: %s' % self.why)
    __getattr__ = __bool__ = __eq__ = __ne__ = __add__ = __radd__ = __lt__ = __le__ = __gt__ = _u
    __ge__ = __sub__ = __rsub__ = __iter__ = __call__ = __getitem__ = __contains__ = __str__ = _u

    def __hash__(self):
        self._u()


class SymBool(Sym):
    __slots__ = ('z', 'fact')

    def __init__(self, z, fact=None):
        self.z = z
        self.fact = fact

    def __bool__(self):
        r = CTX.decide(self.z)
        if self.fact is not None:
            CTX.facts.append((self.fact, r))
        return r

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        if isinstance(o, bool):
            return SymBool(self.z if o else z3.Not(self.z))
        if isinstance(o, SymVal):
            return o == self
        return False

    def __ne__(self, o):
        return API.not_(self == o)
    __hash__ = Sym.__hash__


class SymInt(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @staticmethod
    def of(o):
        if isinstance(o, SymInt):
            return o.z
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SymVal):
            return o.as_int().z
        if isinstance(o, SymBool):
            return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
        return None

    def _b(self, o, f):
        z = SymInt.of(o)
        return NotImplemented if z is None else SymInt(f(self.z, z))

    def _c(self, o, f):
        z = SymInt.of(o)
        return NotImplemented if z is None else SymBool(f(self.z, z))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.z < 0, -self.z, self.z))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:        # z3's div and mod round like Python's for positive divisors
            return SymInt(self.z / o)
        raise Unsupported('division of symbolic integers')

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.z % o)
        raise Unsupported('division of symbolic integers')

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        z = SymInt.of(o)
        return SymBool(self.z == z) if z is not None else False

    def __ne__(self, o):
        return API.not_(self == o)

    def __bool__(self):
        return CTX.decide(self.z != 0)

    def __index__(self):
        raise Unsupported('symbolic index')
    __hash__ = Sym.__hash__

    def __str__(self):
        raise Unsupported('str of symbolic int')


# --- strings: a sequence of segments
class Atom:
    """A whole unknown string; `charset` over-approximates its characters."""
    __slots__ = ('name', 'z', 'charset')

    def __init__(self, name, z, charset=None):
        self.name, self.z, self.charset = name, z, charset

    def key(self):
        return ('atom', self.name)


class Hom:
    """h applied to every character of an atom: `cases` maps single characters to
    replacement strings; every other character stands for itself."""
    __slots__ = ('atom', 'cases', 'z')

    def __init__(self, atom, cases):
        self.atom, self.cases = atom, cases
        self.z = z3.String('hom!%s!%s' % (atom.name, sorted(cases.items())))

    def key(self):
        return ('hom', self.atom.name, tuple(sorted(self.cases.items())))


class Fn:
    """An uninterpreted total function of strings (a builtin we only know to be one)."""
    __slots__ = ('fname', 'args', 'z', 'charset')

    def __init__(self, fname, args, z, charset=None):
        self.fname, self.args, self.z, self.charset = fname, args, z, charset

    def key(self):
        return ('fn', self.fname, self.args)


class JoinSeg:
    """sep.join(list with generic elements)"""
    __slots__ = ('sep', 'items', 'z')

    def __init__(self, sep, items):
        self.sep, self.items = sep, items
        self.z = z3.String(CTX.fresh('join'))

    def key(self):
        def k(i):
            if isinstance(i, Seg):
                return ('seg', i.src.name, tuple(skey(x) for x in i.outs), i.opaque)
            return skey(i)
        return ('join', skey(self.sep), tuple(k(i) for i in self.items))


class MapSeg:
    """concatenation over all elements of `src`, of which `out` is the generic one"""
    __slots__ = ('src', 'out', 'z')

    def __init__(self, src, out):
        self.src, self.out = src, out
        self.z = z3.String(CTX.fresh('map'))

    def key(self):
        return ('mapseg', self.src.name, skey(self.out))


class AccBase:
    __slots__ = ('name', 'z')

    def __init__(self, name):
        self.name = name
        self.z = z3.String(name)

    def key(self):
        return ('acc', self.name)


def skey(x):
    if isinstance(x, str):
        return ('s', (('lit', x),) if x else ())
    if isinstance(x, SymStr):
        return ('s', tuple(('lit', s) if isinstance(s, str) else s.key() for s in x.segs))
    if isinstance(x, SymVal):
        return ('v', x.z.sexpr())
    if isinstance(x, (SymInt, SymBool)):
        return ('z', x.z.sexpr())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(skey(i) for i in x))
    if isinstance(x, SymList):
        return ('symlist', x.name)
    if isinstance(x, Seg):
        return ('seg', x.src.name, tuple(skey(i) for i in x.outs), x.opaque)
    return ('py', repr(x))


class SymStr(Sym):
    __slots__ = ('segs',)

    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, str):
                if not s:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += s
                    continue
            out.append(s)
        self.segs = out

    @staticmethod
    def var(name, charset=None):
        return SymStr([Atom(name, z3.String(name), charset)])

    @staticmethod
    def of(o):
        if isinstance(o, SymStr):
            return o
        if isinstance(o, str):
            return SymStr([o])
        if isinstance(o, SymVal):
            return o.as_str()
        return None

    @property
    def z(self):
        ps = [z3.StringVal(zesc(s)) if isinstance(s, str) else s.z for s in self.segs]
        if not ps:
            return z3.StringVal('')
        return ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def charset(self):
        cs = CharSet.none()
        for s in self.segs:
            if isinstance(s, str):
                cs = cs | CharSet(s)
            elif isinstance(s, (Atom, Fn)):
                cs = cs | (s.charset or CharSet.all())
            elif isinstance(s, Hom):
                base = s.atom.charset or CharSet.all()
                cs = cs | (base - CharSet(''.join(s.cases)))
                for c, r in s.cases.items():
                    if c in base:
                        cs = cs | CharSet(r)
            elif isinstance(s, MapSeg):
                cs = CharSet.all()
            else:
                cs = CharSet.all()
        return cs

    def atom(self):
        """the single atom this string is, or None"""
        if len(self.segs) == 1 and isinstance(self.segs[0], Atom):
            return self.segs[0]
        return None

    def conc(self):
        if not self.segs:
            return ''
        if len(self.segs) == 1 and isinstance(self.segs[0], str):
            return self.segs[0]
        return None

    def __eq__(self, o):
        o = SymStr.of(o) if isinstance(o, (str, SymStr, SymVal)) else None
        if o is None:
            return False
        if skey(self) == skey(o):
            return True
        return SymBool(self.z == o.z, ('streq', self, o))

    def __ne__(self, o):
        return API.not_(self == o)

    def __add__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return SymStr(self.segs + o.segs)

    def __radd__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return SymStr(o.segs + self.segs)

    def __bool__(self):
        if any(isinstance(s, str) for s in self.segs):
            return True
        r = CTX.decide(self.z != z3.StringVal(''))
        CTX.facts.append((('nonempty', self), r))
        return r

    def contains(self, o):
        o = SymStr.of(o)
        return SymBool(z3.Contains(self.z, o.z), ('contains', self, o))

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith with bounds')
        if isinstance(p, tuple):
            return SymBool(z3.Or([zb(self.startswith(x)) for x in p]))
        p = SymStr.of(p)
        return SymBool(z3.PrefixOf(p.z, self.z), ('startswith', self, p))

    def endswith(self, p):
        if isinstance(p, tuple):
            return SymBool(z3.Or([zb(self.endswith(x)) for x in p]))
        p = SymStr.of(p)
        return SymBool(z3.SuffixOf(p.z, self.z), ('endswith', self, p))

    def _hom(self, cases):
        out = []
        for s in self.segs:
            if isinstance(s, str):
                out.append(''.join(cases.get(c, c) for c in s))
            elif isinstance(s, Atom):
                out.append(Hom(s, dict(cases)))
            elif isinstance(s, Hom):
                n = {c: ''.join(cases.get(x, x) for x in r) for c, r in s.cases.items()}
                for c, r in cases.items():
                    n.setdefault(c, r)
                out.append(Hom(s.atom, n))
            elif isinstance(s, Fn):
                cs = s.charset or CharSet.all()
                image = cs - CharSet(''.join(cases))
                for c, r in cases.items():
                    if c in cs:
                        image = image | CharSet(r)
                out += SymStr([s])._fn('hom', repr(sorted(cases.items())), charset=image).segs
            else:
                raise Unsupported('replace on %s' % type(s).__name__)
        return SymStr(out)

    def replace(self, a, b, *cnt):
        a = a if isinstance(a, str) else (SymStr.of(a).conc())
        if a is not None and not cnt and isinstance(b, SymStr) and b.conc() is None:
            return self._fn('replace', a, b, charset=self.charset() | b.charset())
        b = b if isinstance(b, str) else (SymStr.of(b).conc())
        if a is None or b is None or cnt:
            raise Unsupported('replace with symbolic arguments')
        if len(a) == 1:
            return self._hom({a: b})
        return self._fn('replace', a, b, charset=self.charset() | CharSet(b))

    def _fn(self, name, *args, charset=None):
        f = z3.Function('str.' + name, *([z3.StringSort()] * (1 + len(args))), z3.StringSort())
        zs = [self.z] + [SymStr.of(a).z for a in args]
        return SymStr([Fn(name, (skey(self),) + tuple(skey(a) for a in args), f(*zs),
                          charset if charset is not None else CharSet.all())])

    def lower(self): return self._fn('lower')
    def upper(self): return self._fn('upper')
    def strip(self, *a): return self._fn('strip', *a, charset=self.charset())
    def lstrip(self, *a): return self._fn('lstrip', *a, charset=self.charset())
    def rstrip(self, *a): return self._fn('rstrip', *a, charset=self.charset())
    def isspace(self): return self._pred('isspace')
    def isalpha(self): return self._pred('isalpha')
    def isdigit(self): return self._pred('isdigit')
    def isalnum(self): return self._pred('isalnum')

    def _pred(self, name):
        f = z3.Function('str.' + name, z3.StringSort(), z3.BoolSort())
        a = self.atom()
        if isinstance(a, Chr):     # what it says about ASCII characters is known
            ascii_ = [chr(i) for i in range(128)]
            yes = CharSet(''.join(c for c in ascii_ if getattr(c, name)()))
            CTX.assume(z3.Implies(a.code < 128, f(self.z) == yes.z(a.code)))
        return SymBool(f(self.z))

    def split(self, *a):
        return SymSplit(self, a)

    def splitlines(self, keepends=False):
        k = ('splitlines', skey(self), bool(keepends))
        return CTX_list(k, lambda nm: SymStr.var(nm))

    def join(self, items):
        items = list(items) if not isinstance(items, (SymList,)) else items.as_items()
        if any(isinstance(i, Seg) for i in items):
            items = drop_empty(items)
        if any(isinstance(i, Seg) for i in items):
            if items and isinstance(items[0], (str, SymStr)) and all(
                    isinstance(x, (str, SymStr)) or (isinstance(x, Seg) and not x.opaque and len(x.outs) == 1 and isinstance(x.outs[0], (str, SymStr)))
                    for x in items):
                # the separator precedes every item but the first
                r = SymStr.of(items[0])
                for x in items[1:]:
                    r = r + (SymStr([MapSeg(x.src, self + x.outs[0])]) if isinstance(x, Seg) else self + x)
                return r
            return SymStr([JoinSeg(self, items)])
        out = []
        for n, i in enumerate(items):
            if n:
                out += self.segs
            s = SymStr.of(i)
            if s is None:
                raise TypeError('sequence item %d: expected str instance' % n)
            out += s.segs
        return SymStr(out)

    def zlen(self):
        tot = z3.IntVal(0)
        for s in self.segs:
            tot = tot + (len(s) if isinstance(s, str) else z3.Length(s.z))
        return z3.simplify(tot)

    def getitem(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice step')
            lo = SymInt.of(i.start or 0)
            n = self.zlen()
            hi = n if i.stop is None else SymInt.of(i.stop)
            lo = z3.If(lo < 0, z3.If(lo + n < 0, z3.IntVal(0), lo + n), z3.If(lo > n, n, lo))
            hi = z3.If(hi < 0, z3.If(hi + n < 0, z3.IntVal(0), hi + n), z3.If(hi > n, n, hi))
            t = z3.simplify(z3.SubString(self.z, lo, hi - lo))
            return SymStr([Fn('slice', (skey(self), str(lo), str(hi)), t, self.charset())])
        z = SymInt.of(i)
        n = self.zlen()
        z = z3.If(z < 0, z + n, z)
        if not CTX.decide(z3.And(z >= 0, z < n)):
            raise IndexError('string index out of range')
        t = z3.simplify(z3.SubString(self.z, z, 1))
        return SymStr([Fn('at', (skey(self), str(z)), t, self.charset())])

    def chars(self):
        """the list of the characters"""
        if self.conc() is not None:
            return list(self.conc())
        out = []
        for s in self.segs:
            if isinstance(s, str):
                out += list(s)
            elif isinstance(s, Chr):
                out.append(SymStr([s]))
            elif isinstance(s, (Atom, Fn)):
                k = ('chars', s.key())
                l = CTX_list(k, lambda nm, s=s: SymStr([Chr(nm, s)]))
                l.z_len = z3.Length(s.z)
                CTX.assume(l.n == l.z_len)
                l.of_atom = s
                out.append(Seg(l, [l.elem]))
            else:
                raise Unsupported('iterating over %s' % type(s).__name__)
        return out

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic string')

    __hash__ = Sym.__hash__

    def __str__(self):
        raise Unsupported('native str() of a symbolic string')

    def __repr__(self):
        return '<SymStr %s>' % (self.segs,)

    def isidentifier(self):
        return self._pred('isidentifier')

    def format(self, *a, **k):
        raise Unsupported('format')


class Chr(Atom):
    """One generic character of a string."""
    __slots__ = ('code', 'src')

    def __init__(self, name, src):
        super().__init__(name, z3.String(name), src.charset)
        self.src = src
        self.code = z3.Int(name + '.code')
        CTX.assume(z3.Length(self.z) == 1)
        CTX.assume(z3.StrToCode(self.z) == self.code)
        CTX.assume(z3.Contains(src.z, self.z))
        if src.charset is not None:
            CTX.assume(src.charset.z(self.code))


class SymSplit(Sym):
    def __init__(self, s, a):
        self.s, self.a = s, a

    def getitem(self, i):
        if not isinstance(i, int):
            raise Unsupported('split[...]')
        nf = z3.Function('split.len', z3.StringSort(), z3.IntSort())
        f = z3.Function('split.at%d' % i, z3.StringSort(), z3.StringSort())
        k = (self.s,) + self.a
        z = self.s.z if not self.a else z3.Concat(self.s.z, z3.StringVal('\x00'), SymStr.of(self.a[0]).z)
        n = nf(z)
        CTX.assume(n >= (1 if self.a else 0))
        if not CTX.decide(n > (i if i >= 0 else -i - 1)):
            raise IndexError('list index out of range')
        return SymStr([Fn('split%d' % i, tuple(skey(x) for x in k), f(z), self.s.charset())])

    def __getattr__(self, n):
        raise Unsupported('split().%s' % n)
    __hash__ = Sym.__hash__


def zesc(s):
    return ''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s)


class SymVal(Sym):
    """A dynamically typed value."""
    __slots__ = ('z', 'name')

    def __init__(self, z, name=None):
        self.z = z
        self.name = name

    @staticmethod
    def lift(o):
        if isinstance(o, SymVal):
            return o.z
        if o is None:
            return Val.none
        if isinstance(o, bool):
            return Val.b(z3.BoolVal(o))
        if isinstance(o, int):
            return Val.i(z3.IntVal(o))
        if isinstance(o, str):
            return Val.s(z3.StringVal(zesc(o)))
        if isinstance(o, SymBool):
            return Val.b(o.z)
        if isinstance(o, SymInt):
            return Val.i(o.z)
        if isinstance(o, SymStr):
            return Val.s(o.z)
        return None

    def eqz(self, o):
        z = SymVal.lift(o)
        if z is None:
            return None
        # Python identifies True == 1 and False == 0
        if isinstance(o, bool):
            return z3.Or(self.z == z, self.z == Val.i(z3.IntVal(int(o))))
        if isinstance(o, int):
            if o in (0, 1):
                return z3.Or(self.z == z, self.z == Val.b(z3.BoolVal(bool(o))))
            return self.z == z
        return self.z == z

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (list, tuple, dict, set)) or (not isinstance(o, (Sym, str, int, type(None)))):
            if isinstance(o, (list, dict)) and not o:
                t = Val.is_l if isinstance(o, list) else Val.is_d
                acc = Val.lv if isinstance(o, list) else Val.dv
                return SymBool(z3.And(t(self.z), z3.Not(NONEMPTY(acc(self.z)))))
            if isinstance(o, (list, dict)):
                raise Unsupported('comparison of an opaque value with a container')
            return False
        z = self.eqz(o)
        return SymBool(z) if z is not None else False

    def __ne__(self, o):
        return API.not_(self == o)

    def truthz(self):
        z = self.z
        return z3.Or(z3.And(Val.is_b(z), Val.bv(z)), z3.And(Val.is_i(z), Val.iv(z) != 0),
                     z3.And(Val.is_s(z), Val.sv(z) != z3.StringVal('')),
                     z3.And(Val.is_l(z), NONEMPTY(Val.lv(z))),
                     z3.And(Val.is_d(z), NONEMPTY(Val.dv(z))), Val.is_o(z))

    def __bool__(self):
        return CTX.decide(self.truthz())

    def isinst(self, t):
        z = self.z
        if t is bool:
            return Val.is_b(z)
        if t is int:
            return z3.Or(Val.is_i(z), Val.is_b(z))
        if t is str:
            return Val.is_s(z)
        if t is list:
            return Val.is_l(z)
        if t is dict:
            return Val.is_d(z)
        if t is types.NoneType:
            return Val.is_none(z)
        if t is tuple or t is set or t is float or isinstance(t, type):
            return z3.BoolVal(False)
        raise Unsupported('isinstance %r' % (t,))

    def as_str(self):
        if not CTX.decide(Val.is_s(self.z)):
            raise AttributeError('not a string')
        return SymStr([Atom(str(self.z), Val.sv(self.z))])

    def as_int(self):
        if CTX.decide(Val.is_i(self.z)):
            return SymInt(Val.iv(self.z))
        if CTX.decide(Val.is_b(self.z)):
            return SymInt(z3.If(Val.bv(self.z), z3.IntVal(1), z3.IntVal(0)))
        raise TypeError('not an int')

    def __lt__(self, o): return self.as_int() < o
    def __le__(self, o): return self.as_int() <= o
    def __gt__(self, o): return self.as_int() > o
    def __ge__(self, o): return self.as_int() >= o
    def __add__(self, o): return (self.as_str() + o) if isinstance(o, (str, SymStr)) else self.as_int() + o
    def __radd__(self, o): return (SymStr.of(o) + self.as_str()) if isinstance(o, (str, SymStr)) else self.as_int() + o
    def __sub__(self, o): return self.as_int() - o

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            s = self.as_str()
            return getattr(s, n)
        raise Unsupported('attribute %s of an opaque value' % n)

    def __iter__(self):
        raise Unsupported('iterating over an opaque value')
    __hash__ = Sym.__hash__

    def __str__(self):
        raise Unsupported('str() of opaque')

    def __repr__(self):
        return '<SymVal %s>' % self.name


class SymList(Sym):
    """A list of unknown length n >= 0; `elem` is its element at an arbitrary index."""

    def __init__(self, name, mk, minlen=0):
        self.name = name
        self._mk = mk
        self._elem = None
        self.n = z3.Int(name + '.len')
        CTX.assume(self.n >= minlen)
        self.fold = None
        self.zid = z3.Int(name + '.id')
        self.of_atom = None
        self.unique = False

    @property
    def elem(self):
        if self._elem is None:
            self._elem = self._mk(self.name + '[k]')
        return self._elem

    def as_items(self):
        return [Seg(self, [self.elem])]

    def __bool__(self):
        return CTX.decide(self.n > 0)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, list) and not o:
            return SymBool(self.n == 0)
        if o is None or isinstance(o, (str, int, bool, SymStr, SymVal)):
            return False
        if isinstance(o, list) and len(o) == 1 and isinstance(o[0], Seg) and o[0].src is self \
                and len(o[0].outs) == 1 and o[0].outs[0] is self.elem:
            return True
        raise Unsupported('comparison of symbolic lists')

    def __ne__(self, o):
        return API.not_(self == o)

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic list')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('method %s of a symbolic list' % n)
    __hash__ = Sym.__hash__

    def __repr__(self):
        return '<SymList %s>' % self.name


class Seg(Sym):
    """Inside a Python list: the part contributed by the elements of `src`, of which
    `outs` are the items contributed by the generic element (opaque: unknown)."""
    __slots__ = ('src', 'outs', 'opaque')

    def __init__(self, src, outs, opaque=False):
        self.src, self.outs, self.opaque = src, outs, opaque

    def _u(self, *a, **k):
        raise Unsupported('symbolic part of a list used as an item')
    __getattr__ = __bool__ = __iter__ = __len__ = __getitem__ = __add__ = __radd__ = __lt__ = __gt__ = _u

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Seg) and o.src is self.src and not o.opaque and not self.opaque:
            return self.outs == o.outs
        raise Unsupported('comparing a symbolic part of a list')

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '<Seg %s %r>' % (self.src.name, self.outs)
    __hash__ = Sym.__hash__


class LBase(Sym):
    """The unknown bottom part of a stack-like Python list (simulation rule)."""
    __slots__ = ('name', 'n', 'kind', 'split', 'allp')

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.n = z3.Int(name + '.len')
        self.allp = z3.Bool(name + '.all')
        CTX.assume(self.n >= 0)
        CTX.assume(z3.Implies(self.n == 0, self.allp))
        self.split = None

    def parts(self):
        """-> (rest, top); precondition: nonempty (decided by the caller)"""
        if self.split is None:
            r = LBase(self.name + "'", self.kind)
            if self.kind == 'bool':
                t = SymBool(z3.Bool(self.name + '.top'))
                CTX.assume(self.allp == z3.And(r.allp, t.z))
            else:
                raise Unsupported('stack of %s' % self.kind)
            CTX.assume(self.n == r.n + 1)
            self.split = (r, t)
        return self.split

    def _u(self, *a, **k):
        raise Unsupported('unknown part of a list used as an item')
    __getattr__ = __bool__ = __iter__ = __len__ = __getitem__ = _u

    def __eq__(self, o):
        if o is self:
            return True
        self._u()
    __hash__ = Sym.__hash__


class SymSet(Sym):
    """A set of unknown strings."""

    def __init__(self, name):
        self.name = name
        self.f = z3.Function(name, z3.StringSort(), z3.BoolSort())

    def contains(self, o):
        return SymBool(self.f(SymStr.of(o).z))

    def __iter__(self):
        raise Unsupported('iterating over a symbolic set')

    def __getattr__(self, n):
        raise Unsupported('method %s of a symbolic set' % n)
    __hash__ = Sym.__hash__


class SymMatch(SymBool):
    """result of re.match & co: only its truth is known"""
    __slots__ = ()

    def __getattr__(self, n):
        raise Unsupported('match object')


class SymDict(Sym):
    """A dictionary given as a partial map over known keys: key -> (present, value).
    No other key is present."""

    def __init__(self, name, entries):
        self.name = name
        self.e = entries            # key -> [SymBool|bool, value]

    def get(self, k, d=None):
        if not isinstance(k, str):
            raise Unsupported('symbolic key')
        if k in self.e and bool(self.e[k][0]):
            return self.e[k][1]
        return d

    def getitem(self, k):
        if not isinstance(k, str):
            raise Unsupported('symbolic key')
        if k in self.e and bool(self.e[k][0]):
            return self.e[k][1]
        raise KeyError(k)

    def setitem(self, k, v):
        self.e[k] = [True, v]

    def contains(self, k):
        if k in self.e:
            return self.e[k][0]
        return False

    def keys(self):
        return [k for k in self.e if bool(self.e[k][0])]

    def items(self):
        return [(k, self.e[k][1]) for k in self.keys()]

    def values(self):
        return [self.e[k][1] for k in self.keys()]

    def pop(self, k, *d):
        if k in self.e and bool(self.e[k][0]):
            v = self.e[k][1]
            self.e[k] = [False, None]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def __bool__(self):
        return any(bool(p) for p, _ in self.e.values())

    def __iter__(self):
        return iter(self.keys())
    __hash__ = Sym.__hash__


class GenDict(Sym):
    """A dictionary of which only the pairs are known, in their order, any number of them"""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs

    def __bool__(self):
        return any(isinstance(x, tuple) or CTX.decide(x.src.n > 0) for x in items_of(self.pairs))
    __hash__ = Sym.__hash__


class Tape(Sym):
    """An unknown text that is read by position; only what was read of it is known.
    Cells: ('char', s), ('kept' | 'dropped', s): read as a whole by a function whose contract is used,
    ('loop', kept, characters of what was dropped): read by earlier iterations of a loop."""

    def __init__(self, name='text'):
        self.name, self.cells, self.end = name, [], False

    def cell(self, i):
        if i > len(self.cells):
            raise Unsupported('reads ahead of what was read')
        if i == len(self.cells):
            if not self.end and CTX.decide(z3.Bool(CTX.fresh(self.name + '.end'))):
                self.end = True
            if self.end:
                return None
            src = SymStr.var(CTX.fresh(self.name + '.c'), None)
            self.cells.append(('char', SymStr([Chr(CTX.fresh(self.name + '.c'), src.atom())])))
        return self.cells[i]

    def char(self, i):
        if i < 0:
            raise Unsupported('a position before the text')
        for k in range(len(self.cells), i):
            if self.cell(k) is None:
                return None
        c = self.cell(i)
        if c is not None and c[0] != 'char':
            raise Unsupported('reads again what was read as a whole')
        return None if c is None else c[1]

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None or type(i.start) is not int or type(i.stop) is not int:
                raise Unsupported('slice of an unknown text')
            out = SymStr([])
            for k in range(i.start, i.stop):
                c = self.char(k)
                if c is None:
                    break
                out = out + c
            return out
        c = self.char(i)
        if c is None:
            raise IndexError('string index out of range')
        return c

    def len(self):
        return TapeLen(self)

    def put(self, pos, cell):
        """a cell is read at `pos`; what is behind it is unknown -> new position"""
        self.cells[pos:] = [cell]
        self.end = False
        return pos + 1

    def stop(self):
        self.end = True

    def read(self, start, stop, kinds=('char', 'kept', 'loop')):
        out = SymStr([])
        for c in self.cells[start:stop]:
            if c[0] in kinds:
                out = out + c[1]
        return out

    def dropped(self, start, stop):
        cs = CharSet.none()
        for c in self.cells[start:stop]:
            if c[0] == 'dropped':
                cs = cs | refined(c[1])
            elif c[0] == 'loop':
                cs = cs | c[2]
        return cs
    __hash__ = Sym.__hash__


class TapeLen(Sym):
    def __init__(self, tape):
        self.tape = tape

    def __le__(self, pos):
        return self.tape.cell(pos) is None

    def __gt__(self, pos):
        return self.tape.cell(pos) is not None

    def __eq__(self, pos):
        return self.tape.cell(pos) is None

    def __ne__(self, pos):
        return self.tape.cell(pos) is not None
    __hash__ = Sym.__hash__


def refined(s):
    """the characters of a string, as far as they matter, given what is known on this path"""
    cs = CharSet.none()
    for x in SymStr.of(s).segs:
        if isinstance(x, Chr):
            c = x.charset or CharSet.all()
            poss = [ch for ch in CTX.probes if ch in c and CTX.sat(x.code == ord(ch)) != z3.unsat]
            if CTX.sat(z3.And([x.code != ord(ch) for ch in poss])) == z3.unsat:
                cs = cs | CharSet(''.join(poss))
            else:
                cs = cs | (c - CharSet(''.join(ch for ch in CTX.probes if ch not in poss)))
        else:
            cs = cs | SymStr([x]).charset()
    return cs


def CTX_list(key, mk, minlen=0):
    d = CTX.inputs.setdefault('__lists', {})
    if key not in d:
        d[key] = SymList('L%d' % len(d), mk, minlen)
    return d[key]


# -------------------------------------------------------------------- loops
def has_sym_items(x):
    return type(x) in (list, tuple) and any(isinstance(i, (Seg, LBase)) for i in x)


def sym_iter(x):
    return isinstance(x, (SymList, SymStr, SymVal)) or has_sym_items(x)


def items_of(x):
    if isinstance(x, SymList):
        return x.as_items()
    if isinstance(x, SymStr):
        return x.chars()
    if isinstance(x, SymVal):
        s = x.as_str()
        return s.chars()
    return list(x)


REACH_SKIP = (str, int, float, bool, type(None), types.FunctionType, types.ModuleType, type,
              types.BuiltinFunctionType, types.MethodType, z3.AstRef)


def key_name(k):
    return str(skey(k)) if isinstance(k, Sym) else k


def reach(roots, maxdepth=7):
    """mutable containers reachable from the locals: id -> (obj, path, snapshot)"""
    seen = {}
    todo = [(v, (k,), 0) for k, v in roots.items() if not k.startswith('__vc')]
    while todo:
        o, path, d = todo.pop(0)
        if isinstance(o, REACH_SKIP) or id(o) in seen or d > maxdepth:
            continue
        if isinstance(o, SymList):
            if o._elem is not None:
                todo.append((o._elem, path + ('[k]',), d + 1))
            continue
        if isinstance(o, SymDict):
            seen[id(o)] = (o, path, {k: tuple(v) for k, v in o.e.items()})
            for k, (_p, v) in o.e.items():
                todo.append((v, path + (k,), d + 1))
            continue
        if isinstance(o, Seg):
            for n, x in enumerate(o.outs):
                todo.append((x, path + ('out%d' % n,), d + 1))
            continue
        if isinstance(o, Sym):
            continue
        if isinstance(o, list):
            seen[id(o)] = (o, path, list(o))
            for n, x in enumerate(o):
                todo.append((x, path + (n,), d + 1))
        elif isinstance(o, tuple):
            for n, x in enumerate(o):
                todo.append((x, path + (n,), d + 1))
        elif isinstance(o, (set, frozenset)):
            seen[id(o)] = (o, path, set(o))
        elif isinstance(o, dict):
            seen[id(o)] = (o, path, dict(o))
            for k, x in list(o.items()):
                todo.append((x, path + (('k', key_name(k)),), d + 1))
        elif hasattr(o, '__dict__') and type(o).__module__.startswith('vcc'):
            seen[id(o)] = (o, path, dict(o.__dict__))
            for k, x in list(o.__dict__.items()):
                todo.append((x, path + (k,), d + 1))
        elif hasattr(o, '__dict__') and type(o).__module__.startswith(('checks', 'pydv')):
            seen[id(o)] = (o, path, dict(o.__dict__))
            for k, x in list(o.__dict__.items()):
                todo.append((x, path + (k,), d + 1))
        elif isinstance(o, types.GeneratorType) or isinstance(o, types.FrameType):
            continue
    return seen


def owned(elem):
    r = reach({'e': elem})
    # an element does not own its parent container
    return r


class LoopState:
    def __init__(self, frame, lid, src, names):
        self.frame, self.lid, self.src, self.names = frame, lid, src, names
        self.mode = 'body'
        self.before = {}
        self.carried = {}
        self.exit = {}


def snapshot_of(o):
    if isinstance(o, list):
        return list(o)
    if isinstance(o, SymDict):
        return {k: tuple(v) for k, v in o.e.items()}
    if isinstance(o, (set, frozenset)):
        return set(o)
    if isinstance(o, dict):
        return dict(o)
    return dict(o.__dict__)


def same_shallow(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            (k is j or (not isinstance(k, Sym) and not isinstance(j, Sym) and k == j)) and
            ((p is q) or (type(p) is tuple and type(q) is tuple and all(x is y for x, y in zip(p, q))))
            for (k, p), (j, q) in zip(a.items(), b.items()))
    return a == b


def generic(fr, lid, src, elem, names):
    """One generic iteration: see DESIGN.md, 'loop rules'."""
    ctx = CTX
    info = ctx.info
    if not ctx.decide(src.n > 0):
        return
    if src.fold is not None:
        yield from simulate(fr, lid, src, elem, names)
        return
    loc = dict(fr.f_locals)
    ls = LoopState(fr, lid, src, names)
    ls.before = loc
    own = owned(elem)
    snap = reach(loc)
    accs = info.accs.setdefault(lid, set())
    acc_objs = {}
    for i, (o, path, _s) in snap.items():
        if path in accs and i not in own:
            acc_objs[i] = (o, list(o))
            o.append(Seg(src, [], True))
    for i, (o, path, _s) in snap.items():
        if isinstance(o, dict):
            for k in list(o):
                if (path, key_name(k)) in accs:
                    store_key(o, k, Poison('%s in %s' % (key_name(k), lid)))
    snap = {i: (o, p, snapshot_of(o)) for i, (o, p, _s) in snap.items()}
    own_before = set(own)
    ctx.loops.append(ls)
    try:
        yield elem
    finally:
        ctx.loops.remove(ls)
    # the body has completed normally (or by continue)
    for i, (o, path, before) in snap.items():
        if i in own_before and i not in acc_objs:
            continue                      # effects on the element itself
        now = snapshot_of(o)
        if same_shallow(before, now):
            continue
        if isinstance(o, list) and len(now) >= len(before) and same_shallow(before, now[:len(before)]):
            if i not in acc_objs:
                if path in accs:
                    raise Unsupported('accumulator %s aliases the element' % (path,))
                accs.add(path)
                raise Restart()
            continue
        if isinstance(o, dict) and list(map(id, before)) == list(map(id, now)):
            # values of existing keys change: unknown in and after the loop
            for (k, x), y in zip(now.items(), before.values()):
                if x is not y:
                    w = (path, key_name(k))
                    if w not in accs:
                        accs.add(w)
                        raise Restart()
                    store_key(o, k, Poison('%s after %s' % (key_name(k), lid)))
            continue
        raise Unsupported('%s: the loop body changes %s' % (lid, '.'.join(map(str, path))))
    for i, (o, orig) in acc_objs.items():
        added = o[len(orig) + 1:]
        if not added and not depends_on(src):
            o[:] = orig                   # nothing is added for any element
        else:
            o[:] = orig + [Seg(src, added)]
    now = fr.f_locals
    for n in names:
        b = loc.get(n, None)
        if n in loc:
            if (lid, n) not in info.changed:
                if n not in now or not (now[n] is b or (type(now[n]) is type(b) and isinstance(b, (bool, int, str)) and now[n] == b)):
                    info.changed.add((lid, n))
                    raise Restart()
                ls.exit[n] = b
                continue
            if info.stracc.get((lid, n)) is True and n in ls.carried:
                v = SymStr.of(now[n]) if isinstance(now.get(n), (str, SymStr)) else None
                c = ls.carried[n]
                if v is None or not v.segs or v.segs[0] is not c.segs[0] or \
                        any(s is c.segs[0] for s in v.segs[1:]):
                    info.stracc[(lid, n)] = 'no'
                    raise Restart()
                ls.exit[n] = SymStr.of(b) + SymStr([MapSeg(src, SymStr(v.segs[1:]))])
                continue
            v = now.get(n)
            if v is ls.carried.get(n):
                ls.exit[n] = b
            else:
                ls.exit[n] = Poison('%s after %s' % (n, lid))
        else:
            ls.exit[n] = Poison('%s after %s' % (n, lid))
    ls.mode = 'exit'
    ctx.lastloop[(id(fr), lid)] = ls


class Enumerated(tuple):
    """an element of enumerate(symbolic list)"""


class Fold:
    """A ghost specification automaton attached to a symbolic list:
    state: dict name -> value (int / bool / str / list of bool / frozen python value)
    step(state, elem) -> new state, executed with the same operations as the code."""

    def __init__(self, init, step, kinds):
        self.init, self.step, self.kinds = init, step, kinds
        self.final = None
        self.raised = None


def depends_on(src):
    """is this path one of several that treat different elements of `src` differently?"""
    mark = src.name + '[k]'
    return any(mark in str(f) for f in CTX.forks)


def kind_value(name, kind):
    if kind == 'int':
        return SymInt(z3.Int(name))
    if kind == 'bool':
        return SymBool(z3.Bool(name))
    if kind == 'str':
        return SymStr.var(name)
    if kind == 'val':
        return SymVal(z3.Const(name, Val), name)
    if kind == 'stack':
        return [LBase(name, 'bool')]
    if callable(kind):
        return kind(name)
    raise Unsupported('kind %s' % kind)


def gcopy(v):
    return list(v) if isinstance(v, list) else v


def drop_empty(xs):
    """without the parts that come from a list that is empty on this path"""
    return [x for x in xs if not (isinstance(x, Seg) and CTX.sat(x.src.n > 0) == z3.unsat)]


def provably_equal(a, b):
    """structural/solver equality of two program values, on the current path"""
    if isinstance(a, SymList) and isinstance(b, (list, SymList)):
        return a is b or provably_equal(a.as_items(), b.as_items() if isinstance(b, SymList) else b)
    if isinstance(b, SymList) and isinstance(a, list):
        return provably_equal(a, b.as_items())
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)):
            return False
        if len(a) != len(b):
            a, b = drop_empty(a), drop_empty(b)
        if len(a) != len(b):
            return False
        return all(provably_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, Seg) and isinstance(b, Seg):
        return a is b or (a.src is b.src and not a.opaque and not b.opaque and provably_equal(list(a.outs), list(b.outs)))
    if isinstance(a, (LBase, Seg)) or isinstance(b, (LBase, Seg)):
        return a is b
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    try:
        e = (a == b)
    except Unsupported:
        return False
    if isinstance(e, bool):
        return e and (type(a) is type(b) or isinstance(a, Sym) or isinstance(b, Sym) or a is b or type(a) in (int, str, bool))
    if isinstance(e, SymBool):
        return CTX.sat(z3.Not(e.z)) == z3.unsat
    return False


def kind_ok(v, kind):
    if isinstance(v, Poison):
        return False
    if kind == 'int':
        return isinstance(v, (int, SymInt)) and not isinstance(v, bool)
    if kind == 'bool':
        return isinstance(v, (bool, SymBool))
    if kind == 'str':
        return isinstance(v, (str, SymStr))
    if kind == 'stack':
        return isinstance(v, list)
    return True


def simulate(fr, lid, src, elem, names):
    """Simulation against the ghost automaton of `src`: candidates `local == ghost
    component` are kept while they hold initially and are preserved (Houdini)."""
    ctx = CTX
    info = ctx.info
    f = src.fold
    raw = elem[1] if isinstance(elem, Enumerated) else elem
    loc = dict(fr.f_locals)
    ls = LoopState(fr, lid, src, names)
    ls.before = loc
    snap = reach(loc)
    bad = info.badcand
    cands = []
    conts = {}
    for n in names:
        if n in loc:
            for g in f.init:
                if (lid, n, g) in bad:
                    continue
                if kind_ok(loc[n], f.kinds[g]) and provably_equal(loc[n], f.init[g]):
                    cands.append((n, g))
                else:
                    bad.add((lid, n, g))
    for i, (o, path, _s) in snap.items():
        if isinstance(o, list):
            for g in f.init:
                if f.kinds[g] == 'stack' and (lid, path, g) not in bad:
                    if provably_equal(o, f.init[g]):
                        conts.setdefault(i, (o, path, []))[2].append(g)
                    else:
                        bad.add((lid, path, g))
    # two paths: an arbitrary iteration, or the state after the loop
    it = SymBool(z3.Bool(ctx.fresh('iter')))
    gst = {g: kind_value(ctx.fresh('ghost_' + g), f.kinds[g]) for g in f.init}
    if getattr(f, 'inv', None) is not None:
        if ctx.sat(z3.Not(zb(f.inv({g: gcopy(v) for g, v in f.init.items()})))) != z3.unsat:
            raise Unsupported('the invariant of the specification does not hold initially')
        ctx.assume(zb(f.inv(gst)))
    mapping = {}
    for n, g in cands:
        mapping.setdefault(n, g)
    for n, g in cands:                       # several candidates: assume all equal
        if mapping[n] != g:
            a, b = gst[mapping[n]], gst[g]
            if not isinstance(a, list):
                ctx.assume(zb(a == b))
    accs = info.accs.setdefault(lid, set())
    acc_objs = {}
    for i, (o, path, _s) in snap.items():
        if i in conts:
            continue
        if path in accs:
            acc_objs[i] = (o, list(o))
            o.append(Seg(src, [], True))
    for i, (o, path, gs) in conts.items():
        o[:] = gcopy(gst[gs[0]])
    snap2 = {i: (o, p, snapshot_of(o)) for i, (o, p, _s) in snap.items()}
    if bool(it):
        for n in names:
            if n in loc:
                ls.carried[n] = gcopy(gst[mapping[n]]) if n in mapping else Poison('%s in %s' % (n, lid))
                if n in mapping and isinstance(gst[mapping[n]], list):
                    # keep the identity: the container rule has filled it in place
                    ls.carried[n] = loc[n]
        ls.mode = 'sim'
        ctx.loops.append(ls)
        f.cur = {g: gcopy(v) for g, v in gst.items()}
        try:
            yield elem
        except GeneratorExit:
            # break / return / raise inside the body: the ghost takes the same step
            raise
        finally:
            ctx.loops.remove(ls)
        now = dict(fr.f_locals)
        try:
            nxt = f.step({g: gcopy(v) for g, v in gst.items()}, raw)
        except SpecReject as e:
            raise Violated('%s: the code goes on where the specification rejects: %s' % (lid, e)) from e
        if getattr(f, 'inv', None) is not None and ctx.sat(z3.Not(zb(f.inv(nxt)))) != z3.unsat:
            raise Unsupported('the invariant of the specification is not preserved')
        restart = False
        for n, g in cands:
            if n in conts_names(conts, loc, n):
                continue
            if not provably_equal(now.get(n), nxt[g]):
                bad.add((lid, n, g))
                restart = True
        for i, (o, path, gs) in conts.items():
            for g in gs:
                if not provably_equal(o, nxt[g]):
                    bad.add((lid, path, g))
                    restart = True
        for i, (o, path, before) in snap2.items():
            if i in conts:
                continue
            nowc = snapshot_of(o)
            if same_shallow(before, nowc):
                continue
            if isinstance(o, list) and same_shallow(before, nowc[:len(before)]):
                if i not in acc_objs:
                    accs.add(path)
                    raise Restart()
                continue
            raise Unsupported('%s: the loop body changes %s' % (lid, '.'.join(map(str, path))))
        for i, (o, orig) in acc_objs.items():
            added = o[len(orig) + 1:]
            chk = getattr(f, 'emit', None)
            if chk is None:
                raise Unsupported('%s: accumulator without a specification' % lid)
            f.emitted = added
            chk({g: gcopy(v) for g, v in gst.items()}, raw, added)
        if restart:
            raise Restart()
        raise PathEnd('iteration')
    # after the loop
    for i, (o, orig) in acc_objs.items():
        o[:] = orig + [Seg(src, ['<emitted>'])]
    for n in names:
        if n in loc:
            if n in mapping:
                ls.exit[n] = loc[n] if isinstance(gst[mapping[n]], list) else gst[mapping[n]]
            else:
                ls.exit[n] = Poison('%s after %s' % (n, lid))
        else:
            ls.exit[n] = Poison('%s after %s' % (n, lid))
    f.final = {g: gcopy(v) for g, v in gst.items()}
    f.mapped = mapping
    ls.mode = 'exit'
    ctx.lastloop[(id(fr), lid)] = ls


def conts_names(conts, loc, n):
    return {n} if id(loc.get(n)) in conts else ()


# ---------------------------------------------------------------------- API
def anysym(xs):
    for x in xs:
        if isinstance(x, Sym):
            return True
        if type(x) in (list, tuple) and anysym(x):
            return True
    return False


class _API:
    # ---- control
    @staticmethod
    def truth(x):
        if CTX is None:
            return x
        if type(x) is list or type(x) is tuple:
            if has_sym_items(x):
                if any(not isinstance(i, (Seg, LBase)) for i in x):
                    return True
                if any(isinstance(i, Seg) and i.outs and not i.opaque for i in x):
                    return True
                zs = []
                for i in x:
                    if isinstance(i, LBase):
                        zs.append(i.n > 0)
                    else:
                        zs.append(z3.Bool('nonempty!%s' % (skey(i),)))
                return CTX.decide(z3.Or(zs))
        return bool(x) if isinstance(x, Sym) else x

    @staticmethod
    def not_(x):
        if isinstance(x, SymBool):
            f = ('not', x.fact) if x.fact is not None else None
            return SymBool(z3.Not(x.z), f)
        if isinstance(x, SymVal):
            return SymBool(z3.Not(x.truthz()))
        return not API.truth(x)

    @staticmethod
    def and_(a, rhs):
        if isinstance(a, SymBool):
            if not bool(a):
                return False
            return rhs()
        return rhs() if API.truth(a) else a

    @staticmethod
    def or_(a, rhs):
        if isinstance(a, SymBool):
            if bool(a):
                return True
            return rhs()
        return a if API.truth(a) else rhs()

    @staticmethod
    def is_(a, b):
        if isinstance(b, SymVal) and not isinstance(a, SymVal):
            a, b = b, a
        if isinstance(a, SymVal):
            if b is None:
                return SymBool(Val.is_none(a.z))
            if b is True or b is False:
                return SymBool(a.z == Val.b(z3.BoolVal(b)))
            if isinstance(b, (SymVal, SymBool, SymStr)):
                if a is b:
                    return True
                raise Unsupported('identity of symbolic values')
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SymBool) and isinstance(y, bool):
                return SymBool(x.z if y else z3.Not(x.z))
        return a is b

    @staticmethod
    def contains(item, cont):
        if CTX is None:
            return item in cont
        if isinstance(cont, SymVal):
            cont = cont.as_str()
        if isinstance(cont, (SymStr, SymSet, SymDict)) or type(cont).__module__.startswith('checks') and hasattr(cont, 'contains'):
            return cont.contains(item)
        if isinstance(cont, str) and isinstance(item, (SymStr, SymVal)):
            item = SymStr.of(item)
            a = item.atom() if isinstance(item, SymStr) else None
            if len(item.segs) == 1 and (isinstance(item.segs[0], Chr) or getattr(item.segs[0], 'fname', '') == 'at'):
                return SymBool(z3.Or([item.z == z3.StringVal(zesc(c)) for c in cont]),
                               ('charin', item, cont))
            return SymBool(z3.Contains(z3.StringVal(zesc(cont)), item.z))
        if isinstance(cont, SymList) or has_sym_items(cont):
            c2 = [i for i in (cont.as_items() if isinstance(cont, SymList) else cont)]
            for i in c2:
                if not isinstance(i, (Seg, LBase)) and provably_equal(i, item):
                    return True
                if isinstance(i, Seg) and any(o is item for o in i.outs):
                    return True
            raise Unsupported('membership in a symbolic list')
        if isinstance(item, Sym) and isinstance(cont, (list, tuple, set, frozenset, dict, type({}.keys()))):
            zs = []
            for c in cont:
                e = (item == c)
                if e is True:
                    return True
                if isinstance(e, SymBool):
                    zs.append(e.z)
            return SymBool(z3.Or(zs)) if zs else False
        return item in cont

    # ---- operators
    @staticmethod
    def add(a, b):
        if isinstance(a, list) and isinstance(b, SymList):
            b = b.as_items()
        return a + b

    @staticmethod
    def iadd(a, b):
        if isinstance(a, list) and isinstance(b, SymList):
            b = b.as_items()
        return operator.iadd(a, b)

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if CTX is not None and anysym(args):
                parts, n = [], 0
                for m in re.finditer(r'%(0\d+d|.)|[^%]+', a, re.S):
                    if m.group(1) is None:
                        parts.append(m.group(0))
                    elif m.group(1) == '%':
                        parts.append('%')
                    elif m.group(1) in 'srd':
                        parts.append(API.tostr(args[n], m.group(1)))
                        n += 1
                    elif len(m.group(1)) > 2 and m.group(1)[0] == '0' and (isinstance(args[n], SymInt) and CTX.sat(args[n].z < 0) == z3.unsat
                                                                           or type(args[n]) is int):
                        z, t = SymInt.of(args[n]), z3.IntToStr(SymInt.of(args[n]))
                        for k in range(1, int(m.group(1)[1:-1])):
                            t = z3.If(z < 10 ** (int(m.group(1)[1:-1]) - k), z3.Concat(z3.StringVal('0' * k), z3.IntToStr(z)), t)
                        t2 = z3.String('fmt%s.%s' % (m.group(1), z))
                        CTX.assume(z3.And(t2 == t, z3.StrToInt(t2) == z))
                        t = t2
                        parts.append(SymStr([Fn('fmt' + m.group(1), (str(z),), t, CharSet('0123456789'))]))
                        n += 1
                    else:
                        if anysym(args):
                            raise Unsupported('format %s' % m.group(0))
                return SymStr([s for p in parts for s in SymStr.of(p).segs])
        if isinstance(a, SymStr):
            raise Unsupported('symbolic format string')
        return a % b

    @staticmethod
    def tostr(x, conv='s'):
        if conv == 'r' and isinstance(x, Sym):
            return SymStr([Fn('repr', (skey(x),), z3.String(CTX.fresh('repr')))])
        if isinstance(x, SymVal):
            if CTX.decide(Val.is_s(x.z)):
                return x.as_str()
            return SymStr([Fn('str', (skey(x),), z3.String(CTX.fresh('str')))])
        if isinstance(x, SymStr):
            return x
        if isinstance(x, SymInt):
            if CTX.sat(x.z < 0) == z3.unsat:
                return SymStr([Fn('str', (skey(x),), z3.IntToStr(x.z), CharSet('0123456789'))])
            return SymStr([Fn('str', (skey(x),), z3.If(x.z < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.z)), z3.IntToStr(x.z)),
                              CharSet('0123456789-'))])
        if isinstance(x, SymBool):
            return 'True' if x else 'False'
        if isinstance(x, (SymList, Seg)) or anysym([x]):
            return SymStr([Fn('str', (skey(x),), z3.String(CTX.fresh('str')))])
        return repr(x) if conv == 'r' else str(x)

    @staticmethod
    def fstr(parts):
        if CTX is None or not anysym([p[0] for p in parts if isinstance(p, tuple)]):
            out = []
            for p in parts:
                if isinstance(p, tuple):
                    v, conv, spec = p
                    if conv == 114:
                        v = repr(v)
                    elif conv == 115:
                        v = str(v)
                    elif conv == 97:
                        v = ascii(v)
                    out.append(format(v, spec or ''))
                else:
                    out.append(p)
            return ''.join(out)
        segs = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if spec and isinstance(v, Sym):
                    raise Unsupported('format spec')
                s = API.tostr(v, 'r' if conv == 114 else 's') if not spec else format(v, spec)
                segs += SymStr.of(s).segs
            else:
                segs.append(p)
        return SymStr(segs)

    @staticmethod
    def getitem(o, i):
        if CTX is None:
            return o[i]
        if isinstance(o, SymVal):
            if CTX.decide(Val.is_s(o.z)):
                return o.as_str().getitem(i)
            raise Unsupported('subscript of an opaque value')
        if isinstance(o, (SymStr, SymSplit, SymDict)):
            return o.getitem(i)
        if isinstance(o, SymList):
            return API.getitem(o.as_items(), i)
        if isinstance(o, str) and isinstance(i, (SymInt, SymVal)):
            return SymStr.of(o).getitem(i)
        if has_sym_items(o):
            if isinstance(i, int):
                if i == -1:
                    return API._top(o, False)
                if i >= 0 and all(not isinstance(x, (Seg, LBase)) for x in o[:i + 1]):
                    return o[i]
                if i < 0 and all(not isinstance(x, (Seg, LBase)) for x in o[i:]) and len(o) >= -i:
                    return o[i]
            if isinstance(i, slice) and i.step is None and i.stop is None and type(i.start) is int and 0 <= i.start <= len(o) \
                    and all(not isinstance(x, (Seg, LBase)) for x in o[:i.start]):
                return o[i.start:]
            raise Unsupported('index into a symbolic list')
        if isinstance(i, (SymStr, SymVal)) and isinstance(o, dict):
            for k, v in o.items():
                e = (i == k)
                if isinstance(e, SymBool):
                    e = bool(e)
                if e:
                    return v
            raise KeyError(i)
        return o[i]

    @staticmethod
    def _top(lst, pop):
        if not lst:
            raise IndexError('pop from empty list')
        x = lst[-1]
        if isinstance(x, LBase):
            if not CTX.decide(x.n > 0):
                if len(lst) > 1:
                    raise Unsupported('list below an unknown part')
                raise IndexError('pop from empty list')
            r, t = x.parts()
            lst[-1:] = [r, t]
            x = t
        elif isinstance(x, Seg):
            raise Unsupported('end of a symbolic list')
        if pop:
            lst.pop()
        return x

    @staticmethod
    def setitem(o, i, v):
        if CTX is not None and isinstance(o, (SymDict,)):
            o.setitem(i, v)
            return
        if CTX is not None and type(o) is list and has_sym_items(o):
            if i == -1:
                API._top(o, False)
                o[-1] = v
                return
            raise Unsupported('store into a symbolic list')
        if CTX is not None and isinstance(i, (SymStr, SymVal)) and isinstance(o, dict):
            for k in o:
                e = (i == k)
                if bool(e):
                    store_key(o, k, v)
                    return
            store_key(o, i, v)
            return
        o[i] = v

    # ---- calls
    @staticmethod
    def callm(o, name, *a, **k):
        if CTX is None:
            return getattr(o, name)(*a, **k)
        if isinstance(o, str):
            if name == 'join' and a and isinstance(a[0], (types.GeneratorType, map, filter)):
                a = (list(a[0]),)
            if name == 'join' and a and isinstance(a[0], SymStr):
                a = (a[0].chars(),)
            if a and (anysym(a) or isinstance(a[0], SymList)):
                return getattr(SymStr.of(o), name)(*a, **k)
        elif o is re:
            if name in ('fullmatch', 'match', 'search', 'sub') and anysym(a):
                return re_call(name, *a, **k)
        elif isinstance(o, re.Pattern):
            if anysym(a):
                return re_call(name, o.pattern, *a, **k)
        elif type(o) is list:
            if name == 'pop' and has_sym_items(o):
                if a and a[0] == 0 and not isinstance(o[0], (Seg, LBase)):
                    return o.pop(0)
                if a and a[0] != -1:
                    raise Unsupported('pop(i)')
                return API._top(o, True)
            if name == 'insert' and len(a) == 2 and a[0] == 0 and type(a[0]) is int:
                o.insert(0, a[1])
                return None
            if name == 'extend' and a and isinstance(a[0], (SymList, SymStr)):
                o.extend(items_of(a[0]))
                return None
            if name == 'extend' and a and isinstance(a[0], SymVal):
                raise Unsupported('extend with an opaque value')
            if name in ('remove', 'index', 'count', 'sort', 'insert', 'reverse') and (has_sym_items(o)):
                raise Unsupported('list.%s on a symbolic list' % name)
            if name == 'copy' and has_sym_items(o):
                return list(o)
        elif isinstance(o, dict):
            if name == 'get' and a and isinstance(a[0], (SymStr, SymVal)):
                try:
                    return API.getitem(o, a[0])
                except KeyError:
                    return a[1] if len(a) > 1 else None
        elif isinstance(o, SymVal):
            return getattr(o, name)(*a, **k)
        elif isinstance(o, SymList):
            if name == 'copy':
                return o.as_items()
        return getattr(o, name)(*a, **k)

    @staticmethod
    def bi(name, f, *a, **k):
        if CTX is None or f is not getattr(builtins, name):
            return f(*a, **k)
        h = getattr(BI, name, None)
        if h is None:
            if any(isinstance(x, Sym) or has_sym_items(x) for x in a):
                raise Unsupported('%s() of a symbolic value' % name)
            return f(*a, **k)
        return h(*a, **k)

    # ---- loops
    @staticmethod
    def loop(lid, it, names):
        if CTX is None or not sym_iter(it):
            return it
        fr = sys._getframe(1)
        return API._loop(fr, lid, it, names)

    @staticmethod
    def _loop(fr, lid, it, names):
        for x in items_of(it):
            if isinstance(x, Seg):
                if x.opaque:
                    raise Unsupported('iterating over an unknown part')
                if not x.outs:
                    # other elements may contribute: their effects are not tracked
                    if CTX.info.accs.get(lid) or names:
                        raise Unsupported('iterating over a filtered list')
                for o in x.outs:
                    yield from generic(fr, lid, x.src, o, names)
            elif isinstance(x, LBase):
                raise Unsupported('iterating over an unknown stack')
            else:
                yield x

    @staticmethod
    def _ls(lid, fr):
        for ls in reversed(CTX.loops):
            if ls.lid == lid and ls.frame is fr:
                return ls
        return None

    @staticmethod
    def gen(lid, name, loc):
        if CTX is None or not CTX.loops or name not in loc:
            return False
        ls = API._ls(lid, sys._getframe(1))
        if ls is None or name not in ls.before:
            return False
        return True

    @staticmethod
    def carry(lid, name):
        ls = API._ls(lid, sys._getframe(1))
        if ls.mode == 'sim':
            return ls.carried[name]
        b = ls.before[name]
        key = (lid, name)
        if key not in CTX.info.changed:
            # candidate invariant: the body leaves it as it was; checked by generic()
            ls.carried[name] = b
            return b
        if isinstance(b, (str, SymStr)) and not CTX.info.stracc.get(key) == 'no':
            CTX.info.stracc[key] = True
            ls.carried[name] = SymStr([AccBase(CTX.fresh('acc_' + name))])
        else:
            ls.carried[name] = Poison('%s in %s' % (name, lid))
        return ls.carried[name]

    @staticmethod
    def genexit(lid, name, loc):
        if CTX is None or not CTX.lastloop:
            return False
        fr = sys._getframe(1)
        ls = CTX.lastloop.get((id(fr), lid))
        return ls is not None and name in ls.exit

    @staticmethod
    def exitval(lid, name):
        return CTX.lastloop[(id(sys._getframe(1)), lid)].exit[name]

    @staticmethod
    def wtick(lid):
        if CTX is None:
            return
        n = CTX.wticks.get(lid, 0) + 1
        CTX.wticks[lid] = n
        if n > 200:
            raise Unsupported('while loop %s not bounded' % lid)

    # ---- while loops, cut rule: before the loop every local the body assigns gets
    # an arbitrary value of its kind (strings: of characters that are closed under the
    # body, found by widening); the path that comes to the head a second time ends
    # after checking that the iteration stays within that, and left the heap alone.
    # Partial correctness: termination is not shown.
    @staticmethod
    def wenter(lid, loc):
        if CTX is None or not CTX.cut:
            return
        st = CTX.wstate[(id(sys._getframe(1)), lid)] = {'n': 0, 'before': dict(loc), 'names': {}, 'low': {}, 'full': [], 'reach': reach(dict(loc)),
                                                        'tapes': {}, 'lists': {}, 'linked': {}, 'link': None}
        info = CTX.info
        for o, path, _snap in list(st['reach'].values()):
            tape = getattr(o, 'string', None)
            if isinstance(tape, Tape):
                key, w = (lid, path), None
                start = o.pos
                if key in info.wtape:
                    if any(t is tape and x is not None for _o, t, _s, x in st['tapes'].values()):
                        raise Unsupported('two positions of a text move in a while loop')
                    w = SymStr.var(CTX.fresh('w_text'), info.wtape[key])
                    ahead = tape.cells[o.pos] if o.pos < len(tape.cells) else None
                    if ahead and ahead[0] == 'char' and not info.wdrop.get(key, CharSet.none()).chars and CTX.decide(w.z == z3.StringVal('')):
                        tape.cells.insert(o.pos, ('loop', w, CharSet.none()))
                        o.pos += 1
                    else:
                        if ahead and ahead[0] == 'char' and not info.wdrop.get(key, CharSet.none()).chars:
                            CTX.assume(z3.PrefixOf(ahead[1].z, w.z))
                        o.pos = tape.put(o.pos, ('loop', w, info.wdrop.get(key, CharSet.none())))
                    if st['link'] is None:
                        st['link'] = (o, start, w)
                st['tapes'][key] = (o, tape, start, w)
        for name, o in loc.items():
            if type(o) is list and (lid, name) in info.wlists:
                if o or st['link'] is None:
                    raise Unsupported('a while loop extends a list')
                base = LBase(CTX.fresh('w_' + name), 'item')
                CTX.base_text[id(base)] = st['link'][2]
                # every iteration that reads something appends an item (proved in whead)
                CTX.assume(z3.Implies(base.n == 0, st['link'][2].z == z3.StringVal('')))
                CTX.keep.append(base)
                o.append(base)
                st['lists'][name] = (o, base)

    @staticmethod
    def wgen(lid, name, loc):
        return CTX is not None and CTX.cut and name in loc

    @staticmethod
    def wcarry(lid, name, loc):
        st = CTX.wstate[(id(sys._getframe(1)), lid)]
        b, key, info = loc[name], (lid, name), CTX.info
        if key not in info.wchanged:
            x = b
        elif isinstance(b, (str, SymStr)) and st['link'] is not None and key not in info.wunlink:
            x = SymStr.of(b) + st['link'][2]
            st['linked'][name] = b
        elif isinstance(b, (str, SymStr)):
            cs = info.wcs.get(key, CharSet.none()) | SymStr.of(b).charset()
            info.wcs[key] = cs
            x = SymStr.var(CTX.fresh('w_' + name), cs)
            empty = z3.StringVal('')
            if key not in info.wempty and CTX.sat(SymStr.of(b).z == empty) == z3.unsat:
                CTX.assume(x.z != empty)
                st['full'].append(name)
        elif isinstance(b, (bool, SymBool)):
            x = SymBool(z3.Bool(CTX.fresh('w_' + name)))
        elif isinstance(b, (int, SymInt)):
            x = SymInt(z3.Int(CTX.fresh('w_' + name)))
            if key not in info.wlow:
                CTX.assume(x.z >= SymInt.of(b))
                st['low'][name] = SymInt.of(b)
        else:
            raise Unsupported('%s in a while loop' % name)
        st['names'][name] = x
        return x

    @staticmethod
    def whead(lid, loc):
        if CTX is None or not CTX.cut:
            return True
        st = CTX.wstate[(id(sys._getframe(1)), lid)]
        st['n'] += 1
        if st['n'] == 1:
            return True
        info = CTX.info
        for key, (o, tape, start, w) in st['tapes'].items():
            if w is None:
                if o.pos != start:
                    info.wtape[key] = CharSet.none()
                    raise Restart()
                continue
            cs, dropped = refined(tape.read(start, o.pos)), tape.dropped(start, o.pos)
            if not cs <= info.wtape[key] or not dropped <= info.wdrop.get(key, CharSet.none()):
                info.wtape[key] = info.wtape[key] | cs
                info.wdrop[key] = info.wdrop.get(key, CharSet.none()) | dropped
                raise Restart()
        if st['link'] is not None:
            ends = [(tape, start + 1, o.pos) for o, tape, start, w in st['tapes'].values() if w is not None]
            CTX.run.prove(any(c[0] == 'char' or c[0] == 'kept' and CTX.sat(c[1].z == z3.StringVal('')) == z3.unsat
                              for tape, a, b in ends for c in tape.cells[a:b]), 'every iteration of the loop reads something')
        for name, (o, base) in st['lists'].items():
            if not o or o[0] is not base:
                raise Unsupported('a while loop changes a list')
            text = SymStr([])
            for x in o[1:]:
                text = text + CTX.text_of(x)
            CTX.run.same(text, st['link'][0].string.read(st['link'][1] + 1, st['link'][0].pos), 'what is appended to %s is what was read' % name)
        for name, x in st['names'].items():
            key, y = (lid, name), loc.get(name)
            if name in st['linked'] and key in info.wchanged:
                o, start, w = st['link']
                if not isinstance(y, (str, SymStr)) or not provably_equal(SymStr.of(y), SymStr.of(st['linked'][name]) + o.string.read(start, o.pos)):
                    info.wunlink.add(key)
                    raise Restart()
                continue
            if key not in info.wchanged:
                if y is not x and not provably_equal(x, y):
                    info.wchanged.add(key)
                    raise Restart()
            elif isinstance(x, SymStr):
                if not isinstance(y, (str, SymStr)):
                    raise Unsupported('%s changes its kind' % name)
                cs = SymStr.of(y).charset()
                if not cs <= info.wcs[key]:
                    info.wcs[key] = info.wcs[key] | cs
                    raise Restart()
                if name in st['full'] and CTX.sat(SymStr.of(y).z == z3.StringVal('')) != z3.unsat:
                    info.wempty.add(key)
                    raise Restart()
            elif isinstance(x, SymBool) != isinstance(y, (bool, SymBool)) or not isinstance(y, (bool, int, Sym)):
                raise Unsupported('%s changes its kind' % name)
            if name in st['low'] and CTX.sat(SymInt.of(y) < st['low'][name]) != z3.unsat:
                info.wlow.add(key)
                raise Restart()
        for o, path, snap in st['reach'].values():
            if isinstance(getattr(o, 'string', None), Tape):
                now = snapshot_of(o)
                if all(now.get(k) is snap.get(k) for k in set(now) | set(snap) if k != 'pos'):
                    continue
            if any(o is l for l, _b in st['lists'].values()):
                continue
            if not same_shallow(snap, snapshot_of(o)):
                if type(o) is list and len(path) == 1 and st['link'] is not None and CTX.text_of is not None:
                    info.wlists.add((lid, path[0]))
                    raise Restart()
                raise Unsupported('a while loop changes %s' % '.'.join(map(str, path)))
        raise PathEnd('iteration')

    @staticmethod
    def comp(kind, it, elt, conds, flat):
        if CTX is None or not sym_iter(it):
            def g():
                for x in it:
                    for c in conds:
                        if not API.truth(c(x)):
                            break
                    else:
                        if flat:
                            yield from elt(x)
                        else:
                            yield elt(x)
            if kind == 'gen':
                if CTX is not None and type(it) in (list, tuple):
                    return iter(list(g()))
                return g()
            if kind == 'list':
                return list(g())
            if kind == 'set':
                return set(g())
            return dict(g())
        out = []
        for x in items_of(it):
            if isinstance(x, LBase) or (isinstance(x, Seg) and x.opaque):
                raise Unsupported('comprehension over an unknown part')
            if isinstance(x, Seg):
                if not CTX.decide(x.src.n > 0):
                    continue
                res = []
                for o in x.outs:
                    if all(bool(API.truth(c(o))) for c in conds):
                        r = elt(o)
                        if flat:
                            res.extend(items_of(r) if not isinstance(r, list) else r)
                        else:
                            res.append(r)
                out.append(Seg(x.src, res))
            else:
                if all(API.truth(c(x)) for c in conds):
                    if flat:
                        out.extend(elt(x))
                    else:
                        out.append(elt(x))
        if kind == 'dict' and all(isinstance(x, (tuple, Seg)) for x in out):
            return GenDict(out)
        if kind in ('set', 'dict'):
            raise Unsupported('%s comprehension over a symbolic list' % kind)
        return out


class BI:
    """builtins on symbolic values"""

    @staticmethod
    def ord(x):
        if isinstance(x, SymStr) and x.conc() is None:
            if isinstance(x.atom(), Chr):
                return SymInt(x.atom().code)
            raise Unsupported('ord() of a symbolic text')
        return ord(SymStr.of(x).conc() if isinstance(x, SymStr) else x)

    @staticmethod
    def len(x):
        if isinstance(x, Tape):
            return x.len()
        if isinstance(x, SymList):
            return SymInt(x.n)
        if isinstance(x, SymVal):
            x = x.as_str()
        if isinstance(x, SymStr):
            c = x.conc()
            return SymInt(x.zlen()) if c is None else len(c)
        if has_sym_items(x):
            n = z3.IntVal(0)
            for i in x:
                if isinstance(i, LBase):
                    n = n + i.n
                elif isinstance(i, Seg):
                    if not i.opaque and len(i.outs) == 1 and i.outs[0] is i.src._elem:
                        n = n + i.src.n
                    else:
                        raise Unsupported('length of a symbolic list')
                else:
                    n = n + 1
            return SymInt(n)
        return len(x)

    @staticmethod
    def isinstance(x, t):
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(x, SymVal):
            return SymBool(z3.Or([x.isinst(y) for y in ts]))
        if isinstance(x, SymStr):
            return str in ts or object in ts
        if isinstance(x, SymInt):
            return int in ts
        if isinstance(x, SymBool):
            return bool in ts or int in ts
        if isinstance(x, SymList):
            return list in ts
        if isinstance(x, (SymDict, GenDict)):
            return dict in ts
        return isinstance(x, t)

    @staticmethod
    def range(*a):
        if not anysym(a):
            return range(*a)
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if step not in (1, -1):
            raise Unsupported('range with a step')
        if step == -1:
            lo, hi = hi + 1, lo + 1
        lo, hi = SymInt.of(lo), SymInt.of(hi)
        name = CTX.fresh('range')

        def mk(n):
            i = z3.Int(n)
            CTX.assume(z3.Implies(r.n > 0, z3.And(lo <= i, i < hi)))
            return SymInt(i)
        r = SymList(name, mk)
        CTX.assume(r.n == z3.If(hi > lo, hi - lo, 0))
        return r

    @staticmethod
    def str(x=''):
        return API.tostr(x)

    @staticmethod
    def repr(x):
        return API.tostr(x, 'r')

    @staticmethod
    def bool(x=False):
        return bool(API.truth(x))

    @staticmethod
    def int(x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(SymInt.of(x))
        if isinstance(x, SymVal):
            return x.as_int()
        if isinstance(x, Sym):
            raise Unsupported('int(symbolic string)')
        return int(x, *a)

    @staticmethod
    def list(x=()):
        if sym_iter(x):
            return list(items_of(x))
        if isinstance(x, SymDict):
            return x.keys()
        return list(x)

    @staticmethod
    def tuple(x=()):
        if sym_iter(x):
            return tuple(items_of(x))
        return tuple(x)

    @staticmethod
    def set(x=()):
        if isinstance(x, SymSet):
            return x
        if sym_iter(x) or (isinstance(x, (list, tuple)) and anysym(x)):
            raise Unsupported('set of symbolic values')
        return set(x)

    @staticmethod
    def frozenset(x=()):
        if isinstance(x, SymSet):
            return x
        if sym_iter(x):
            raise Unsupported('frozenset')
        return frozenset(x)

    @staticmethod
    def map(f, x, *more):
        if not more and sym_iter(x):
            return API.comp('list', x, f, [], False)
        return map(f, x, *more)

    @staticmethod
    def filter(f, x):
        if sym_iter(x):
            return API.comp('list', x, lambda e: e, [f or (lambda e: e)], False)
        if f is None:
            return filter(f, x)
        return filter(lambda e: bool(API.truth(f(e))), x)

    @staticmethod
    def _index(start):
        # any index: more than what can happen
        i = z3.Int(CTX.fresh('index'))
        CTX.assume(i >= 0)
        return SymInt(i + start)

    @staticmethod
    def enumerate(x, start=0):
        if sym_iter(x):
            its = items_of(x)
            if len(its) == 1 and isinstance(its[0], Seg) and len(its[0].outs) == 1:
                s = its[0]
                i = z3.Int(s.src.name + '.k')
                CTX.assume(z3.And(i >= 0, i < s.src.n))
                return [Seg(s.src, [Enumerated((SymInt(i + start), s.outs[0]))])]
            res = []
            for s in its:
                if isinstance(s, LBase):
                    raise Unsupported('enumerate')
                if isinstance(s, Seg):
                    res.append(Seg(s.src, [Enumerated((BI._index(start), o)) for o in s.outs], s.opaque))
                else:
                    res.append((BI._index(start), s))
            return res
        return enumerate(x, start)

    @staticmethod
    def reversed(x):
        if sym_iter(x):
            raise Unsupported('reversed')
        return reversed(x)

    @staticmethod
    def max(*a, **k):
        if len(a) == 2 and not k and anysym(a):
            x, y = SymInt.of(a[0]), SymInt.of(a[1])
            return SymInt(z3.If(y > x, y, x))
        if anysym(a):
            raise Unsupported('max')
        return max(*a, **k)

    @staticmethod
    def min(*a, **k):
        if len(a) == 2 and not k and anysym(a):
            x, y = SymInt.of(a[0]), SymInt.of(a[1])
            return SymInt(z3.If(y < x, y, x))
        if anysym(a):
            raise Unsupported('min')
        return min(*a, **k)

    @staticmethod
    def all(x):
        if has_sym_items(x):
            zs = []
            for i in x:
                if isinstance(i, LBase):
                    zs.append(i.allp)
                elif isinstance(i, SymBool):
                    zs.append(i.z)
                elif isinstance(i, Seg):
                    raise Unsupported('all() over a symbolic list')
                elif not i:
                    return False
            return SymBool(z3.And(zs)) if zs else True
        for i in x:
            if isinstance(i, Seg):
                raise Unsupported('all')
            if not API.truth(i):
                return False
        return True

    @staticmethod
    def any(x):
        if isinstance(x, (SymList, SymStr)) or has_sym_items(x):
            raise Unsupported('any() over a symbolic list')
        for i in x:
            if isinstance(i, Seg):
                raise Unsupported('any')
            if API.truth(i):
                return True
        return False

    @staticmethod
    def sorted(x, **k):
        if sym_iter(x):
            its = items_of(x)
            if len(its) == 1 and isinstance(its[0], Seg):
                return its                  # a permutation: the generic part is the same
            raise Unsupported('sorted')
        x = list(x)
        if anysym(x):
            if k or len(x) > 4 or not all(isinstance(i, (str, SymStr)) for i in x):
                raise Unsupported('sorted symbolic')
            # an arbitrary permutation (covers the actual order)
            out = []
            while x:
                n = 0
                while n < len(x) - 1 and not bool(SymBool(z3.Bool(CTX.fresh('order')))):
                    n += 1
                out.append(x.pop(n))
            return out
        return sorted(x, **k)

    @staticmethod
    def getattr(o, n, *d):
        return getattr(o, n, *d)

    @staticmethod
    def type(*a):
        if len(a) == 1 and isinstance(a[0], Sym):
            raise Unsupported('type()')
        return type(*a)

    @staticmethod
    def id(x):
        return id(x)

    @staticmethod
    def dict(*a, **k):
        if any(isinstance(x, Sym) for x in a):
            raise Unsupported('dict()')
        return dict(*a, **k)

    @staticmethod
    def next(*a):
        return next(*a)

    @staticmethod
    def iter(x):
        if sym_iter(x):
            raise Unsupported('iter')
        return iter(x)


API = _API()


# ------------------------------------------------------------------ regexes
def re_call(name, pat, *a, **k):
    if k:
        raise Unsupported('re flags')
    if name == 'sub':
        repl, s = a[0], SymStr.of(a[1])
        if len(a) > 2:
            raise Unsupported('re.sub count')
        if isinstance(pat, Sym) or isinstance(repl, Sym):
            raise Unsupported('symbolic regex')
        cs = single_class(pat)
        if cs is not None and isinstance(repl, str):
            return re_sub_class(s, cs, repl)
        if isinstance(repl, str) and '\\' not in repl:
            return s._fn('resub', pat, repl, charset=s.charset() | CharSet(repl))
        raise Unsupported('re.sub %r' % pat)
    s = SymStr.of(a[0])
    if isinstance(pat, Sym) or len(a) > 1:
        raise Unsupported('symbolic regex')
    r = regex_parse(pat)
    z = r.z3()
    anych = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    if name == 'match':
        z = z3.Concat(z, anych) if not r.anchored_end else z
    elif name == 'search':
        z = z if r.anchored_start else z3.Concat(anych, z)
        z = z if r.anchored_end else z3.Concat(z, anych)
    return SymMatch(z3.InRe(s.z, z), ('re', name, pat, s))


def re_sub_class(s, cs, repl):
    """re.sub of a pattern that matches exactly one character of a class"""
    out = []

    def image(c):
        r, i = '', 0
        while i < len(repl):
            if repl[i] == '\\':
                nx = repl[i + 1]
                if nx in '01':
                    r += c
                    i += 2
                    continue
                if repl.startswith('\\g<0>', i):
                    r += c
                    i += 5
                    continue
                if nx == '\\':
                    r += '\\'
                    i += 2
                    continue
                raise Unsupported('re.sub template')
            r += repl[i]
            i += 1
        return r
    if cs.neg:
        if repl != '':
            if '\\' in repl:
                raise Unsupported('re.sub of a complement class')
            # every character outside a finite set becomes `repl`
            for g in s.segs:
                if isinstance(g, str):
                    out.append(''.join(repl if c in cs else c for c in g))
                else:
                    out += SymStr([g])._fn('put', repl, str(cs) if len(cs.chars) < 200 else 'class%d' % hash(cs.chars),
                                           charset=(SymStr([g]).charset() - cs) | CharSet(repl)).segs
            return SymStr(out)
        # deletion of every character outside a finite set
        for g in s.segs:
            if isinstance(g, str):
                out.append(''.join(c for c in g if c not in cs))
            else:
                out += SymStr([g])._fn('del', str(cs), charset=SymStr([g]).charset() - cs).segs
        return SymStr(out)
    return s._hom({c: image(c) for c in sorted(cs.chars)})


# -------------------------------------------------------------- exploration
class Violated(BaseException):
    pass


class SpecReject(Exception):
    pass


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.failed = []         # (obligation, model dict, path description)
        self.unsupported = None
        self.solver_s = 0.0
        self.checks = 0
        self.outcomes = {}
        self.functions = set()
        self.assumed = []
        self.unknown = 0
        self.wall = 0.0
        self.covered = set()

    @property
    def status(self):
        if any(f[2] == 'refuted' for f in self.failed):
            return 'refuted'
        if self.failed:
            return 'unsupported'
        if self.unsupported:
            return 'unsupported'
        if not self.obligations or not self.paths:
            return 'vacuous'
        return 'proved'


class Run:
    """The `v` handed to a contract."""

    def __init__(self, ctx, res):
        self.ctx, self.res = ctx, res
        self.saved = []

    # ---- inputs
    def str(self, name, charset=None):
        s = SymStr.var(name, charset)
        self.ctx.inputs[name] = s
        return s

    def char(self, name, charset=None):
        """one character"""
        src = SymStr.var(name + '.text', charset) if charset is not None else SymStr.var(name + '.text')
        return SymStr([Chr(name, src.atom())])

    def int(self, name):
        s = SymInt(z3.Int(name))
        self.ctx.inputs[name] = s
        return s

    def bool(self, name):
        s = SymBool(z3.Bool(name))
        self.ctx.inputs[name] = s
        return s

    def val(self, name, *types_):
        s = SymVal(z3.Const(name, Val), name)
        self.ctx.inputs[name] = s
        if types_:
            self.ctx.assume(z3.Or([s.isinst(types.NoneType if t is None else t) for t in types_]))
        return s

    def xbool(self, name, word='INHERIT'):
        """True, False or the given word"""
        s = self.val(name)
        self.ctx.assume(z3.Or(Val.is_b(s.z), s.z == Val.s(z3.StringVal(word))))
        return s

    def items(self, name, none=True):
        """an opaque non-empty list, or None"""
        s = self.val(name)
        l = z3.And(Val.is_l(s.z), NONEMPTY(Val.lv(s.z)))
        self.ctx.assume(z3.Or(l, Val.is_none(s.z)) if none else l)
        return s

    def list(self, name, mk, minlen=0):
        l = SymList(name, mk, minlen)
        self.ctx.inputs[name] = l
        return l

    def set(self, name):
        return SymSet(name)

    def choose(self, name, options):
        """fork over finitely many shapes"""
        for n, o in enumerate(options[:-1]):
            if bool(SymBool(z3.Bool('%s=%s' % (name, n)))):
                self.ctx.inputs[name] = n
                return o
        self.ctx.inputs[name] = len(options) - 1
        return options[-1]

    def assume(self, e):
        e = zb(e)
        self.ctx.assume(e)
        if self.ctx.sat() == z3.unsat:
            raise PathEnd('infeasible')

    def patch(self, module, name, value):
        self.saved.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    def cut(self, probes='', text_of=None):
        """while loops are treated with the cut rule, not unrolled"""
        self.ctx.cut, self.ctx.probes, self.ctx.text_of, self.ctx.run = True, probes, text_of, self

    def holds(self, cond):
        """fork on a condition"""
        return bool(API.truth(cond))

    def trust(self, text):
        if text not in self.res.assumed:
            self.res.assumed.append(text)

    def covers(self, *names):
        self.res.functions.update(names)

    # ---- obligations
    def prove(self, cond, name):
        self.res.obligations += 1
        if isinstance(cond, SymBool) or z3.is_expr(cond):
            c = zb(cond)
            r = self.ctx.sat(z3.Not(c))
            if r == z3.unsat:
                self.res.discharged += 1
                return True
            model = None
            if r == z3.sat:
                model = self.ctx.solver.model()
            else:
                self.res.unknown += 1
            self.fail(name, model, 'refuted' if r == z3.sat else 'unknown: ' + self.ctx.solver.reason_unknown())
            return False
        if bool(API.truth(cond)) is True:
            self.res.discharged += 1
            return True
        self.ctx.sat()
        self.fail(name, self.ctx.solver.model() if self.ctx.sat() == z3.sat else None, 'refuted')
        return False

    def same(self, a, b, name):
        """obligation: the two program values are equal"""
        self.res.obligations += 1
        try:
            ok = provably_equal(a, b)
        except Unsupported:
            raise
        if ok:
            self.res.discharged += 1
            return True
        m = None
        try:
            e = (a == b)
            if isinstance(e, SymBool) and self.ctx.sat(z3.Not(e.z)) == z3.sat:
                m = self.ctx.solver.model()
            elif e is False and self.ctx.sat() == z3.sat:
                m = self.ctx.solver.model()
        except (Unsupported, z3.Z3Exception):
            m = None
        self.fail(name + ': %s vs %s' % (short(a), short(b)), m, 'refuted' if m is not None else 'unknown: not shown equal')
        return False

    def fail(self, name, model, why):
        hints = {}
        if model is not None:
            for k, x in self.ctx.inputs.items():
                try:
                    hints[k] = concrete(model, x)
                except Exception:      # pylint: disable=broad-except
                    pass
        if len(self.res.failed) < 60:
            self.res.failed.append((name, hints, why))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'


def zstr(e):
    s = e.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def concrete(m, x):
    if isinstance(x, SymStr):
        return zstr(m.eval(x.z, model_completion=True))
    if isinstance(x, SymInt):
        return m.eval(x.z, model_completion=True).as_long()
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.z, model_completion=True))
    if isinstance(x, SymVal):
        v = m.eval(x.z, model_completion=True)
        n = v.decl().name()
        if n == 'none':
            return None
        if n == 'b':
            return z3.is_true(v.arg(0))
        if n == 'i':
            return v.arg(0).as_long()
        if n == 's':
            return zstr(v.arg(0))
        ne = z3.is_true(m.eval(NONEMPTY(v.arg(0)), model_completion=True))
        if n == 'l':
            return ['e%s' % v.arg(0)] if ne else []
        if n == 'd':
            return {'k': 'e%s' % v.arg(0)} if ne else {}
        return object()
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    raise ValueError


def stub(e, name):
    """does the code use a stand-in of a contract in a way it isn't made for (another attribute or signature)?"""
    if isinstance(e, AttributeError):
        t = e.obj if isinstance(e.obj, type) else type(e.obj)
        return t.__module__.startswith('checks')
    if isinstance(e, TypeError):
        m = re.search(r"'(\w+)' object|type '(\w+)'", str(e))
        if m and any(type(vars(x).get(m[1] or m[2])) is type and vars(x)[m[1] or m[2]].__module__ == n
                     for n, x in list(sys.modules.items()) if n.startswith('checks.') and x):
            return True
        m = re.match(r'([\w.<>]+)\(\) (takes|got|missing)', str(e))
        return bool(m) and (m[1].startswith(name + '.<locals>') or '<lambda>' in m[1] or any(
            m[1].split('.')[0] in vars(x) for n, x in list(sys.modules.items()) if n.startswith('checks.') and x))
    return False


def blame(e):
    import os
    from . import instrument
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    f = last.tb_frame.f_code.co_filename
    line = '%s:%d' % (os.path.basename(f), last.tb_lineno)
    if f.startswith(instrument.REPO + '/'):
        return 'code', line
    if '/pydv/' in f:
        # an error raised by a model of a builtin on behalf of the code under contract
        # (IndexError, KeyError, AttributeError) is the code's error
        if isinstance(e, (IndexError, KeyError, AttributeError, TypeError)):
            return 'code', line
        return 'engine', line
    return 'harness', line


def _recorder(functions):
    from . import instrument
    root = instrument.REPO + '/'
    n = len(root)

    def prof(frame, event, _arg):
        if event == 'call':
            co = frame.f_code
            f = co.co_filename
            if f.startswith(root):
                q = co.co_qualname
                if '<' not in q:
                    functions.add(f[n:].replace('crazy_complete/', '', 1)[:-3] + '.' + q)
    return prof


def explore(name, contract, max_paths=20000, budget=400, timeout=120):
    """Run the contract on every path."""
    global CTX
    info = Info()
    t0 = time.time()
    for _attempt in range(60):
        res = Result(name)
        pending = [[]]
        restart = False
        while pending:
            prefix = pending.pop()
            ctx = Ctx(prefix, info, budget)
            run = Run(ctx, res)
            CTX = ctx
            try:
                if res.paths < 400:
                    sys.setprofile(_recorder(res.functions))
                try:
                    contract(run)
                finally:
                    sys.setprofile(None)
                res.paths += 1
                res.outcomes['end'] = res.outcomes.get('end', 0) + 1
            except PathEnd as e:
                res.outcomes[str(e)] = res.outcomes.get(str(e), 0) + 1
                if str(e) == 'iteration':
                    res.paths += 1
            except Restart:
                restart = True
            except Violated as e:
                res.paths += 1
                res.obligations += 1
                m = ctx.solver.model() if ctx.sat() == z3.sat else None
                run.fail(str(e), m, 'refuted')
            except Unsupported as e:
                res.unsupported = str(e)
            except RecursionError:
                res.unsupported = 'recursion too deep'
            except z3.Z3Exception as e:
                res.unsupported = 'engine: %s' % e
            except Exception as e:        # pylint: disable=broad-except
                where, line = blame(e)
                if stub(e, name):
                    where = 'stand-in'
                txt = '%s: %s' % (type(e).__name__, e)
                if where == 'code' and not re.search(r'Sym|Seg|Poison|LBase|z3|vc\.', txt):
                    res.paths += 1
                    res.obligations += 1
                    m = ctx.solver.model() if ctx.sat() == z3.sat else None
                    run.fail('no unexpected exception (%s at %s)' % (txt, line), m, 'refuted')
                else:
                    res.unsupported = '%s: %s at %s' % (where, txt, line)
            finally:
                CTX = None
                for m, n, o in reversed(run.saved):
                    setattr(m, n, o)
            res.solver_s += ctx.solver_s
            res.checks += ctx.checks
            if restart or res.unsupported:
                break
            pending.extend(ctx.pending)
            if res.paths > max_paths or time.time() - t0 > timeout:
                res.unsupported = 'path/time budget exceeded (%d paths)' % res.paths
                break
        if not restart:
            break
    else:
        res.unsupported = 'no fixed point of loop facts'
    res.wall = time.time() - t0
    return res
