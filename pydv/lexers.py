"""Word-level lexers of the three shells, as automata, and the induction rule
that proves `lex(out) == [src]` for the symbolic string a function returned.

The automata are specification (trusted); lexers are cross-checked against the
installed shells by checks/c_quote.py in every run (bounded)."""
import z3

from .charset import CharSet, regex_parse, single_class
from . import vc
from .vc import Atom, Chr, Hom, MapSeg, SymStr, Unsupported, SymBool

# states
WS, UNQ, UE, SQ, SQE, DQ, DQE, SEP, ERR = range(9)
NAMES = ['word start', 'in word', 'after \\', "in '", "after \\ in '", 'in "', 'after \\ in "', 'between words', 'error']

SAFE = CharSet('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@%+=:,./-')
# in patterns of Bash, all characters beyond ASCII are ordinary
SAFE_BASH = CharSet('!"#$&\'()*;<>?[\\]^`{|}~ ' + ''.join(map(chr, range(32))) + chr(127), True)
FIRST_BAD = {'bash': '', 'zsh': '=', 'fish': '%'}


class Lexer:
    def __init__(self, shell):
        self.shell = shell
        self.safe = SAFE_BASH if shell == 'bash' else SAFE
        self.dq_esc = '$"\\' + ('' if shell == 'fish' else '`')
        self.dq_bad = '$' + ('' if shell == 'fish' else '`')

    # --- concrete
    def step(self, st, c):
        """-> (state, emitted characters)"""
        if st in (WS, UNQ):
            if c == "'":
                return SQ, ''
            if c == '"':
                return DQ, ''
            if c == '\\':
                return UE, ''
            if st == WS and c in FIRST_BAD[self.shell]:
                return ERR, ''
            if c in self.safe:
                return UNQ, c
            return ERR, ''
        if st == UE:
            if c.isalnum() or c == '\n':
                return ERR, ''        # \n, \x41 ... are escapes in fish
            return UNQ, c
        if st == SQ:
            if c == "'":
                return UNQ, ''
            if c == '\\' and self.shell == 'fish':
                return SQE, ''
            return SQ, c
        if st == SQE:
            return SQ, (c if c in "\\'" else '\\' + c)
        if st == DQ:
            if c == '"':
                return UNQ, ''
            if c == '\\':
                return DQE, ''
            if c in self.dq_bad:
                return ERR, ''
            return DQ, c
        if st == DQE:
            if c in self.dq_esc:
                return DQ, c
            if c == '\n':
                return DQ, ''
            return DQ, '\\' + c
        return ERR, ''

    def words(self, text):
        """concrete lexing into words (blanks separate); None on error"""
        out, cur, st = [], None, WS
        for c in text:
            if st in (WS, UNQ) and c == ' ':
                if cur is not None:
                    out.append(cur)
                cur, st = None, WS
                continue
            st, e = self.step(st, c)
            if st == ERR:
                return None
            cur = (cur or '') + e
        if st not in (WS, UNQ):
            return None
        if cur is not None:
            out.append(cur)
        return out

    # --- symbolic character
    def zstep(self, st, c):
        """one step from the z3 state `st` on the code `c`:
        (state, emits, emits_backslash)"""
        def eq(ch):
            return c == ord(ch)

        def isin(s):
            return z3.Or([eq(x) for x in s]) if s else z3.BoolVal(False)
        I = z3.IntVal
        fish = self.shell == 'fish'
        unq = z3.If(eq("'"), I(SQ), z3.If(eq('"'), I(DQ), z3.If(eq('\\'), I(UE), z3.If(
            z3.And(self.safe.z(c), z3.Not(z3.And(st == WS, isin(FIRST_BAD[self.shell])))), I(UNQ), I(ERR)))))
        alnum = CharSet('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789\n').z(c)
        ue = z3.If(z3.Or(alnum, c > 127), I(ERR), I(UNQ))
        sq = z3.If(eq("'"), I(UNQ), z3.If(eq('\\'), I(SQE), I(SQ)) if fish else I(SQ))
        dq = z3.If(eq('"'), I(UNQ), z3.If(eq('\\'), I(DQE), z3.If(isin(self.dq_bad), I(ERR), I(DQ))))
        nst = z3.If(z3.Or(st == WS, st == UNQ), unq,
                    z3.If(st == UE, ue, z3.If(st == SQ, sq, z3.If(st == SQE, I(SQ),
                          z3.If(st == DQ, dq, z3.If(st == DQE, I(DQ), I(ERR)))))))
        emit = z3.Or(
            z3.And(z3.Or(st == WS, st == UNQ), nst == UNQ),
            z3.And(st == UE, nst == UNQ),
            z3.And(st == SQ, nst == SQ),
            st == SQE,
            z3.And(st == DQ, nst == DQ),
            z3.And(st == DQE, z3.Not(eq('\n'))))
        bs = z3.Or(z3.And(st == SQE, z3.Not(isin("\\'"))),
                   z3.And(st == DQE, z3.Not(isin(self.dq_esc + '\n'))))
        return z3.simplify(nst), emit, bs


def char_constraints(ctx, atom, code):
    """what the path condition says about every character of `atom`"""
    out = [code >= 1, code <= 0x10ffff]
    if atom.charset is not None:
        out.append(atom.charset.z(code))
    k = atom.key()

    def isatom(s):
        return isinstance(s, SymStr) and s.atom() is not None and s.atom().key() == k

    def use(fact, val):
        if fact[0] == 'not':
            use(fact[1], not val)
        elif fact[0] == 'contains' and not val and isatom(fact[1]):
            c = fact[2].conc()
            if c is not None and len(c) == 1:
                out.append(code != ord(c))
        elif fact[0] == 're' and isatom(fact[3]):
            name, pat = fact[1], fact[2]
            if name == 'search' and not val:
                cs = single_class(pat)
                if cs is not None:
                    out.append(z3.Not(cs.z(code)))
            if name == 'fullmatch' and val:
                cs = pattern_charset(pat)
                if cs is not None:
                    out.append(cs.z(code))
            if name == 'match' and val and pat.endswith(('\\Z', '$')) and not pat.endswith('$'):
                cs = pattern_charset(pat)
                if cs is not None:
                    out.append(cs.z(code))
    for fact, val in ctx.facts:
        use(fact, val)
    return out


def pattern_charset(pat):
    """an over-approximation of the characters of the words of a regex"""
    from .charset import sre_parse, sre, _in_set

    def go(items):
        cs = CharSet.none()
        for op, av in items:
            if op is sre.LITERAL:
                cs = cs | CharSet(chr(av))
            elif op is sre.NOT_LITERAL:
                cs = cs | CharSet(chr(av), True)
            elif op is sre.IN:
                s = _in_set(av)
                cs = cs | (s if s is not None else CharSet.all())
            elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
                cs = cs | go(av[2])
            elif op is sre.SUBPATTERN:
                cs = cs | go(av[3])
            elif op is sre.BRANCH:
                for b in av[1]:
                    cs = cs | go(b)
            elif op is sre.AT:
                pass
            elif op in (sre.ASSERT, sre.ASSERT_NOT):
                pass
            else:
                return CharSet.all()
        return cs
    try:
        return go(sre_parse.parse(pat))
    except Exception:        # pylint: disable=broad-except
        return None


def reads_back(v, lex, out, src, label, start=WS):
    """Obligations: the word lexer maps `out` to exactly the word `src`."""
    ctx = v.ctx
    out = SymStr.of(out)
    src = SymStr.of(src)
    st = start
    emitted = []
    maybe_ws = False
    quoted = False
    for seg in out.segs:
        if isinstance(seg, str):
            for c in seg:
                if maybe_ws:
                    s2, e2 = lex.step(WS, c)
                    s1, e1 = lex.step(UNQ, c)
                    if (s1, e1) != (s2, e2):
                        v.prove(False, '%s[%s]: depends on whether the text is empty' % (label, lex.shell))
                        return
                ns, e = lex.step(st, c)
                maybe_ws = False
                if ns == ERR:
                    v.prove(False, '%s[%s]: %r is not literal text %s' % (label, lex.shell, c, NAMES[st]))
                    return
                st = ns
                emitted.append(e)
                if c in '"\'':
                    quoted = True
            continue
        if isinstance(seg, (Atom, Hom)):
            atom = seg if isinstance(seg, Atom) else seg.atom
            cases = {} if isinstance(seg, Atom) else seg.cases
            code = z3.Int(ctx.fresh('char'))
            cons = char_constraints(ctx, atom, code)
            # induction over the characters of the atom; invariant: the state is st
            # (or in word, once something unquoted has been read)
            states = [st] if st != WS else [WS, UNQ]
            for q in states:
                extra = []
                if q == WS:
                    extra = [z3.Length(atom.z) > 0, z3.StrToCode(z3.SubString(atom.z, 0, 1)) == code]
                target = UNQ if st == WS else st
                for k in list(cases) + [None]:
                    cc = list(cons) + extra
                    if k is None:
                        cc += [code != ord(x) for x in cases]
                        image = [code]
                    else:
                        cc.append(code == ord(k))
                        image = list(cases[k])
                    goal = _run(lex, q, image, code, target)
                    v.prove(z3.Implies(z3.And(cc), goal),
                            '%s[%s]: character %s %s is read back as itself' % (
                                label, lex.shell, repr(k) if k else 'other', NAMES[q]))
            if st == WS:
                st = UNQ
                maybe_ws = ctx.sat(atom.z == z3.StringVal('')) != z3.unsat
            emitted.append(atom)
            continue
        if isinstance(seg, MapSeg) and seg.src.of_atom is not None:
            atom = seg.src.of_atom
            ch = seg.src.elem.segs[0]
            cons = char_constraints(ctx, atom, ch.code) + char_constraints(ctx, ch, ch.code)
            image = []
            for x in seg.out.segs:
                if isinstance(x, str):
                    image += list(x)
                elif isinstance(x, Chr) and x.name == ch.name:
                    image.append(ch.code)
                elif isinstance(x, Hom) and x.atom.name == ch.name:
                    raise Unsupported('replace inside a character loop')
                else:
                    raise Unsupported('character loop emits %s' % type(x).__name__)
            states = [st] if st != WS else [WS, UNQ]
            for q in states:
                extra = []
                target = UNQ if st == WS else st
                v.prove(z3.Implies(z3.And(cons + extra), _run(lex, q, image, ch.code, target)),
                        '%s[%s]: every character %s is read back as itself' % (label, lex.shell, NAMES[q]))
            if st == WS:
                st = UNQ
                maybe_ws = ctx.sat(atom.z == z3.StringVal('')) != z3.unsat
            emitted.append(atom)
            continue
        raise Unsupported('lexing of %s' % type(seg).__name__)
    v.prove(st == UNQ and not (maybe_ws and not quoted), '%s[%s]: the word is complete (%s)' % (label, lex.shell, NAMES[st]))
    v.same(SymStr(emitted), src, '%s[%s]: text read back' % (label, lex.shell))


def _run(lex, q, image, code, target):
    """the automaton from q over `image` ends in `target` and emits exactly `code`"""
    st = z3.IntVal(q)
    n = z3.IntVal(0)
    good = z3.BoolVal(True)
    for x in image:
        c = z3.IntVal(ord(x)) if isinstance(x, str) else x
        ns, e, bs = lex.zstep(st, c)
        # emission must be exactly one character, equal to `code`
        good = z3.And(good, z3.Not(bs), z3.Implies(e, z3.And(n == 0, c == code)))
        n = n + z3.If(e, 1, 0)
        st = ns
    # a trailing partial escape state is not `target`
    return z3.And(good, st == target, n == 1)
