"""C10: translated patterns match the same texts as the original pattern."""
import concurrent.futures
import itertools
import os
import re
import shlex
import subprocess
import warnings

import z3

from pydv import instrument, lexers, vc
from pydv.charset import CharSet
from checks import c05, shells
from checks.common import commandline, config, generate, quiet, real, SHELLS

TRUSTED = ['readers of ordinary characters in regular expressions and in Bash and Zsh patterns (PatternLexer)',
           'an independent parser and matcher for Bash patterns, Zsh and Fish matching in the bounded part']
ASSUMPTIONS = ['Zsh (`_files`) matches ignored patterns against the quoted names, so names that need quoting are left out there; '
               'Bash itself does not match an empty group after * (both ways of writing the pattern)']
RULE = ('all short patterns and random ones with nested groups, classes, quotes and special characters are translated and compared with an independent '
        'matcher on names derived from the pattern; the generated scripts of the three shells are asked for the files of a scratch directory')
pattern = instrument.mod('pattern')
bash_utils = instrument.mod('bash_utils')
zsh_utils = instrument.mod('zsh_utils')
fish_complete = instrument.mod('fish_complete')


class PatternLexer(lexers.Lexer):
    """reads the ordinary characters of a pattern; anything with a special meaning is an error"""

    def __init__(self, kind, special):
        super().__init__('zsh')
        self.shell = kind
        self.special = special

    def step(self, st, c):
        if st == lexers.UE:
            return (lexers.ERR, '') if c.isalnum() or ord(c) > 127 else (lexers.UNQ, c)
        if c == '\\':
            return lexers.UE, ''
        return (lexers.ERR, '') if c in self.special else (lexers.UNQ, c)

    def zstep(self, st, c):
        I = z3.IntVal
        alnum = z3.Or(CharSet('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789').z(c), c > 127)
        unq = z3.If(c == 92, I(lexers.UE), z3.If(CharSet(self.special).z(c), I(lexers.ERR), I(lexers.UNQ)))
        nst = z3.If(st == lexers.UE, z3.If(alnum, I(lexers.ERR), I(lexers.UNQ)), unq)
        return z3.simplify(nst), nst == lexers.UNQ, z3.BoolVal(False)


REGEX = PatternLexer('regex', '^$.?*+|{}[]()')
BASH = PatternLexer('bash pattern', '*?[]()|&')
ZSH = PatternLexer('zsh pattern', '*?[]()|&;<>^~#$"\'`{}!= \t\n')


def literal_regex(v):
    """the regular expression of a literal part matches exactly that text, for any text"""
    v.covers('pattern.Literal.to_regex')
    s = v.str('s')
    lexers.reads_back(v, REGEX, pattern.Literal(s).to_regex(), s, 'to_regex', start=lexers.UNQ)


def literal_bash(v):
    """the Bash pattern of a literal part matches exactly that text without any quotes, for any text"""
    v.covers('pattern.Literal.to_bash_glob')
    s = v.str('s')
    lexers.reads_back(v, BASH, pattern.Literal(s).to_bash_glob(), s, 'to_bash_glob', start=lexers.UNQ)


def literal_zsh(v):
    """the Zsh pattern of a literal part matches exactly that text, for any text without blanks (which become [[:blank:]])"""
    v.covers('pattern.Literal.to_zsh_glob', 'pattern._zsh_escape')
    s = v.str('s', CharSet(' \t', True))
    lexers.reads_back(v, ZSH, pattern.Literal(s).to_zsh_glob(), s, 'to_zsh_glob', start=lexers.UNQ)


class Part:
    """a part of a pattern, known by its translations only"""

    def __init__(self, r, z, b):
        self.to_regex, self.to_zsh_glob, self.to_bash_glob = (lambda: r), (lambda: z), (lambda: b)


def _part(name):
    return Part(*[vc.SymStr.var('%s.%s' % (name, k)) for k in ('regex', 'zsh', 'bash')])


KINDS = [('to_regex', '', ''), ('to_zsh_glob', '', ''), ('to_bash_glob', '@', '')]


def groups(v):
    """a group becomes the alternatives of its kind, in order and for any number of alternatives; kinds that the target can't express are refused"""
    v.covers('pattern.ExtGlob.to_regex', 'pattern.ExtGlob.to_zsh_glob', 'pattern.ExtGlob.to_bash_glob')
    t = v.choose('type', list('@*+?!'))
    how = v.choose('target', ['to_regex', 'to_zsh_glob', 'to_bash_glob'])
    alts = v.list('alternatives', _part, minlen=1)
    g = pattern.ExtGlob(t, alts)
    body = vc.SymStr.of('|').join([vc.Seg(alts, [getattr(alts.elem, how)()])])
    try:
        got = getattr(g, how)()
    except ValueError:
        v.prove(how != 'to_bash_glob' and t != '@' and (t == '!' or how == 'to_zsh_glob'), 'only a kind without an equivalent is refused')
        return
    if how == 'to_bash_glob':
        v.same(got, t + '(' + body + ')', 'group')
    elif how == 'to_zsh_glob':
        v.prove(t == '@', 'kinds without an equivalent are refused')
        v.same(got, '(' + body + ')', 'group')
    else:
        v.prove(t != '!', 'kinds without an equivalent are refused')
        v.same(got, '(' + body + ')' + t.replace('@', ''), 'group')


def sequences(v):
    """a sequence of parts becomes the sequence of the translated parts, for any number of parts"""
    v.covers('pattern.PatternList.to_regex', 'pattern.PatternList.to_zsh_glob', 'pattern.PatternList.to_bash_glob')
    how = v.choose('target', ['to_regex', 'to_zsh_glob', 'to_bash_glob'])
    p = pattern.PatternList()
    p.tokens = v.list('tokens', _part)
    v.same(getattr(p, how)(), vc.SymStr.of('').join([vc.Seg(p.tokens, [getattr(p.tokens.elem, how)()])]), 'sequence')


MUST = {'to_regex': '\\[]^-', 'to_zsh_glob': '\\[]^!-"\'$`&;|<>(){}*?~#= ', 'to_bash_glob': '\\[]^!-'}


def class_characters(v):
    """every single character of a class is written so that it stands for itself: with a special meaning it is escaped, letters and digits never are"""
    v.covers('pattern.CharClass.to_regex', 'pattern.CharClass.to_zsh_glob', 'pattern.CharClass.to_bash_glob', 'pattern.CharClass._join')
    how = v.choose('target', ['to_regex', 'to_bash_glob', 'to_zsh_glob'])
    neg = v.choose('negated', [False, True])
    c = v.char('c', CharSet(' \t', True) if how == 'to_zsh_glob' else None)
    code = c.atom().code
    got = getattr(pattern.CharClass([c], neg), how)()
    start = '[' + ({'to_regex': '^/'}.get(how, '!') if neg else '')
    if vc.provably_equal(got, start + c + ']'):
        v.prove(z3.Not(CharSet(MUST[how]).z(code)), 'a character with a special meaning is escaped')
    else:
        v.same(got, start + '\\' + c + ']', 'the class holds the character')
        v.prove(z3.And(code < 128, z3.Not(CharSet('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789').z(code))), 'only special characters are escaped')


CONTRACTS = [class_characters, literal_regex, literal_bash, literal_zsh, groups, sequences]


# ---------------------------------------------------------------------------
# a matcher for Bash patterns that is independent of the code under test

class Unsupported(Exception):
    pass


def parse(p, quotes='\'"'):
    """-> list of ('c', char) | ('*',) | ('?',) | ('[', negated, items) | (x + '(', alternatives)"""
    def seq(i, depth):
        out, alts = [], []
        while i < len(p):
            c = p[i]
            if depth and c == ')':
                return alts + [out], i + 1
            if depth and c == '|':
                alts.append(out)
                out = []
                i += 1
            elif c in '@*+?!' and p[i + 1:i + 2] == '(':
                a, i = seq(i + 2, depth + 1)
                out.append((c + '(', a))
            elif c in '*?':
                out.append((c,))
                i += 1
            elif c == '[':
                t, i = bracket(i + 1)
                out.append(t)
            elif c == '\\' or c in quotes:
                t, i = quoted(i)
                out += [('c', x) for x in t]
            else:
                out.append(('c', c))
                i += 1
        if depth:
            raise Unsupported('unclosed')
        return out, i

    def quoted(i):
        c = p[i]
        if c == '\\':
            if i + 1 == len(p):
                raise Unsupported('trailing backslash')
            return p[i + 1], i + 2
        if c == "'":
            j = p.find("'", i + 1)
            if j < 0:
                raise Unsupported('unclosed')
            return p[i + 1:j], j + 1
        out, i = '', i + 1
        while i < len(p):
            if p[i] == '"':
                return out, i + 1
            if p[i] == '\\' and p[i + 1:i + 2] in ('$', '`', '"', '\\'):
                i += 1
            out += p[i]
            i += 1
        raise Unsupported('unclosed')

    def bracket(i):
        neg = p[i:i + 1] in ('!', '^')
        i += neg
        items, first = [], True
        while i < len(p):
            if p[i] == ']' and not first:
                if not items:
                    raise Unsupported('empty class')
                return ('[', neg, items), i + 1
            if p.startswith('[:', i):
                j = p.find(':]', i)
                if j > 0:
                    items.append(('class', p[i + 2:j]))
                    i, first = j + 2, False
                    continue
            first = False
            if p[i] == '\\' or p[i] in quotes:
                t, i = quoted(i)
                items += [('char', x) for x in t]
                continue
            if p[i] == '-' and items and items[-1][0] == 'char' and p[i + 1:i + 2] not in (']', ''):
                if p[i + 1] in quotes + '\\':
                    t, j = quoted(i + 1)
                    if not t:
                        raise Unsupported('range')
                    items[-1] = ('range', items[-1][1], t[0])
                    items += [('char', x) for x in t[1:]]
                    i = j
                else:
                    items[-1] = ('range', items[-1][1], p[i + 1])
                    i += 2
                continue
            items.append(('char', p[i]))
            i += 1
        raise Unsupported('unclosed')
    return seq(0, 0)[0]


CLASSES = {'alpha': str.isalpha, 'digit': lambda c: c in '0123456789', 'alnum': lambda c: c.isalpha() or c in '0123456789',
           'upper': str.isupper, 'lower': str.islower, 'space': str.isspace, 'blank': lambda c: c in ' \t'}


def matches(seq, s):
    """the texts that remain after `seq` has matched a beginning of s"""
    def after(t, s):
        if t[0] == 'c':
            return {s[1:]} if s[:1] == t[1] and s else set()
        if t[0] == '?':
            return {s[1:]} if s else set()
        if t[0] == '*':
            return {s[i:] for i in range(len(s) + 1)}
        if t[0] == '[':
            if not s:
                return set()
            c = s[0]
            ok = any(c == i[1] if i[0] == 'char' else i[1] <= c <= i[2] if i[0] == 'range' else CLASSES[i[1]](c) for i in t[2])
            return {s[1:]} if ok != t[1] else set()
        one = lambda x: set().union(*[rest(a, x) for a in t[1]])
        if t[0] == '@(':
            return one(s)
        if t[0] == '?(':
            return one(s) | {s}
        if t[0] in ('*(', '+('):
            out, todo = ({s} if t[0] == '*(' else set()), [s]
            while todo:
                for r in one(todo.pop()):
                    if r not in out:
                        out.add(r)
                        todo.append(r)
            return out
        return {s[i:] for i in range(len(s) + 1) if s[i:] not in [s[len(x):] for x in [s[:k] for k in range(len(s) + 1)]
                                                                 if '' in one(x)]}

    def rest(seq, s):
        cur = {s}
        for t in seq:
            cur = set().union(*[after(t, x) for x in cur]) if cur else cur
        return cur
    return rest(seq, s)


def match(seq, s):
    return '' in matches(seq, s)


PLAIN = 'ab1.+-_,=:@%'
ODD = ' ^$(){}|~#&;<>!`é'
SPECIAL = '*?[]\\\'"'


def random_pattern(rng, depth=2):
    out = ''
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        k = rng.random()
        if k < .4:
            c = rng.choice(PLAIN if rng.random() < .7 else ODD)
            out += c if depth == 2 or c not in '()|' else 'b'
        elif k < .6:
            out += rng.choice('**?')
        elif k < .75:
            out += '[' + rng.choice(['', '', '!', '^']) + ''.join(rng.choice(['a', 'b', 'a-c', '0-9', '.', '*', '?', '+', '-', '^', '$', '(', ')', '|', '"["', '"]"', "'*'",
                                                                              '\\]', '[:digit:]', '[:alpha:]', '!', '\\\\', '&', '~', '#', '{', '}', ','])
                                                                   for _ in range(rng.randint(1, 3))) + ']'
        elif k < .85:
            c = rng.choice(PLAIN + ODD + SPECIAL)
            out += rng.choice(["'%s'", '"%s"', '\\%s', '"a%sb"'] if c not in '\'"\\`$' else ['\\%s', '"\\%s"' if c != "'" else '"%s"', "'%s'" if c != "'" else '\\%s']) % c
        elif depth:
            out += rng.choice('@@@*+?') + '(' + '|'.join(random_pattern(rng, depth - 1) if out or depth < 2 or rng.random() < .9 else '' for _ in range(rng.randint(1, 3))) + ')'
    return out


def sample(rng, seq):
    """a text that is likely to match"""
    out = ''
    for t in seq:
        if t[0] == 'c':
            out += t[1]
        elif t[0] == '?':
            out += rng.choice('ab*?1')
        elif t[0] == '*':
            out += ''.join(rng.choice('ab.*') for _ in range(rng.randint(0, 2)))
        elif t[0] == '[':
            i = rng.choice(t[2])
            out += i[1] if i[0] == 'char' else rng.choice([i[1], i[2]]) if i[0] == 'range' else {'alpha': 'a', 'digit': '1'}[i[1]]
        else:
            for _ in range(rng.choice({'@': [1], '?': [0, 1], '*': [0, 1, 2], '+': [1, 2], '!': [1]}[t[0][0]])):
                out += sample(rng, rng.choice(t[1]))
    return out


PLAIN_NAME = re.compile(r'[\wé.+,:@%-]+')


def names(rng, seqs, n=14):
    out = set()
    for _ in range(n):
        s = sample(rng, rng.choice(seqs))
        k = rng.random()
        if k < .25:
            s = s.replace(rng.choice(s), '', 1) if s else s
        elif k < .5:
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice(PLAIN + ODD + SPECIAL) + s[i:]
        elif k < .65:
            s = rng.choice([s + 'x', 'x' + s, s.upper()])
        out.add(s)
    out |= set(rng.sample(['a', 'b', 'ab', '1', 'c', 'A', '*', '?', 'a.b', 'x', '\\', '+', '.x'], 4))
    return sorted('f' + s for s in out if '/' not in s and '\n' not in s and len(s) < 40)


def offered(sh, script, files, prog='mytool'):
    """the file names offered for an argument"""
    def sandbox(s):
        d = os.path.join(s.dir, 'd')
        os.mkdir(d)
        for f in files:
            open(os.path.join(d, f), 'w').close()
    f = {'bash': shells.bash_complete, 'fish': shells.fish_complete, 'zsh': shells.zsh_complete}[sh]
    if sh == 'bash':
        f = lambda *a, **k: shells.bash_complete(*a, **dict(k, extra='_quote_readline_by_ref() { printf -v $2 %s "$1"; }\n'))
    res, err, _left = f(script, prog, [[prog, '']], sandbox=sandbox)
    if not res:
        return None
    out = {c if isinstance(c, str) else c[0] for c in res[0]}
    if sh == 'zsh':  # the candidates are quoted
        out = {re.sub(r'\\(.)', r'\1', c) for c in out}
    return out


def written(seq):
    """the pattern with every ordinary character escaped"""
    esc = lambda c: '\\' + c if ord(c) < 128 and not c.isalnum() else c
    out = ''
    for t in seq:
        if t[0] == 'c':
            out += esc(t[1])
        elif t[0] in '*?':
            out += t[0]
        elif t[0] == '[':
            out += '[' + '!' * t[1] + ''.join(esc(i[1]) if i[0] == 'char' else esc(i[1]) + '-' + esc(i[2]) if i[0] == 'range' else '[:%s:]' % i[1] for i in t[2]) + ']'
        else:
            out += t[0] + '|'.join(map(written, t[1])) + ')'
    return out


def native(pats, files):
    """the files that Bash itself matches with the patterns"""
    script = 'shopt -s extglob\nfor f; do\nfor p in %s; do\n[[ $f == $p ]] && printf "%%s\\n" "$f"\ndone\ndone; true' % ' '.join(map(shlex.quote, map(written, map(parse, pats))))
    r = subprocess.run(['bash', '-c', script, 'bash', *files], capture_output=True, text=True, env={'LC_ALL': 'C.UTF-8', 'PATH': os.environ['PATH']})
    return set(r.stdout.split('\n')[:-1]) if not r.returncode and not r.stderr else None


def compare(b, kind, jobs):
    """jobs: [(shell, script, what, files, wanted files, patterns)]"""
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda j: offered(j[0], j[1], j[3]), jobs))
    bad = set()
    for (sh, _s, what, ns, want, pats), got in zip(jobs, res):
        if got is None:
            b.skip('no answer of %s' % sh)
            continue
        b.case(key=(sh, what, tuple(ns)))
        if sh == 'zsh':  # matches the patterns against the quoted name
            want = {f for f in want if PLAIN_NAME.fullmatch(f)}
            got = {f for f in got if PLAIN_NAME.fullmatch(f)}
        if got == want:
            continue
        if sh == 'bash' and pats:  # groups that match nothing after *
            n = native(pats, ns)
            if n is not None and got == set(ns) - n:
                continue
        if os.environ.get('C10_ALL'):
            print(sh, what, 'missing', sorted(want - got), 'unexpected', sorted(got - want))
        sig = '%s:%s' % (kind, sh)
        if sig not in bad:
            bad.add(sig)
            b.fail(sig, '%s: with %s, %r should also be offered, %r should not' % (sh, what, sorted(want - got), sorted(got - want)), what=what, files=ns, shell=sh)


def scripts(options):
    """-> [(shell, script)] or None if the definition is rejected"""
    dicts = [{'prog': 'mytool', 'positionals': [{'number': 1, 'complete': ['file', {'directory': 'd', **options}]}]}]
    try:
        with quiet():
            return [(sh, generate(sh, dicts, config())) for sh in SHELLS]
    except real('errors').CrazyError:
        return None


def ignore_globs(b):
    rng = b.rng
    b.begin('ignore_globs', 'random patterns with all kinds of parts and special characters, files with names derived from them; 3 shells, an independent matcher')
    jobs = []
    for _ in range(600 if b.thorough() else 120):
        pats = ['f' + random_pattern(rng) for _ in range(rng.choice([1, 1, 2]))]
        try:
            seqs = [parse(p) for p in pats]
        except Unsupported:
            continue
        ns = names(rng, seqs)
        want = {f for f in ns if not any(match(s, f) for s in seqs)}
        for sh, script in scripts({'ignore_globs': pats}) or ():
            jobs.append((sh, script, 'ignore_globs %r' % pats, ns, want, pats))
    compare(b, 'ignore_globs', jobs)


def extensions(b):
    rng = b.rng
    b.begin('extensions', 'random lists of extensions with special characters, files with names derived from them; 3 shells')
    jobs = []
    for _ in range(300 if b.thorough() else 60):
        exts = [''.join(rng.choice('aBc1' if rng.random() < .6 else "._+-*?[](){}|~#^$&;<>!`\\'\"ßéÉ中%@,=:") for _ in range(rng.randint(1, 4))) for _ in range(rng.choice([1, 1, 2, 3]))]
        fuzzy = rng.random() < .3
        ns = set()
        for _ in range(14):
            e = rng.choice(exts)
            e = rng.choice([e, e, e.upper(), e.lower(), e.swapcase(), e[1:], e[:-1], e + rng.choice('ab~.'), 'a' + e, e.replace(rng.choice(e), rng.choice('abx.')), e[::-1]])
            ns.add(rng.choice(['f', 'f.', 'f.x', 'F']) + rng.choice(['.', '.', '.', '']) + e)
        ns = sorted(n for n in ns if '/' not in n)
        low = [e.lower() for e in exts]
        want = {n for n in ns if any(n.lower().endswith('.' + e) or fuzzy and '.' + e in n.lower() for e in low)}
        if any(len(c.upper()) > 1 for c in ''.join(exts + ns)):
            ns = [n for n in ns if n == n.replace('SS', '')]
            want &= set(ns)
        for sh, script in scripts({'extensions': exts, 'fuzzy': fuzzy}) or ():
            jobs.append((sh, script, 'extensions %r%s' % (exts, ' (fuzzy)' if fuzzy else ''), ns, want, None))
    compare(b, 'extensions', jobs)


def parse_zsh(p):
    """the same for the Zsh patterns (as the words that `_files -F` splits them into)"""
    def seq(i, depth):
        out, alts = [], []
        while i < len(p):
            c = p[i]
            if depth and c == ')':
                return alts + [out], i + 1
            if depth and c == '|':
                alts.append(out)
                out, i = [], i + 1
            elif c == '(':
                a, i = seq(i + 1, depth + 1)
                out.append(('@(', a))
            elif c in '*?':
                out.append((c,))
                i += 1
            elif c == '[':
                j, items = i + 1, []
                neg = p[j] in '!^'
                j += neg
                while p[j] != ']':
                    if p.startswith('[:', j):
                        e = p.index(':]', j)
                        items.append(('class', p[j + 2:e]))
                        j = e + 2
                        continue
                    one = p[j] if p[j] != '\\' else p[j + 1]
                    j += 1 + (p[j] == '\\')
                    if p[j] == '-' and p[j + 1] != ']':
                        items.append(('range', one, p[j + 1]))
                        j += 2
                    else:
                        items.append(('char', one))
                out.append(('[', neg, items))
                i = j + 1
            elif c == '\\':
                out.append(('c', p[i + 1]))
                i += 2
            elif c in ' \t\'"$`':
                raise ValueError('%r is not an ordinary character' % c)
            else:
                out.append(('c', c))
                i += 1
        if depth:
            raise ValueError('unclosed')
        return out, i
    return seq(0, 0)[0]


POSIX = {'digit': '0-9', 'alpha': 'a-zA-Zé', 'alnum': '0-9a-zA-Zé', 'upper': 'A-Z', 'lower': 'a-zé', 'space': ' \\t\\n', 'blank': ' \\t'}


def regex_matcher(r):
    """with the POSIX classes that PCRE knows and Python doesn't"""
    out, i, inside = '', 0, False
    while i < len(r):
        if r[i] == '\\':
            out += r[i:i + 2]
            i += 2
            continue
        if not inside and r[i] == '[':
            if re.match(r'\[[:=.].*[:=.]\]', r[i:]):
                raise ValueError('PCRE takes this for a POSIX class')
            inside = True
        elif inside and r[i] == ']':
            inside = False
        elif inside and r.startswith('[:', i):
            j = r.index(':]', i)
            out += POSIX[r[i + 2:j]]
            i = j + 2
            continue
        out += r[i]
        i += 1
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c = re.compile('(?:%s)' % out, re.S)
    return lambda s: bool(c.fullmatch(s))


def translations(b):
    rng = b.rng
    P = real('pattern')
    b.begin('translations', 'all patterns of up to %d parts and random ones, each translation against an independent matcher, on names derived from the pattern' % (4 if b.thorough() else 3))
    parts = ['a', '*', '?', '[', ']', '!', '-', '@(', '|', ')', '"', '\\', "'", '^', '.', '?(', ' ', '[:digit:]']
    pats = [''.join(x) for n in range(1, 5 if b.thorough() else 4) for x in itertools.product(parts, repeat=n)]
    pats += [random_pattern(rng) for _ in range(20000 if b.thorough() else 4000)]
    kinds = [('bash_glob_to_regex', regex_matcher), ('bash_glob_to_zsh_glob', lambda x: lambda s, q=parse_zsh(x): match(q, s)),
             ('bash_glob_without_quotes', lambda x: lambda s, q=parse(x, ''): match(q, s))]
    bad = set()
    for p in pats:
        try:
            want = parse(p)
        except Unsupported:
            want = None
        ns = names(rng, [want], 8) if want is not None else []
        for name, matcher in kinds:
            f = getattr(P, name, None)
            if f is None or name in bad:
                continue
            b.case(key=(name, p))
            try:
                got = f(p)
            except ValueError:
                if want is not None and not may_reject(name, want):
                    bad.add(name)
                    b.fail(name + ':rejected', '%s refuses the pattern %r' % (name, p), pattern=p)
                continue
            if want is None:
                continue
            try:
                m = matcher(got)
                wrong = [s[1:] for s in ns if len(s) < 10 and m(s[1:]) != match(want, s[1:]) and s[1:]]
            except (ValueError, IndexError, re.error, Unsupported) as e:
                wrong = ['(invalid: %s)' % e]
            if wrong:
                bad.add(name)
                b.fail(name, '%s turns %r into %r, which is different for %r' % (name, p, got, wrong), pattern=p)


def may_reject(name, seq):
    """may the pattern have no translation?"""
    for t in seq:
        if t[0] == '[':
            # classes the lexer doesn't know, and ranges that are empty
            if any(i[0] == 'class' and i[1] not in CLASSES or i[0] == 'range' and i[1] > i[2] for i in t[2]) or not t[2]:
                return True
            if any(i == ('char', '[') for i in t[2]) or t[2][0] == ('char', ']'):
                return True
            if any(i[0] != 'char' and j == ('char', '-') for i, j in zip(t[2], t[2][1:])):
                return True
        elif len(t) > 1 and t[0][1:] == '(':
            if t[0] == '!(' or t[0] != '@(' and 'zsh' in name or any(may_reject(name, a) for a in t[1]):
                return True
    return False


BOUNDED = [translations, ignore_globs, extensions]
