"""C06: Bash case patterns match exactly the option strings they stand for."""
import itertools

from pydv import instrument, vc
from pydv.charset import CharSet
from pydv.lexers import Lexer, reads_back
from . import shells
from .common import config, generate, real

bp = instrument.mod('bash_patterns')
bu = instrument.mod('bash_utils')

RULE = 'a case is one word against one generated pattern, in real Bash or in an independent matcher that agrees with Bash'
TRUSTED = ['word lexer of Bash (pydv/lexers.py), an independent matcher for the extended patterns (validated against Bash in the bounded part)']
# white space and control characters can't be part of an option string or are never typed
PRINTABLE = CharSet([chr(i) for i in range(32)] + [chr(127)], True)
ASSUMPTIONS = ['option strings and commands contain no control characters', 'sorted() returns a permutation (modelled as an arbitrary one)']


# ------------------------------------------------------------------ contracts

def escaped(v):
    """for every non-empty string s, Bash reads escape(s) in a pattern as exactly the characters of s, none of them special"""
    s = v.str('s', PRINTABLE)
    v.assume(s != '')
    reads_back(v, Lexer('bash'), bp.escape(s), s, 'escape')


def alternatives(v):
    """_build_pattern: the pattern of a list of alternative patterns is that alternative, or @(..|..) of exactly those, or the digit range [a-b] of exactly the digits a..b"""
    v.covers('bash_patterns._build_pattern')
    n = v.choose('n', [1, 2, 3])
    parts = []
    for i in range(n):
        p = v.choose('kind%d' % i, ['text', '', '1', '2', '9', '10'])
        if p == 'text':
            p = v.str('part%d' % i)
            v.assume(vc.BI.len(p) >= 2)
        parts.append(p)
    for a, b in itertools.combinations(parts, 2):
        v.assume(a != b)
    got = bp._build_pattern(list(parts))
    if n == 1:
        v.same(got, parts[0], 'a single alternative is itself')
        return
    if all(isinstance(p, str) and len(p) == 1 for p in parts):
        d = sorted(parts)
        contiguous = all(int(y) == int(x) + 1 for x, y in zip(d, d[1:]))
        if contiguous and got == '[%s-%s]' % (d[0], d[-1]):
            v.prove(True, 'a digit range of exactly those digits')
            return
    wants = []
    for perm in itertools.permutations(parts):
        w = '@(' + perm[0]
        w = vc.SymStr.of('@(')
        for i, p in enumerate(perm):
            w = w + ('|' if i else '') + p
        wants.append(w + ')')
    v.prove(any(vc.provably_equal(vc.SymStr.of(got), w) for w in wants), 'exactly the alternatives, in some order')


def trie_node(v):
    """trie_to_pattern: by contract of the recursive calls, the alternatives of a node are each token followed by the pattern of its child, and the empty rest exactly if a string ends here"""
    v.covers('bash_patterns.trie_to_pattern')
    node = bp.TrieNode()
    n = v.choose('children', [0, 1, 2, 3])
    node.is_terminal = v.choose('terminal', [True, False])
    subs = {}
    for i, t in enumerate('ab\\'[:n]):
        child = bp.TrieNode()
        leaf = v.choose('leaf%d' % i, [True, False])
        sub = '' if leaf else v.str('sub%d' % i)
        if not leaf:
            v.assume(sub != '')
        subs[id(child)] = sub
        node.children[t] = child
    original = bp.trie_to_pattern
    v.patch(bp, 'trie_to_pattern', lambda c: subs[id(c)] if id(c) in subs else original(c))
    v.patch(bp, '_build_pattern', lambda parts: ['built'] + list(parts))
    got = original(node)
    if n == 0:
        v.prove(got == '', 'a leaf adds nothing')
        return
    want = [t + subs[id(c)] if vc.API.truth(subs[id(c)] != '') else t for t, c in node.children.items()]
    if node.is_terminal:
        want.append('')
    v.prove(isinstance(got, list) and len(got) == len(want) + 1 and
            all(any(vc.provably_equal(vc.SymStr.of(g), vc.SymStr.of(w)) for g in got[1:]) for w in want) and
            all(any(vc.provably_equal(vc.SymStr.of(g), vc.SymStr.of(w)) for w in want) for g in got[1:]),
            'exactly the alternatives of the node')


def joined_patterns(v):
    """CasePatterns: for a list of option strings of any length, the case pattern has exactly one escaped alternative per option string (followed by =* for the form with a value)"""
    v.covers('bash_utils.CasePatterns.for_long_without_arg', 'bash_utils.CasePatterns.for_long_with_arg',
             'bash_utils.CasePatterns.for_short')
    esc = {}

    def escape(s):
        k = vc.skey(s)
        return esc.setdefault(k, v.str('esc%d' % len(esc)))
    v.patch(bp, 'escape', escape)
    strings = v.list('strings', lambda n: vc.SymStr.var(n), 1)
    which = v.choose('which', ['for_long_without_arg', 'for_long_with_arg'])
    got = getattr(bu.CasePatterns, which)(strings)
    e = escape(strings.elem)
    if which == 'for_long_with_arg':
        e = e + '=*'
    want = vc.SymStr.of('|').join([vc.Seg(strings, [e])])
    v.same(got, want, which)


CONTRACTS = [escaped, alternatives, trie_node, joined_patterns]


# ------------------------------------------------------------------ bounded
# an independent matcher of the patterns: *, ?, [..], @(..|..), *(..), \\c, and top level |

def match(pat, word):
    return any(_m(p, 0, word, 0) for p in _split(pat))


def _split(pat):
    out, cur, depth, i, inset = [], '', 0, 0, False
    while i < len(pat):
        c = pat[i]
        if c == '\\':
            cur += pat[i:i + 2]
            i += 2
            continue
        if inset:
            inset = c != ']'
        elif c == '[':
            inset = True
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        elif c == '|' and depth == 0:
            out.append(cur)
            cur = ''
            i += 1
            continue
        cur += c
        i += 1
    return out + [cur]


def _close(p, i):
    depth = 0
    while True:
        c = p[i]
        if c == '\\':
            i += 1
        elif c == '[':
            i += 1
            while p[i] != ']':
                i += 2 if p[i] == '\\' else 1
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if not depth:
                return i
        i += 1


def _m(p, i, w, j):
    if i == len(p):
        return j == len(w)
    c = p[i]
    if c == '\\':
        return j < len(w) and w[j] == p[i + 1] and _m(p, i + 2, w, j + 1)
    if c in '@*' and p[i + 1:i + 2] == '(':
        k = _close(p, i + 1)
        alts = _split(p[i + 2:k])
        if c == '@':
            return any(_m(a + p[k + 1:], 0, w, j) for a in alts)
        return _m(p, k + 1, w, j) or any(
            any(_m(a, 0, w[j:n], 0) and _m(p, i, w, n) for n in range(j + 1, len(w) + 1)) for a in alts)
    if c == '*':
        return any(_m(p, i + 1, w, n) for n in range(j, len(w) + 1))
    if c == '?':
        return j < len(w) and _m(p, i + 1, w, j + 1)
    if c == '[':
        k, chars = i + 1, []
        while p[k] != ']':
            if p[k] == '\\':
                k += 1
                chars.append((p[k], p[k]))
            elif p[k + 1:k + 2] == '-' and p[k + 2:k + 3] != ']':
                chars.append((p[k], p[k + 2]))
                k += 2
            else:
                chars.append((p[k], p[k]))
            k += 1
        return j < len(w) and any(a <= w[j] <= b for a, b in chars) and _m(p, k + 1, w, j + 1)
    return j < len(w) and w[j] == c and _m(p, i + 1, w, j + 1)


def in_bash(items):
    """items: [(pattern, words)] -> list of lists of bool, decided by Bash itself"""
    t = 'shopt -s extglob\n'
    for pat, words in items:
        for w in words:
            t += 'case %s in %s) printf 1;; *) printf 0;; esac\n' % (shells.q(w), pat)
        t += "printf '\\n'\n"
    with shells.Scratch() as s:
        r = s.run(['bash', '--noprofile', '--norc', s.write('t', t)])
    rows = r.stdout.decode('utf-8', 'replace').split('\n')[:-1]
    return [[c == '1' for c in row] for row in rows], r.stderr.decode('utf-8', 'replace')


SPECIAL = "?*[]^!|()\\'\"$&;<>`{}~#"


def neighbours(words, rng):
    out = set(words)
    for w in words:
        out.add(w + 'x')
        out.add(w[:-1])
        out.add(w + w[-1:])
        out.add('x' + w)
        for i, c in enumerate(w):
            if c.isdigit():
                out.add(w[:i] + str((int(c) + 1) % 10) + w[i + 1:])
                out.add(w[:i] + str((int(c) - 1) % 10) + w[i + 1:])
            if c in SPECIAL or rng.random() < 0.2:
                out.add(w[:i] + 'q' + w[i + 1:])
                out.add(w[:i] + w[i + 1:])
    for a, b in itertools.combinations(list(words)[:6], 2):
        out.add(a + '|' + b)
        out.add(a[:2] + b[2:])
    return sorted(x for x in out if '\n' not in x)


def word_sets(b):
    rng = b.rng
    short = ['-' + ''.join(t) for k in (1, 2) for t in itertools.product('a1', repeat=k)]
    for k in (1, 2, 3):
        for ws in itertools.combinations(short, k):
            yield list(ws)
    nums = ['-%s%s' % (p, x) for p in ('', 'v') for x in ('0', '1', '2', '9', '10', '11', '01', '99', '100')]
    for k in (2, 3):
        for ws in itertools.combinations(nums, k):
            yield list(ws)
    for c in SPECIAL:
        yield ['-' + c]
        yield ['-' + c, '--' + c + 'a', '--a' + c]
        yield ['--x' + c + 'y', '--x' + c + 'z', '--xay']
    yield ['--with-a', '--with-b', '--without-a', '--without-b', '--with', '-w']
    yield ['--foo', '--foobar', '--foobarbaz']
    yield ["it's", 'its', 'i[t]s']
    yield ['5', '6', '7', '8', '9', '10', '11']
    for _ in range(1500 if b.thorough() else 400):
        al = rng.choice(['ab', 'ab1', 'abc12', '0123456789', 'a-', 'ab?*', 'aä', 'ab' + SPECIAL, '12|@+'])
        yield sorted({'-' * rng.choice([0, 1, 2, 2]) + ''.join(rng.choice(al) for _ in range(rng.randint(1, 6)))
                      for _ in range(rng.randint(1, 9))})


def patterns(b):
    rng = b.rng
    b.begin('patterns', 'word sets over small alphabets, numbers, special characters, random; neighbours of every word; '
                        'decided by an independent matcher, a sample by Bash')
    m, cp = real('bash_patterns'), real('bash_utils').CasePatterns
    sample = []
    for n, ws in enumerate(word_sets(b)):
        forms = [('make_pattern', m.make_pattern, ws, '')]
        longs = [w for w in ws if w.startswith('-') and len(w) > 2]
        if longs:
            forms.append(('for_long_without_arg', cp.for_long_without_arg, longs, ''))
            forms.append(('for_long_with_arg', cp.for_long_with_arg, longs, '='))
        olds = [w for w in longs if not w.startswith('--')]
        if olds:
            forms.append(('for_old_without_arg', cp.for_old_without_arg, olds, ''))
        singles = [w for w in ws if len(w) == 2 and w[0] == '-' and w[1] != '-']
        if singles:
            forms.append(('for_short', cp.for_short, singles, 's'))
        for name, f, args, form in forms:
            pat = f(list(args))
            targets = {w[1] for w in args} if form == 's' else set(args)
            words = neighbours(sorted(targets), rng)
            if form == '=':
                words = [w + x for w in words for x in ('', '=', '=v', '=a=b')]

            def truth(w):
                if form == '=':
                    return any(w.startswith(t + '=') for t in targets)
                return w in targets
            for w in words:
                b.case(key=(name, tuple(args), w))
                if match(pat, w) != truth(w):
                    got, err = in_bash([(pat, [w])])
                    if got != [[truth(w)]]:
                        b.fail('pattern:%s' % name, '%s(%r) = %s: Bash %s the word %r (%r) %s' % (
                            name, args, pat, 'does not match' if truth(w) else 'matches', w, got, err[:200]),
                            words=args, pattern=pat, word=w)
                        return
            if n % (1 if b.thorough() else 4) == 0:
                sample.append((name, args, pat, words, [truth(w) for w in words]))
    got, err = in_bash([(s[2], s[3]) for s in sample])
    if len(got) != len(sample):
        b.fail('pattern:syntax', 'Bash rejects one of the patterns: %s' % err[:300], patterns=[s[2] for s in sample][len(got):len(got) + 3])
        return
    for (name, args, pat, words, want), g in zip(sample, got):
        for w, x, y in zip(words, want, g):
            b.case(key=('bash', name, tuple(args), w))
            if x != y:
                b.fail('pattern:%s' % name, '%s(%r) = %s: Bash %s the word %r' % (name, args, pat, 'does not match' if x else 'matches', w),
                       words=args, pattern=pat, word=w)
                return


def definitions(rng, thorough):
    special = list('?*[]^!$&;(){}~#@+%:1_')
    yield [['-?', '-h'], ['-*', '--all*'], ['-!'], ['-1'], ['-2', '--x|y'], ['--foo', '--foobar']], []
    yield [['-9', '-v9'], ['-v10', '--v11'], ['--p1', '--p2', '--p3'], ['--q9', '--q10']], ['c1', 'c2', 'c10', 'c9']
    yield [['-a', '-abc'], ['-abd', '-b'], ['-bcd', '--abc'], ['-x?', '-y*']], ['i[t]', "it's", 'a b'.replace(' ', '_')]
    for _ in range(40 if thorough else 10):
        names, rows = set(), []
        for _ in range(rng.randint(2, 6)):
            row = []
            for _ in range(rng.randint(1, 3)):
                kind = rng.choice(['s', 'l', 'l', 'o'])
                cs = rng.choice(['ab', 'ab12', 'abc' + ''.join(special)])
                body = ''.join(rng.choice(cs) for _ in range(1 if kind == 's' else rng.randint(2, 5)))
                o = ('--' if kind == 'l' else '-') + body
                if o not in names and '=' not in o:
                    names.add(o)
                    row.append(o)
            if row:
                rows.append(row)
        cmds = sorted({''.join(rng.choice('ab12?[]*') for _ in range(rng.randint(1, 3))) for _ in range(3)})
        yield rows, cmds


def scripts(b):
    rng = b.rng
    b.begin('scripts in Bash', 'random definitions with special characters; every option string and neighbours, in all accepted forms')
    for n, (rows, cmds) in enumerate(definitions(rng, b.thorough())):
        dicts = [{'prog': 'mytool', 'options': [
            {'option_strings': r, 'complete': ['choices', ['val%d' % i]], 'repeatable': False,
             'optional_arg': i % 3 == 2} for i, r in enumerate(rows)]}]
        for i, c in enumerate(cmds):
            dicts.append({'prog': 'mytool ' + c, 'positionals': [{'number': 1, 'complete': ['choices', ['cmd%d' % i]]}]})
        script = generate('bash', dicts, config())
        owner = {s: i for i, r in enumerate(rows) for s in r}
        optional = {s for i, r in enumerate(rows) if i % 3 == 2 for s in r}
        cases = []
        for w in neighbours(sorted(owner), rng):
            if not w.startswith('-') or w in ('-', '--') or '=' in w:
                continue
            if len(w) > 2 and not w.startswith('--') and w not in owner:
                continue                          # a cluster of short options
            i = owner.get(w)
            if len(w) == 2 or w in owner or w.startswith('--'):
                cases.append((['mytool', w, ''], ['val%d' % i] if i is not None and w not in optional else []))
            if len(w) > 2:
                cases.append((['mytool', w + '='], ['val%d' % i] if i is not None else []))
            if len(w) == 2 and not any(o.startswith(w + 'v') for o in owner if not o.startswith('--')) and i is not None:
                cases.append((['mytool', w + 'v'], ['%sval%d' % (w, i)]))
        for w in neighbours(cmds, rng):
            if w and not w.startswith('-') and ' ' not in w:
                i = cmds.index(w) if w in cmds else None
                cases.append((['mytool', w, ''], ['cmd%d' % i] if i is not None else []))
        cases = [c for c in cases if not any(x in ''.join(c[0]) for x in '\'"\\:&;|<>`()$#')]
        got, err, _ = shells.bash_complete(script, 'mytool', [c[0] for c in cases])
        if got is None or 'syntax error' in err:
            b.fail('script', 'the Bash script cannot be used: %s' % err[:400], definition=dicts)
            return
        for (q, want), g in zip(cases, got):
            b.case(key=(n, tuple(q)))
            g = [x for x in g if 'val' in x or 'cmd' in x]
            if g != want:
                b.fail('script', 'option strings %r, commands %r: `%s` is completed as %r, not %r %s' % (
                    rows, cmds, ' '.join(q), g, want, err[:200]), definition=dicts, words=q)
                return


BOUNDED = [patterns, scripts]
