"""C08: conditions are parsed exactly: well-formed accepted, malformed rejected."""
import itertools
import re
import subprocess
import functools

from pydv import instrument, vc
from .common import real

sp = instrument.mod('shell_parser')
wn = instrument.mod('when')
ss = instrument.mod('string_stream')
er = instrument.mod('errors')

RULE = 'a case is one condition text or token sequence, against an independent tokenizer and recursive descent parser'
TRUSTED = ['grep -E decides whether a regular expression is valid']
ASSUMPTIONS = ['operators are taken with equal precedence from left to right, as the shells do',
               'the grammar: test, ! expr, ( expr ), joined by && and ||; in double quotes a backslash quotes $, `, " and \\, elsewhere it is literal']


# ------------------------------------------------------------------ contracts

OPS = ('&&', '||')


def syntax(v):
    """check_syntax: for token sequences of every length, exactly the sequences of the grammar are accepted (a pushdown automaton: an operand is expected / has been read, and the number of open parentheses)"""
    v.covers('shell_parser.check_syntax')
    cmd = sp.Command()
    cmd.args = ['x']
    kinds = ['(', ')', '&&', '||', '!', cmd]
    tokens = v.list('tokens', lambda n: v.choose(n, kinds))

    def want(last):
        return last is None or (isinstance(last, str) and last in ('(', '&&', '||', '!'))

    def step(st, t):
        last, depth = st['last'], st['depth']
        if t is cmd and last is cmd:
            raise vc.PathEnd('precondition: make_commands merges adjacent words')
        w = want(last)
        if t is cmd or t in ('(', '!'):
            if not w:
                raise vc.SpecReject('%s where an operator is expected' % (t,))
        elif w:
            raise vc.SpecReject('%s where a test is expected' % t)
        if t == '(':
            depth = depth + 1
        if t == ')':
            if vc.API.truth(depth <= 0):
                raise vc.SpecReject('unbalanced )')
            depth = depth - 1
        return {'last': t, 'depth': depth}
    tokens.fold = vc.Fold({'last': None, 'depth': 0}, step,
                          {'last': lambda n: v.choose(n, [None] + kinds), 'depth': 'int'})
    tokens.fold.inv = lambda st: st['depth'] >= (1 if st['last'] == '(' else 0)
    try:
        sp.check_syntax(tokens)
    except ValueError:
        f = tokens.fold
        if f.final is None and f.__dict__.get('cur') is None:
            v.prove(True, 'an empty sequence is rejected')
            return
        if f.final is not None:
            st = f.final
            v.prove(want(st['last']) or bool(vc.API.truth(st['depth'] > 0)), 'an error at the end only for an incomplete sequence')
            return
        try:
            f.step(dict(f.cur), tokens.elem)
        except vc.SpecReject:
            v.prove(True, 'an error where the specification rejects')
            return
        v.prove(False, 'an error where the specification goes on')
        return
    st = tokens.fold.final
    v.prove(st is not None and not want(st['last']), 'an accepted sequence ends with a complete test')
    v.prove(st is not None and st['depth'] == 0, 'an accepted sequence has balanced parentheses')


def _args(v, n_opts, sep, n_vals):
    """options, separator and values: lists of any length >= the given minimum"""
    args = []
    opts = vals = []
    if n_opts:
        first = v.str('opt0')
        v.assume(first != '--')
        rest = v.list('opts', lambda n: vc.SymStr.var(n))
        v.assume(rest.elem != '--')
        opts = [first, vc.Seg(rest, [rest.elem])]
        args += opts
    if sep:
        args.append('--')
    if n_vals:
        rest = v.list('vals', lambda n: vc.SymStr.var(n))
        vals = [v.str('val0'), vc.Seg(rest, [rest.elem])]
        args += vals
    return args, opts, vals


def option_is_args(v):
    """OptionIs: flags, then options up to the first --, then values; accepted exactly with valid options and at least one of each, for lists of every length and all texts"""
    v.covers('when.OptionIs.__init__')
    valid = {}

    def ok(s):
        return valid.setdefault(vc.skey(s), v.bool('valid%d' % len(valid)))
    v.patch(wn, 'is_valid_option_string', ok)
    flags = v.choose('flags', [[], ['nocase'], ['any'], ['NoCase', 'ANY'], ['any', 'any', 'nocase']])
    has_o, sep, has_v = v.choose('opts', [True, False]), v.choose('sep', [True, False]), v.choose('vals', [True, False])
    if not sep and has_v:
        return
    args, opts, vals = _args(v, has_o, sep, has_v)
    if has_o:
        for f in ('nocase', 'any'):
            v.assume(opts[0].lower() != f)
    elif has_v and not sep:
        return
    try:
        o = wn.OptionIs(flags + args)
    except er.CrazyError:
        bad = not has_o or not has_v
        if not bad:
            bad = not (vc.API.truth(ok(opts[0])) and vc.API.truth(ok(opts[1].src.elem)))
        v.prove(bad, 'rejected only without options or values, or with an invalid option')
        return
    v.prove(has_o and has_v, 'accepted only with options and values')
    v.same(o.options, opts, 'options')
    v.same(o.values, vals, 'values')
    v.same(o.ignore_case, any(f.lower() == 'nocase' for f in flags), 'nocase')
    v.same(o.any, any(f.lower() == 'any' for f in flags), 'any')


def positional_count_args(v):
    """PositionalCount: exactly an operator and a number"""
    v.covers('when.PositionalCount.__init__')
    n = v.choose('n', [0, 1, 2, 3])
    op = v.choose('op', ['==', '!=', '<=', '>=', '<', '>', None])
    args = [op if op else v.str('op'), v.choose('num', ['0', '1', '17', 'x', '']), v.str('more')][:n]
    if n and op is None:
        for o in ('==', '!=', '<=', '>=', '<', '>'):
            v.assume(args[0] != o)
    good = n == 2 and op and args[1].isdigit()
    try:
        o = wn.PositionalCount(list(args))
    except er.CrazyError:
        v.prove(not good, 'rejected only if malformed')
        return
    v.prove(bool(good), 'accepted only if well-formed')
    v.same(o.operator, op, 'operator')
    v.same(o.number, int(args[1]), 'number')


def positional_contains_args(v):
    """PositionalContains: optional -i, a number, values of any number and text"""
    v.covers('when.PositionalContains.__init__')
    flag = v.choose('flag', [[], ['-i']])
    num = v.choose('num', [[], ['1'], ['12'], ['x'], ['']])
    has_v = v.choose('vals', [True, False])
    if has_v and not num:
        return
    _a, _o, vals = _args(v, False, False, has_v)
    good = num and num[0].isdigit() and has_v
    try:
        o = wn.PositionalContains(flag + num + list(vals))
    except er.CrazyError:
        v.prove(not good, 'rejected only if malformed')
        return
    v.prove(bool(good), 'accepted only if well-formed')
    v.same(o.number, int(num[0]), 'number')
    v.same(o.ignore_case, bool(flag), 'ignore_case')
    v.same(o.values, vals, 'values')


def has_option_args(v):
    """HasOption: one or more valid options"""
    v.covers('when.HasOption.__init__')
    valid = {}

    def ok(s):
        return valid.setdefault(vc.skey(s), v.bool('valid%d' % len(valid)))
    v.patch(wn, 'is_valid_option_string', ok)
    has_o = v.choose('opts', [True, False])
    args, opts, _ = _args(v, has_o, False, False)
    try:
        o = wn.HasOption(list(args))
    except er.CrazyError:
        bad = not has_o or not (vc.API.truth(ok(opts[0])) and vc.API.truth(ok(opts[1].src.elem)))
        v.prove(bad, 'rejected only without options or with an invalid one')
        return
    v.prove(has_o, 'accepted only with options')
    v.same(o.options, opts, 'options')


def commands_replaced(v):
    """replace_commands: for token lists of every length, operators stay and every command is replaced by the object of its test, in order"""
    v.covers('when.replace_commands')
    made = []
    for name in ('OptionIs', 'OptionMatch', 'HasOption', 'PositionalCount', 'PositionalContains'):
        v.patch(wn, name, functools.partial(lambda name, args: made.append((name, list(args))) or (name, tuple(args)), name))
    names = {'option_is': 'OptionIs', 'option_match': 'OptionMatch', 'has_option': 'HasOption',
             'positional_count': 'PositionalCount', 'positional_contains': 'PositionalContains'}
    cmd = sp.Command()
    kind = v.choose('command', list(names) + ['other'])
    cmd.args = [kind, 'a', 'b']
    elem = v.choose('token', ['&&', '||', '!', '(', ')', cmd])
    tokens = v.list('tokens', lambda n: elem, 1)
    try:
        got = wn.replace_commands(tokens)
    except er.CrazyError:
        v.prove(elem is cmd and kind == 'other', 'rejected only with an unknown test')
        return
    v.prove(elem is not cmd or kind != 'other', 'accepted only with known tests')
    want = (names[kind], ('a', 'b')) if elem is cmd else elem
    v.prove(isinstance(got, list) and len(got) == 1 and isinstance(got[0], vc.Seg) and
            len(got[0].outs) == 1 and got[0].outs[0] == want, 'one object per token')


CONTRACTS = [syntax, option_is_args, has_option_args, positional_count_args, positional_contains_args, commands_replaced]


# ------------------------------------------------------------------ bounded: independent parser

class Malformed(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c.isspace():
            i += 1
        elif s[i:i + 2] in OPS:
            out.append(s[i:i + 2])
            i += 2
        elif s[i:i + 2] == '!=':
            out.append(['!='])
            i += 2
        elif c in '!()':
            out.append(c)
            i += 1
        elif c in '&|':
            raise Malformed('single operator')
        else:
            w = ''
            while i < len(s) and not s[i].isspace() and s[i] not in '&|!()':
                if s[i] == "'":
                    j = s.find("'", i + 1)
                    if j < 0:
                        raise Malformed('quote')
                    w += s[i + 1:j]
                    i = j + 1
                elif s[i] == '"':
                    i += 1
                    while True:
                        if i >= len(s):
                            raise Malformed('quote')
                        if s[i] == '"':
                            break
                        if s[i] == '\\':
                            i += 1
                            if i >= len(s):
                                raise Malformed('backslash')
                            if s[i] not in '$`"\\':
                                w += '\\'
                        w += s[i]
                        i += 1
                    i += 1
                else:
                    w += s[i]
                    i += 1
            out.append([w])
    merged = []
    for t in out:
        if isinstance(t, list) and merged and isinstance(merged[-1], list):
            merged[-1] += t
        else:
            merged.append(t if isinstance(t, str) else list(t))
    return merged


def parse(tokens):
    pos = 0

    def expr():
        nonlocal pos
        term()
        while pos < len(tokens) and tokens[pos] in OPS:
            pos += 1
            term()

    def term():
        nonlocal pos
        if pos >= len(tokens):
            raise Malformed('end')
        t = tokens[pos]
        pos += 1
        if t == '!':
            term()
        elif t == '(':
            expr()
            if pos >= len(tokens) or tokens[pos] != ')':
                raise Malformed('unclosed')
            pos += 1
        elif isinstance(t, str):
            raise Malformed(t)
    expr()
    if pos != len(tokens):
        raise Malformed('trailing')
    return tokens


OPTION_STRING = re.compile(r'-[^\s,]+')


def valid_option(s):
    return bool(OPTION_STRING.fullmatch(s)) and s != '--'


@functools.lru_cache(None)
def valid_regex(s):
    return subprocess.run(['grep', '-q', '-E', '--', s], input=b'', stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL, check=False).returncode != 2


def test(words):
    """the meaning of one test, or Malformed"""
    cmd, args = words[0], list(words[1:])
    if cmd in ('option_is', 'option_match'):
        flags = set()
        while args and args[0].lower() in ('nocase', 'any'):
            flags.add(args.pop(0).lower())
        if '--' not in args:
            raise Malformed('values')
        i = args.index('--')
        opts, vals = args[:i], args[i + 1:]
        if not opts or not vals or not all(map(valid_option, opts)):
            raise Malformed('options')
        if cmd == 'option_match' and (len(vals) != 1 or not vals[0] or not valid_regex(vals[0])):
            raise Malformed('regex')
        return cmd, opts, vals, 'nocase' in flags, 'any' in flags
    if cmd == 'has_option':
        if not args or not all(map(valid_option, args)):
            raise Malformed('options')
        return cmd, args
    if cmd == 'positional_count':
        if len(args) != 2 or args[0] not in ('==', '!=', '<=', '>=', '<', '>') or not re.fullmatch('[0-9]+', args[1]):
            raise Malformed('count')
        return cmd, args[0], int(args[1])
    if cmd == 'positional_contains':
        nocase = args[:1] == ['-i']
        if nocase:
            del args[0]
        if len(args) < 2 or not re.fullmatch('[0-9]+', args[0]):
            raise Malformed('contains')
        return cmd, int(args[0]), args[1:], nocase
    raise Malformed('unknown test')


def meaning(text):
    return [t if isinstance(t, str) else test(t) for t in parse(tokenize(text))]


def got_meaning(tokens):
    out = []
    for t in tokens:
        n = type(t).__name__
        if n == 'OptionIs':
            out.append(('option_is', t.options, t.values, t.ignore_case, t.any))
        elif n == 'OptionMatch':
            out.append(('option_match', t.options, [t.regex], t.ignore_case, t.any))
        elif n == 'HasOption':
            out.append(('has_option', t.options))
        elif n == 'PositionalCount':
            out.append(('positional_count', t.operator, t.number))
        elif n == 'PositionalContains':
            out.append(('positional_contains', t.number, t.values, t.ignore_case))
        else:
            out.append(t)
    return out


def check(b, text, tag):
    b.case(key=text)
    try:
        want = meaning(text)
    except Malformed:
        want = None
    w = real('when')
    try:
        got = got_meaning(w.parse_when(text))
    except real('errors').CrazyError:
        got = None
    except Exception as e:     # pylint: disable=broad-except
        b.fail('when:exception', 'parse_when(%r) ends with %s: %s' % (text, type(e).__name__, e), text=text)
        return False
    if got != want:
        b.fail('when:%s' % tag, 'parse_when(%r) is %s, it should be %s' % (
            text, 'rejected' if got is None else 'read as %r' % (got,), 'rejected' if want is None else 'read as %r' % (want,)), text=text)
        return False
    return True


def structures(b):
    n = 7 if b.thorough() else 6
    b.begin('all small structures', 'all sequences of up to %d tokens of && || ! ( ) and tests, with and without blanks' % n)
    alpha = ['&&', '||', '!', '(', ')', 'has_option -a']
    for k in range(n + 1):
        for ws in itertools.product(alpha, repeat=k):
            if any(x == y == alpha[5] for x, y in zip(ws, ws[1:])):
                continue
            if not check(b, ' '.join(ws), 'structure'):
                return
            if k <= 4 and not check(b, ''.join(ws), 'structure'):
                return


def long_texts(b):
    b.begin('long conditions', 'deep nesting and many tests and blanks')
    t = 'has_option -a'
    for n in (10, 200, 5000):
        for text in (t + ' && ' * 0 + ' ' * n, ' ' * n + t, '\t\n' * n + t + ' ' * n + '-b', ' && '.join([t] * n),
                     '! ' * n + t, '(' * n + t + ')' * n, '(' * n + t + ')' * (n - 1), 'option_is -a -- ' + 'x ' * n,
                     'option_is -a -- "%s"' % ('x\\"' * n), "option_is -a -- '%s'" % ('" ' * n)):
            if n == 5000 and (text.startswith('! ') or text.startswith('(')):
                continue                 # the recursive oracle itself
            if not check(b, text, 'long'):
                return


def tests(b):
    rng = b.rng
    b.begin('tests and words', 'all five tests with right and wrong arguments, every way of quoting, random characters')
    words = ['-a', '--bar', '-old', '--', '-', '', 'x', 'nocase', 'any', 'NOCASE', '-i', '-I', '1', '0', '12', '-1', '1x', '==', '!=', '<=', '<', '>', '>=', '=',
             'a b', "it's", '"', '\\', '(', '&&', '!', '[', '[a-z]+', '*', 'a|b', 'ä', '--a,b', '-a b', '$x', '`x`', '#', '-=', '--foo=bar']
    cmds = ['option_is', 'option_match', 'has_option', 'positional_count', 'positional_contains', 'option_count', 'Has_Option', '']

    def quoted(w):
        k = rng.randint(0, 3)
        if k == 0 and w and not re.search(r'[\s"\'&|!()]', w):
            return w
        if k == 1 and "'" not in w:
            return "'%s'" % w
        if k == 2 and w:
            i = rng.randint(0, len(w))
            return quoted(w[:i]) + quoted(w[i:]) if i not in (0, len(w)) else quoted(w)
        return '"%s"' % re.sub(r'(["\\])', r'\\\1', w)
    for c in cmds:
        for k in range(3):
            for ws in itertools.product(words[:16], repeat=k):
                if not check(b, ' '.join([quoted(c)] + [quoted(w) for w in ws]), 'test'):
                    return
    templates = [['option_is', 'F', 'O', 'S', 'V'], ['option_match', 'F', 'O', 'S', 'V1'], ['has_option', 'O'],
                 ['positional_count', 'C', 'N'], ['positional_contains', 'I', 'N', 'V']]
    for n in range(20000 if b.thorough() else 5000):
        toks = []
        for i in range(rng.randint(1, 4)):
            if i:
                toks.append(rng.choice(['&&', '||', ' && ', '||\n']))
            toks += rng.choice([[], [], ['!'], ['! '], ['(', ')'][:1]])
            ws = []
            for p in rng.choice(templates):
                if p == 'F':
                    ws += [rng.choice(['nocase', 'any', 'Any']) for _ in range(rng.choice([0, 0, 1, 2]))]
                elif p == 'O':
                    ws += [rng.choice(['-a', '--bar', '-old', '--b-c', rng.choice(words)]) for _ in range(rng.randint(1, 3))]
                elif p == 'S':
                    ws += ['--'] if rng.random() < 0.95 else []
                elif p == 'V':
                    ws += [rng.choice(words) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                elif p == 'V1':
                    ws += [rng.choice(words) for _ in range(rng.choice([0, 1, 1, 1, 1, 2]))]
                elif p == 'C':
                    ws += [rng.choice(['==', '!=', '<=', '>=', '<', '>', '=', '<>'])]
                elif p == 'N':
                    ws += [rng.choice(['1', '2', '0', '10', 'x', '', '1.0'])] if rng.random() < 0.9 else []
                elif p == 'I':
                    ws += ['-i'] if rng.random() < 0.3 else []
                else:
                    ws.append(p)
            toks.append(' '.join(quoted(w) for w in ws))
            if rng.random() < 0.2:
                toks.append(')')
        text = ''.join(toks)
        if rng.random() < 0.15:
            i = rng.randrange(len(text) + 1)
            text = text[:i] + rng.choice(list('&|!()\'"\\ x')) + text[i + rng.randint(0, 1):]
        if '-1' in text and 'positional' in text:
            continue
        if not check(b, text, 'random'):
            return


BOUNDED = [structures, long_texts, tests]
