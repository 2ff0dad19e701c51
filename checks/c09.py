"""C09: a when condition means the same in the three shells."""
import re

from pydv import instrument, vc
from checks.common import config, generate, SHELLS
from checks import c05, c08

bw = instrument.mod('bash_when')
zw = instrument.mod('zsh_when')
fc = instrument.mod('fish_conditions')
wn = instrument.mod('when')
sh_ = instrument.mod('shell')

TRUSTED = ['the helper functions of the three shells and the shells themselves (bounded part)',
           'words are read back by the quoting contracts of C01']
ASSUMPTIONS = ['conditions refer to declared options; option values are given as complete words; regular expressions use the part of '
               'the syntax that is common to POSIX EREs and PCRE']
RULE = ('random conditions of every kind with hostile arguments, alone and combined, on options, alternatives of options and positionals, and in '
        'subcommands; each is evaluated by completing random command lines in the three shells and by an independent model')


class Helpers:
    """helpers.use_function is external here: it returns the name of the function"""

    def __init__(self):
        self.used = []

    def use_function(self, name, *defines):
        self.used.append((name,) + defines)
        return 'F_' + name

    def use(self, command=None):
        return self.use_function('query', *([command] if command else []))


class Ctxt:
    def __init__(self):
        self.helpers = Helpers()


def _some(v, name):
    """a list of any length >= 1 of any texts"""
    rest = v.list(name, lambda n: vc.SymStr.var(n))
    return [v.str(name + '0'), vc.Seg(rest, [rest.elem])]


def _obj(v, cls):
    o = object.__new__(cls)
    o.ignore_case = v.choose('ignore_case', [True, False])
    o.any = v.choose('any', [True, False])
    return o


def _quoted(items):
    """the quoted arguments, in order"""
    out = []
    for i in items:
        out.append(vc.Seg(i.src, [sh_.quote(x) for x in i.outs]) if isinstance(i, vc.Seg) else sh_.quote(i))
    return out


def _abstract_quote(v):
    """shell.quote is used by its contract (C01): some text that depends only on its argument"""
    v.patch(sh_, 'quote', lambda x, quote_empty_string=True: vc.SymStr.of(x)._fn('quote'))


def _joined(items):
    return vc.SymStr.of(' ').join(items) if any(isinstance(i, vc.Seg) for i in items) else ' '.join(items)


def _flags(o):
    return (['-i'] if o.ignore_case else []) + (['-a'] if o.any else [])


def zsh_tests(v):
    """Zsh: option_is, option_match and has_option get their flags, every option and every value, in order, each as one quoted word, for lists of any length and any text"""
    v.covers('zsh_when._generate_option_is', 'zsh_when._generate_option_match', 'zsh_when._generate_has_option')
    kind = v.choose('kind', ['is', 'match', 'has'])
    _abstract_quote(v)
    c = Ctxt()
    q = c.helpers
    opts = _some(v, 'opts')
    if kind == 'has':
        o = object.__new__(wn.HasOption)
        o.options = list(opts)
        got = zw._generate_has_option(c, q, o)
        want = ['F_query', 'has_option'] + opts
        used = [('query', 'has_option')]
    elif kind == 'is':
        o = _obj(v, wn.OptionIs)
        o.options, o.values = list(opts), _some(v, 'vals')
        got = zw._generate_option_is(c, q, o)
        want = ['F_query', 'option_is'] + _flags(o) + ['--'] + opts + ['--'] + o.values
        used = [('query', 'option_is')] + [('query', 'any')] * o.any + [('query', 'nocase')] * o.ignore_case
    else:
        o = _obj(v, wn.OptionMatch)
        o.options, o.regex = list(opts), v.str('regex')
        got = zw._generate_option_match(c, q, o)
        want = ['F_option_match'] + _flags(o) + ['--'] + opts + ['--', o.regex]
        used = [('query',), ('option_match',)] + [('option_match', 'any')] * o.any + [('option_match', 'nocase')] * o.ignore_case
    v.same(got, _joined(_quoted(want)), 'command')
    v.prove(set(used) <= set(q.used), 'the needed parts of the helpers are included')


def fish_tests(v):
    """Fish: the condition objects hold the options, values, flags, operator and number of the parsed test, and get_code passes them on in order, for lists of any length and any text"""
    v.covers('fish_conditions.replace_commands', 'fish_conditions.OptionIs.get_code', 'fish_conditions.OptionMatch.get_code',
             'fish_conditions.HasOption.get_code', 'fish_conditions.PositionalNum.get_code', 'fish_conditions.PositionalContains.get_code')
    kind = v.choose('kind', ['is', 'match', 'has', 'count', 'contains'])
    c = Ctxt()
    calls = []
    v.patch(fc, 'make_condition_command', lambda prefix, args: calls.append((prefix, list(vc.items_of(args)))) or 'code')
    v.patch(fc, 'is_list_type', lambda x: True)
    opts = _some(v, 'opts')
    if kind == 'has':
        o = object.__new__(wn.HasOption)
        o.options = list(opts)
        want = ('$has_option', opts)
        used = [('has_option',)]
    elif kind == 'is':
        o = _obj(v, wn.OptionIs)
        o.options, o.values = list(opts), _some(v, 'vals')
        want = ('$option_is', _flags(o) + ['--'] + opts + ['--'] + o.values)
        used = [('option_is',)] + [('option_is', 'any')] * o.any + [('option_is', 'nocase')] * o.ignore_case
    elif kind == 'match':
        o = _obj(v, wn.OptionMatch)
        o.options, o.regex = list(opts), 'some regex'
        want = ('$option_match', _flags(o) + ['--'] + opts + ['--', o.regex])
        used = [('option_match',)] + [('option_match', 'any')] * o.any + [('option_match', 'nocase')] * o.ignore_case
    elif kind == 'count':
        o = object.__new__(wn.PositionalCount)
        o.operator = v.choose('operator', ['==', '!=', '<=', '>=', '<', '>'])
        o.number = v.choose('number', [0, 1, 2, 17])
        test = {'==': '-eq', '!=': '-ne', '<=': '-le', '>=': '-ge', '<': '-lt', '>': '-gt'}[o.operator]
        want = ('$num_of_positionals', [test, str(o.number)])
        used = [('num_of_positionals',)]
    else:
        o = object.__new__(wn.PositionalContains)
        o.number = v.choose('number', [1, 2, 17])
        o.ignore_case = v.choose('ignore_case', [True, False])
        o.values = _some(v, 'vals')
        want = ('$positional_contains', ['-i'] * o.ignore_case + [str(o.number)] + o.values)
        used = [('positional_contains',)] + [('positional_contains', 'nocase')] * o.ignore_case
    conds = fc.replace_commands([o])
    v.prove(len(conds) == 1, 'one condition per test')
    code = conds[0].get_code(c)
    v.same(code, 'code', 'the command is the code')
    v.prove(len(calls) == 1 and calls[0][0] == want[0], 'the right command')
    v.same(calls[0][1], want[1], 'arguments')
    v.prove(set(used) <= set(c.helpers.used), 'the needed parts of the helpers are included')


class Variables:
    def capture_variable(self, o):
        return 'OPT_' + o


class BashCommandline:
    def __init__(self, found):
        self.found = found

    def get_options_by_option_strings(self, strings):
        self.asked = strings
        return self.found


def bash_tests(v):
    """Bash: option_is tests every value against the values of exactly the options found, option_match passes regex and flag, has_option adds up the occurrences of all options; for lists of any length and any text"""
    v.covers('bash_when.ConditionGenerator._gen_option_is', 'bash_when.ConditionGenerator._gen_option_match',
             'bash_when.ConditionGenerator._gen_has_option', 'bash_when.ConditionGenerator._gen_variables')
    kind = v.choose('kind', ['is', 'match', 'has'])
    _abstract_quote(v)
    found = v.choose('found', [['a'], ['a', 'b'], ['a', 'b', 'c']])
    cl = BashCommandline(found)
    c = Ctxt()
    g = bw.ConditionGenerator(c, cl, Variables())
    opts = _some(v, 'opts')
    if kind == 'has':
        o = object.__new__(wn.HasOption)
        o.options = opts
        v.same(g._gen_has_option(o), '(( %s ))' % ' + '.join('${#OPT_%s[@]}' % f for f in found), 'sum of the occurrences')
    else:
        o = _obj(v, wn.OptionIs if kind == 'is' else wn.OptionMatch)
        o.options = opts
        var = ' '.join(('"${OPT_%s[@]}"' if o.any else '"${OPT_%s[@]: -1:1}"') % f for f in found)
        if kind == 'is':
            n = v.choose('n', [1, 2, 3])
            o.values = [v.str('val%d' % i) for i in range(n)]
            func = 'F_array_contains_nocase' if o.ignore_case else 'F_array_contains'
            want = ''
            for i, x in enumerate(o.values):
                want = want + (' || ' if i else '') + func + ' ' + sh_.quote(x) + ' ' + var
            if n > 1:
                want = '{ ' + want + '; }'
            v.same(g._gen_option_is(o), want, 'one test per value')
        else:
            o.regex = v.str('regex')
            v.same(g._gen_option_match(o), 'F_array_match ' + ('-i ' if o.ignore_case else '') + '-- ' + sh_.quote(o.regex) + ' ' + var, 'command')
    v.prove(cl.asked is opts, 'the options of the test are looked up')


def positional_tests(v):
    """positional_count and positional_contains in Bash and Zsh: operator, number (counted from 0 and 1) and every value, for lists of any length"""
    v.covers('bash_when.ConditionGenerator._gen_positional_contains', 'bash_when.ConditionGenerator._gen_positional_count',
             'zsh_when._generate_positional_contains', 'zsh_when._generate_positional_count')
    shell = v.choose('shell', ['bash', 'zsh'])
    _abstract_quote(v)
    c = Ctxt()
    g = bw.ConditionGenerator(c, None, None)
    if v.choose('count', [True, False]):
        o = object.__new__(wn.PositionalCount)
        o.operator = v.choose('operator', ['==', '!=', '<=', '>=', '<', '>'])
        o.number = v.choose('number', [0, 1, 2, 17])
        got = g._gen_positional_count(o) if shell == 'bash' else zw._generate_positional_count(c, None, o)
        v.same(got, '(( ${#POSITIONALS[@]} %s %d ))' % (o.operator, o.number), 'count')
        return
    o = object.__new__(wn.PositionalContains)
    o.number = v.choose('number', [1, 2, 17])
    o.ignore_case = v.choose('ignore_case', [True, False])
    o.values = _some(v, 'vals')
    got = g._gen_positional_contains(o) if shell == 'bash' else zw._generate_positional_contains(c, None, o)
    word = ('"${POSITIONALS[%d]%s}"' % (o.number - 1, ',,' if o.ignore_case else '') if shell == 'bash' else
            '"${%sPOSITIONALS[%d]}"' % ('(L)' if o.ignore_case else '', o.number))
    values = _joined(_quoted(o.values))
    if o.ignore_case:
        values = values.lower()
    v.same(got, '{ (( ${#POSITIONALS[@]} >= %d )) && F_array_contains ' % o.number + word + ' ' + values + '; }', 'command')


KINDS = ('OptionIs', 'OptionMatch', 'HasOption', 'PositionalCount', 'PositionalContains')


def _tokens(v, ops):
    cls = v.choose('token', list(ops) + list(KINDS))
    elem = object.__new__(getattr(wn, cls)) if cls in KINDS else cls
    return cls, elem, v.list('tokens', lambda n: elem, 1)


def bash_combination(v):
    """Bash: a condition of any number of tokens becomes the same operators, negations, groups and tests in the same order, in braces if it may contain ||"""
    v.covers('bash_when.ConditionGenerator.generate')
    cls, elem, tokens = _tokens(v, ('&&', '||', '!', '(', ')'))
    g = bw.ConditionGenerator(None, None, None)
    for k, n in zip(KINDS, ('option_is', 'option_match', 'has_option', 'positional_count', 'positional_contains')):
        setattr(g, '_gen_' + n, lambda o, k=k: 'code of ' + k)
    braces = v.choose('braces', [True, False])
    v.patch(wn, 'needs_braces', lambda t: braces)
    want = vc.SymStr.of(' ').join([vc.Seg(tokens, [{'(': '{', ')': ';}'}.get(cls, cls if cls not in KINDS else 'code of ' + cls)])])
    v.same(g.generate(tokens), '{ ' + want + '; }' if braces else want, 'condition')


def zsh_combination(v):
    """Zsh: as in Bash, for any number of tokens other than ! (double negations are dropped; bounded)"""
    v.covers('zsh_when._generate')
    cls, elem, tokens = _tokens(v, ('&&', '||', '(', ')'))
    for k, n in zip(KINDS, ('option_is', 'option_match', 'has_option', 'positional_count', 'positional_contains')):
        v.patch(zw, '_generate_' + n, lambda c, q, o, k=k: 'code of ' + k)
    braces = v.choose('braces', [True, False])
    v.patch(wn, 'needs_braces', lambda t: braces)
    want = vc.SymStr.of(' ').join([vc.Seg(tokens, [{'(': '{', ')': ';}'}.get(cls, cls if cls not in KINDS else 'code of ' + cls)])])
    v.same(zw._generate(None, None, tokens), '{ ' + want + '; }' if braces else want, 'condition')


def fish_combination(v):
    """Fish: as in Bash, with begin and end; the other conditions of a completion come before, each in double quotes"""
    v.covers('fish_conditions.Conditions.get_conditions', 'fish_conditions.Conditions.add_when')
    cls, elem, tokens = _tokens(v, ('&&', '||', '!', '(', ')'))

    class Code:
        def __init__(self, text):
            self.text = text

        def get_code(self, _ctxt):
            return self.text
    conds = fc.Conditions()
    if cls in KINDS:
        elem = Code('code of ' + cls)
    v.patch(fc, 'replace_commands', lambda t: v.list('conds', lambda n: elem, 1))
    others = v.choose('others', [[], ['one'], ['one', 'two']])
    for o in others:
        conds.add(Code(o))
    conds.add_when(tokens)
    src = conds.when
    got = conds.get_conditions(None)
    want = vc.SymStr.of(' ').join([vc.Seg(src, [{'(': 'begin', ')': ';end'}.get(cls, cls if cls not in KINDS else 'code of ' + cls)])])
    v.prove(len(got) == len(others) + 1, 'one item per condition')
    for x, y in zip(got, others):
        v.same(x, '"%s"' % y, 'other condition')
    v.same(got[-1], '"' + want + '"', 'condition')


def braces_needed(v):
    """needs_braces: true for every sequence that contains ||"""
    v.covers('when.needs_braces')
    before, after = v.list('before', lambda n: object()), v.list('after', lambda n: object())
    tokens = [object(), vc.Seg(before, [before.elem]), '||', vc.Seg(after, [after.elem]), object()]
    v.prove(bool(wn.needs_braces(tokens)), 'a sequence with || gets braces')


CONTRACTS = [zsh_tests, fish_tests, bash_tests, positional_tests, bash_combination, zsh_combination, fish_combination, braces_needed]


# ------------------------------------------------------------------ bounded

# id -> option strings, kind of argument
OPTS = {'flag': (['--flag', '-f'], '0'), 'arg': (['--arg', '-a'], '1'), 'opt': (['--opt', '-o'], '?'), 'old': (['-old'], '1'),
        'gray': (['--gray', '--grey'], '1'), 'next': (['-n'], '1')}
VALS = ['v1', 'v2', 'V1', 'x y', 'a*', '$x', '[ab]', "it's", 'ä', '-1', 'a|b', '(', '!', '#x', '~', 'v1*', '?1', 'a"b', '`v1`', ';', '&&', '%s', '{a,b}']
NARGS = {'options': 0}


def quote(sh, w):
    if re.fullmatch(r'[A-Za-z0-9_./=-]+', w) or w == '':
        return w
    if sh == 'fish':
        return "'" + w.replace('\\', '\\\\').replace("'", "\\'") + "'"
    return "'" + w.replace("'", "'\\''") + "'"


def q_when(s):
    return "'%s'" % s if "'" not in s else '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"').replace('$', '\\$')


def parse_words(words, opts=OPTS):
    """independent reading of a command line -> ([(option id, value)], positionals)"""
    byname = {s: i for i, (ss, _k) in opts.items() for s in ss}
    occ, pos = [], []
    ws = list(words)
    while ws:
        w = ws.pop(0)
        if w == '--':
            return occ, pos + ws
        if w.startswith('--'):
            name, eq, val = w.partition('=')
            i = byname.get(name)
            if i is None:
                continue
            if eq:
                occ.append((i, val))
            elif opts[i][1] == '1':
                if ws:
                    occ.append((i, ws.pop(0)))
            else:
                occ.append((i, ''))
        elif w.startswith('-') and w != '-':
            name, eq, val = w.partition('=')
            i = byname.get(name)
            if i is not None and len(name) > 2 and (not eq or opts[i][1] != '0'):
                if eq:
                    occ.append((i, val))
                elif opts[i][1] == '1':
                    if ws:
                        occ.append((i, ws.pop(0)))
                else:
                    occ.append((i, ''))
                continue
            j = 1
            while j < len(w):
                i = byname.get('-' + w[j])
                rest = w[j + 1:]
                j += 1
                if i is None:
                    continue
                if opts[i][1] == '0':
                    occ.append((i, ''))
                elif opts[i][1] == '?':
                    occ.append((i, rest))
                    break
                else:
                    if rest:
                        occ.append((i, rest))
                    elif ws:
                        occ.append((i, ws.pop(0)))
                    break
        else:
            pos.append(w)
    return occ, pos


def holds(test, occ, pos, opts=OPTS):
    byname = {s: i for i, (ss, _k) in opts.items() for s in ss}
    if test[0] == 'has_option':
        ids = {byname[s] for s in test[1]}
        return any(i in ids for i, _v in occ)
    if test[0] in ('option_is', 'option_match'):
        _t, names, vals, nocase, any_ = test
        ids = {byname[s] for s in names}
        seen = [v for i, v in occ if i in ids]
        if not any_:
            last = {i: [v for j, v in occ if j == i][-1:] for i in ids}
            seen = [v for vs in last.values() for v in vs]
        if test[0] == 'option_match':
            return any(re.search(vals[0], v, re.I if nocase else 0) for v in seen)
        low = (lambda x: x.lower()) if nocase else (lambda x: x)
        return any(low(v) == low(x) for v in seen for x in vals)
    if test[0] == 'positional_count':
        return {'==': len(pos) == test[2], '!=': len(pos) != test[2], '<': len(pos) < test[2], '>': len(pos) > test[2],
                '<=': len(pos) <= test[2], '>=': len(pos) >= test[2]}[test[1]]
    _t, n, vals, nocase = test
    if len(pos) < n:
        return False
    low = (lambda x: x.lower()) if nocase else (lambda x: x)
    return low(pos[n - 1]) in [low(v) for v in vals]


def evaluate(tokens, occ, pos, opts=OPTS):
    """shell rules: && and || have equal precedence and associate to the left, ! binds to one test or group"""
    i = 0

    def unary():
        nonlocal i
        t = tokens[i]
        i += 1
        if t == '!':
            return not unary()
        if t == '(':
            r = expr()
            i += 1
            return r
        return holds(t, occ, pos, opts)

    def expr():
        nonlocal i
        r = unary()
        while i < len(tokens) and tokens[i] in ('&&', '||'):
            op = tokens[i]
            i += 1
            s = unary()
            r = (r and s) if op == '&&' else (r or s)
        return r
    return expr()


REGEXES = ['^v', '1$', '.', 'x y', 'V', '^$', '^[ab*]+$', '(v|a)1', 'a\\*', '^[^v]', '\\$x', 'it\'s', '^.{2}$', 'a\\|b', 'ä', '#']


def atom(rng):
    """-> (class, text)"""
    k = rng.randrange(6)
    some = list(OPTS)
    if k == 0:
        ids = rng.sample(some, rng.randint(1, 3))
        return 'has_option', 'has_option ' + ' '.join(rng.choice(OPTS[i][0]) for i in ids)
    if k in (1, 2):
        any_ = rng.random() < .4
        nocase = rng.random() < .3
        ids = rng.sample(some, rng.choice([1, 1, 1, 2, 3]))
        strings = [s for i in ids for s in OPTS[i][0]]
        cls = 'option_is' if k == 1 else 'option_match'
        if len(ids) > 1 and not any_:
            cls += ' of several options'
        if rng.random() < .3 and any(len(OPTS[i][0]) > 1 for i in ids):
            strings = [OPTS[i][0][0] for i in ids] if rng.random() < .5 else [OPTS[i][0][-1] for i in ids]
            cls += ' by one of its strings'
        pre = [x for x, y in (('any', any_), ('nocase', nocase)) if y]
        rng.shuffle(pre)
        rng.shuffle(strings)
        if k == 1:
            vals = [rng.choice(VALS + ['', '--']) for _ in range(rng.randint(1, 3))]
            if '--' in vals:
                vals.remove('--')
                vals = vals or ['v1']
            return cls, ' '.join(['option_is'] + pre + strings + ['--'] + [q_when(x) for x in vals])
        return cls, ' '.join(['option_match'] + pre + strings + ['--', q_when(rng.choice(REGEXES))])
    if k == 3:
        return 'positional_count', 'positional_count %s %d' % (rng.choice(['==', '!=', "'!='", '<', '>', '<=', '>=']), rng.randint(0, 3))
    vals = [rng.choice(VALS + ['']) for _ in range(rng.randint(1, 3))]
    if rng.random() < .2:
        vals = vals[:1] * 2 + vals
    i = rng.choice(['', '-i '])
    return 'positional_contains', 'positional_contains %s%d %s' % (i, rng.randint(1, 3), ' '.join(q_when(x) for x in vals))


def clean_atom(rng):
    while True:
        c, t = atom(rng)
        if ' ' not in c and "''" not in t:
            return t


def condition(rng, depth):
    if depth == 0:
        return clean_atom(rng)
    k = rng.randrange(5)
    if k == 0:
        return '! ' + (condition(rng, depth - 1) if rng.random() < .5 else clean_atom(rng))
    if k == 1:
        return '( ' + condition(rng, depth - 1) + ' )'
    if k == 2:
        return '! ( ' + condition(rng, depth - 1) + ' )'
    return condition(rng, depth - 1) + rng.choice([' && ', ' || ']) + condition(rng, depth - 1)


def command_line(rng):
    out = []
    for _ in range(rng.randint(0, 5)):
        k = rng.randrange(9)
        v = rng.choice(VALS)
        safe = v if not v.startswith('-') else 'v1'
        if k == 0:
            out.append(rng.choice(['--flag', '-f']))
        elif k == 1:
            o = rng.choice(['--arg', '-a', '--gray', '--grey', '-old', '-n'])
            out += [o, rng.choice(['v1', 'v2', 'V1', v])]
        elif k == 2:
            out.append(rng.choice(['--arg', '--gray', '--grey', '-old', '--opt']) + '=' + v)
        elif k == 3:
            out.append('-a' + safe)
        elif k == 4:
            out.append(rng.choice(['--opt', '-o', '-ov1', '-fo', '-ffav2', '-fn']))
            if out[-1] == '-fn':
                out.append(safe)
        elif k == 5:
            out.append('-o' + safe)
        else:
            out.append(rng.choice([safe, 'v1', 'v2', 'V1', '-']))
    return out


def base_options():
    return [{'option_strings': ss, 'repeatable': True, **({} if k == '0' else {'complete': ['none']}), **({'optional_arg': True} if k == '?' else {})}
            for ss, k in OPTS.values()]


def flags_of(res):
    return {c.strip() for c in res if c.strip().startswith('--co')}


def run_conditions(b, rng, conds, n_lines, tag, sub=False):
    """conds: [(class, text)]"""
    opts = base_options()
    flags = [{'option_strings': ['--co%03d' % i], 'when': c} for i, (_cls, c) in enumerate(conds)]
    pos = [{'number': 1, 'repeatable': True, 'complete': ['none']}]
    if sub:
        dicts = [{'prog': 'mytool', 'options': opts[:3]}, {'prog': 'mytool sub', 'options': opts[3:] + flags, 'positionals': pos},
                 {'prog': 'mytool other', 'options': [{'option_strings': ['--other']}]}]
    else:
        dicts = [{'prog': 'mytool', 'options': opts + flags, 'positionals': pos}]
    lines = [[]] + [command_line(rng) for _ in range(n_lines)]
    if sub:
        lines = [rng.choice([[], [], ['--flag'], ['-a', 'v1'], ['--opt=v2'], ['-fo']]) + ['sub'] + l for l in lines]
    tokens = [c08.meaning(c) for _cls, c in conds]
    bad = set()
    for sh in SHELLS:
        script = generate(sh, dicts, config(set_inherit_options=True))
        queries = [['mytool'] + [quoted(sh, w) for w in l] + ['--co'] for l in lines]
        res = c05.complete(sh, script, queries)
        if res is None:
            b.skip('%s gave no answer' % sh)
            continue
        for l, r in zip(lines, res):
            occ, ps = parse_words(l)
            if sub:
                ps = ps[1:]
            got = flags_of(r)
            for i, (cls, c) in enumerate(conds):
                b.case(key=(sh, c, tuple(l)))
                if (sh, i) in bad:
                    continue
                want = evaluate(tokens[i], occ, ps)
                if want != ('--co%03d' % i in got):
                    b.fail('%s:%s:%s' % (tag, sh, cls), '%s: after `mytool %s` an option with when %r %s' % (
                        sh, ' '.join(quoted(sh, w) for w in l), c,
                        'is not offered although the condition is true' if want else 'is offered although the condition is false'),
                        definition=dicts, words=l, shell=sh, when=c)
                    bad.add((sh, i))


def quoted(sh, w):
    m = re.match(r'(--?[a-z]+=|-[a-z]*)(.*)$', w, re.S)
    if m and m.group(2):
        return m.group(1) + quote(sh, m.group(2))
    return quote(sh, w)


def single_tests(b):
    b.begin('single tests', 'random tests of every kind with hostile arguments, random command lines, 3 shells')
    for _ in range(12 if b.thorough() else 4):
        run_conditions(b, b.rng, [atom(b.rng) for _ in range(60)], 40, 'test')


def combinations(b):
    b.begin('combinations of tests', 'random conditions with !, &&, || and parentheses, random command lines, 3 shells')
    for i in range(12 if b.thorough() else 4):
        run_conditions(b, b.rng, [('condition', condition(b.rng, b.rng.randint(1, 4))) for _ in range(50)], 40, 'condition', sub=False)




def in_subcommands(b):
    b.begin('conditions in subcommands', 'conditions on options of the subcommand and of its parent, random command lines, 3 shells')
    for i in range(8 if b.thorough() else 2):
        cs = []
        while len(cs) < 40:
            c = condition(b.rng, b.rng.randint(0, 2))
            if 'positional' not in c:
                cs.append(('condition', c))
        run_conditions(b, b.rng, cs, 40, 'subcommand', sub=True)


def alternatives(b):
    """the same option or positional defined several times under different conditions"""
    b.begin('alternatives', 'an option and two positionals defined under exclusive conditions, 3 shells')
    rng = b.rng
    for _ in range(12 if b.thorough() else 4):
        conds = []
        while len(conds) < 3:
            c = condition(rng, rng.randint(0, 2))
            if 'positional_count' in c or (len(conds) < 2 and 'positional' in c):
                continue
            conds.append(c)
        alts = [(c, '! ( %s )' % c) for c in conds]

        def val(i, yes):
            return ['choices', ['val.%d.%s' % (i, yes)]]
        dicts = [{'prog': 'mytool',
                  'options': base_options() + [{'option_strings': ['--pick', '-p'], 'complete': val(0, y), 'when': w, 'repeatable': True}
                                               for y, w in zip((True, False), alts[0])],
                  'positionals': [{'number': n, 'complete': val(n, y), 'when': w} for n in (1, 2) for y, w in zip((True, False), alts[n])]}]
        lines = []
        while len(lines) < 30:
            l = command_line(rng)
            occ, ps = parse_words(l)
            if l and (l[-1] in ('--arg', '-a', '--gray', '--grey', '-old', '-n') or l[-1].startswith('-f')) or '-' in ps:
                continue
            lines.append(l)
        for sh in SHELLS:
            script = generate(sh, dicts)
            queries, wants = [], []
            for l in lines:
                occ, ps = parse_words(l)
                words = ['mytool'] + [quoted(sh, w) for w in l]
                for form, n in ((['--pick', ''], 0), (['-p', ''], 0), ([''], len(ps) + 1)):
                    if n > 2 or (n == 2 and len(ps) != 1):
                        continue
                    queries.append(words + form)
                    wants.append('val.%d.%s' % (n, evaluate(c08.meaning(conds[n]), occ, ps)))
            res = c05.complete(sh, script, queries)
            if res is None:
                b.skip('%s gave no answer' % sh)
                continue
            for q, w, r in zip(queries, wants, res):
                b.case(key=(sh, tuple(conds), tuple(q)))
                if [x.strip() for x in r if x.startswith('val.')] != [w]:
                    b.fail('alternatives:%s' % sh, '%s: `%s` with conditions %r is completed as %r, not %r' % (sh, ' '.join(q), conds, r, w),
                           definition=dicts, words=q, shell=sh)
                    break


BOUNDED = [single_tests, combinations, in_subcommands, alternatives]
