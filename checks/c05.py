"""C05: an abbreviation is accepted exactly when it names one command or option."""
import itertools

from pydv import instrument, vc
from . import shells
from .common import SHELLS, config, generate, real

utils = instrument.mod('utils')
cli = instrument.mod('cli')
v2 = instrument.mod('bash_parser_v2')

RULE = 'a case is one typed word in one scope of one definition in one shell (or one word in one word list)'
ASSUMPTIONS = ['option abbreviations exist in Bash only (documented); prefixes of an alias that are no prefix of the command name '
               'are not specified', 'abbreviations of old-style options have at least 3 characters, of long options at least 3']


# ------------------------------------------------------------------ contracts

def generator_abbreviations(v):
    """GeneralAbbreviationGenerator, for words of every length and content (one or two different words): a prefix of a word is its abbreviation iff it is the word itself or no other word starts with it"""
    v.covers('utils.GeneralAbbreviationGenerator.__init__', 'utils.GeneralAbbreviationGenerator.get_abbreviations')
    n = v.choose('number of words', [1, 2])
    words = [v.str('w%d' % i) for i in range(n)]
    for a, b in itertools.combinations(words, 2):
        v.assume(a != b)
    minlen = v.choose('minimum', [1, 3])
    w = words[0]
    v.assume(vc.BI.len(w) >= minlen)
    g = utils.GeneralAbbreviationGenerator(minlen, words)
    got = g.get_abbreviations(w)
    got = vc.items_of(got)
    v.prove(len(got) > 0 and all(isinstance(s, vc.Seg) and not s.opaque for s in got), 'every abbreviation is a prefix')
    for i, s in enumerate(got):
        if i:
            v.prove(s.outs == [], 'the loops of the other words add nothing')
            continue
        length = s.src.elem
        prefix = w.getitem(slice(None, length))
        other = [o.startswith(prefix) for o in words[1:]]
        full = v.holds(length == vc.BI.len(w))
        ambiguous = False
        for o in other:
            ambiguous = v.holds(o) or ambiguous
        if full or not ambiguous:
            v.prove(len(s.outs) == 1, 'an unambiguous prefix (or the word itself) is accepted')
            if len(s.outs) == 1:
                v.same(s.outs[0], prefix, 'and it is that prefix')
        else:
            v.prove(len(s.outs) == 0, 'an ambiguous prefix is not accepted')


class Recorder:
    """stands for an abbreviation generator: by contract, it decides within the words it was given"""

    def __init__(self, words):
        self.words = list(words)

    def get_abbreviations(self, word):
        return [('abbreviations of', word, 'in', self)]


def names_in_scope(v):
    """get_all_command_variations: the words among which a command is abbreviated are all names of its siblings (with their aliases) and its own; full names and aliases always belong to it; with abbreviations disabled nothing else does"""
    v.covers('utils.get_all_command_variations')
    v.patch(utils, 'CommandAbbreviationGenerator', Recorder)
    n = v.choose('siblings', [1, 2, 3])
    parent = cli.CommandLine('p')
    subs = parent.add_subcommands()
    cmds = []
    for i in range(n):
        c = cli.CommandLine('c%d' % i)
        c.prog = v.str('name%d' % i)
        c.aliases = [v.str('alias%d.%d' % (i, k)) for k in range(v.choose('aliases%d' % i, [0, 1, 2]))]
        c.parent = parent
        subs.subcommands.append(c)
        cmds.append(c)
    c = cmds[v.choose('which', list(range(n)))]
    c.abbreviate_commands = v.choose('abbreviate', [True, False])
    before = list(c.aliases)
    got = list(utils.get_all_command_variations(c))
    v.prove(len(c.aliases) == len(before) and all(a is b for a, b in zip(c.aliases, before)), 'the aliases are unchanged')
    rec = [g for g in got if isinstance(g, tuple)]
    plain = [g for g in got if not isinstance(g, tuple)]
    for a in before:
        v.prove(any(a is g for g in plain), 'every alias names the command')
    if not c.abbreviate_commands:
        v.prove(not rec and any(g is c.prog for g in plain) and len(plain) == 1 + len(before), 'only full names')
        return
    v.prove(len(rec) == 1 and rec[0][1] is c.prog and len(plain) == len(before), 'its abbreviations and its aliases')
    words = rec[0][3].words
    for o in cmds:
        v.prove(any(w is o.prog for w in words), 'every sibling name is in scope')
        for a in o.aliases:
            if o is not c:
                v.prove(any(w is a for w in words), 'every alias of a sibling is in scope')
    v.prove(all(any(w is x for o in cmds for x in [o.prog] + o.aliases) for w in words), 'and nothing else')


def options_in_scope(v):
    """get_option_abbreviator: the words are the long and old-style option strings of the options in scope, nothing is abbreviated when that is disabled"""
    v.covers('utils.get_option_abbreviator')
    v.patch(utils, 'OptionAbbreviationGenerator', Recorder)
    c = cli.CommandLine('p')
    c.abbreviate_options = v.choose('abbreviate', [True, False])
    c.inherit_options = v.choose('inherit', [True, False])
    strings = {'short': ['-a', '-b'], 'long': ['--aa', '--bb'], 'old': ['-cc', '-dd']}
    opts = []
    for i in range(2):
        o = cli.Option(c, ['-x'])
        o.option_strings = [strings[k][i] for k in v.choose('kinds%d' % i, [
            ['short'], ['long'], ['old'], ['short', 'long'], ['old', 'long', 'short'], ['long', 'old']])]
        opts.append(o)
    seen = []

    def get_options(self, with_parent_options=False, only_with_arguments=False):
        seen.append((self is c, with_parent_options, only_with_arguments))
        return opts
    v.patch(cli.CommandLine, 'get_options', get_options)
    r = utils.get_option_abbreviator(c)
    if not c.abbreviate_options:
        v.prove(r.get_abbreviations('--abc') == ['--abc'] and list(r.get_many_abbreviations(['--abc', '-xyz'])) == ['--abc', '-xyz'],
                'nothing is abbreviated')
        return
    v.prove(seen == [(True, c.inherit_options, False)], 'the options in scope')
    v.prove(sorted(r.words) == sorted(s for o in opts for s in o.option_strings if len(s) > 2), 'all their long and old-style strings')


def parser_patterns(v):
    """bash parser: the case of an option is made of its short strings and of all abbreviations of its long and old-style strings"""
    v.covers('bash_parser_v2._generate_option_cases')

    class Abbr:
        def get_many_abbreviations(self, words):
            return [w + s for w in words for s in ('', '<abbr>')]
    v.patch(utils, 'get_option_abbreviator', lambda c: Abbr())
    c = cli.CommandLine('p')
    o = c.add_option(v.choose('strings', [['-a'], ['--aa'], ['-aa'], ['--aa', '-b', '-cc'], ['-b', '--x-y', '-c', '--zz']]))
    o.complete = v.choose('complete', [None, ['file']])
    o.optional_arg = v.choose('optional', [True, False])

    class VM:
        def capture_variable(self, option):
            return 'VAR'
    got = v2._generate_option_cases(c, VM())
    v.prove(len(got) == 1, 'one case per option')
    want = [s for s in o.option_strings if len(s) == 2]
    for s in o.option_strings:
        if len(s) > 2:
            want += [s, s + '<abbr>']
    v.prove(sorted(got[0].option_strings) == sorted(want), 'short strings and abbreviations')


CONTRACTS = [generator_abbreviations, names_in_scope, options_in_scope, parser_patterns]


# ------------------------------------------------------------------ bounded

def prefixes(words):
    return sorted({w[:i] for w in words for i in range(1, len(w) + 1)})


def meaning(word, names, full_only=False):
    """names: [(owner, name, may be abbreviated)] -> owner, None (names nothing) or '?' (not specified)"""
    owners = {o for o, n, _a in names if n == word}
    if owners:
        return owners.pop() if len(owners) == 1 else '?'
    if full_only:
        return None
    hits = {(o) for o, n, _a in names if n.startswith(word)}
    if len(hits) != 1:
        return None
    o = hits.pop()
    matching = [a for x, n, a in names if n.startswith(word)]
    return o if matching == [True] else '?'


def word_lists(b):
    u = real('utils')
    words = [''.join(t) for k in (1, 2, 3) for t in itertools.product('ab', repeat=k)]
    n = 4 if b.thorough() else 3
    b.begin('word lists', 'all sets of up to %d words of length 1 to 3 over {a, b}' % n)
    for k in range(1, n + 1):
        for ws in itertools.combinations(words, k):
            for make, pre in ((u.CommandAbbreviationGenerator, ''), (u.OptionAbbreviationGenerator, '--')):
                if pre and any(len(w) < 2 for w in ws):
                    continue
                full = [pre + w for w in ws]
                g = make(full)
                for w in full:
                    b.case(key=(make.__name__, ws, w))
                    got = g.get_abbreviations(w)
                    want = [p for p in prefixes([w]) if len(p) >= (3 if pre else 1) and
                            meaning(p, [(x, x, True) for x in full]) == w]
                    if sorted(got) != sorted(want):
                        b.fail('wordlist', '%s(%r).get_abbreviations(%r) is %r, not %r' % (make.__name__, full, w, sorted(got), sorted(want)),
                               words=full, word=w)
                        return


COMMANDS = [
    [['add'], ['addition'], ['remove', 'rm'], ['list', 'reload']],
    [['install', 'i'], ['info'], ['update', 'up', 'inst']],
    [['a'], ['ab'], ['abc', 'x'], ['b']],
    [['root'], ['root2'], ['start'], ['status', 'st'], ['stop']],
]


def random_commands(rng):
    names, out = set(), []
    for _ in range(rng.randint(2, 5)):
        row = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = ''.join(rng.choice('abs') for _ in range(rng.randint(1, 5)))
            if n not in names:
                names.add(n)
                row.append(n)
        if row:
            out.append(row)
    return out


def marker(name):
    return 'val.' + name


def commands(b):
    rng = b.rng
    b.begin('subcommands in the shells', 'prefixes of all names; nested; abbreviations on and off; 3 shells')
    tables = COMMANDS + [random_commands(rng) for _ in range(12 if b.thorough() else 4)]
    for tn, table in enumerate(tables):
        for on in (True, False):
            deep = (tn + on) % 2
            top = 'mytool outer' if deep else 'mytool'
            dicts = [{'prog': 'mytool'}] + ([{'prog': 'mytool outer', 'aliases': ['over']}, {'prog': 'mytool other', 'aliases': ['outside']}] if deep else [])
            for row in table:
                dicts.append({'prog': '%s %s' % (top, row[0]), 'aliases': row[1:],
                              'positionals': [{'number': 1, 'complete': ['choices', [marker(row[0])]]}]})
            names = [(row[0], n, i == 0) for row in table for i, n in enumerate(row)]
            typed = sorted(set(prefixes([n for _o, n, _a in names])) | {n + 'z' for _o, n, _a in names} | {'zz'})
            outer = [[]]
            if deep:
                outer = [['outer'], ['over']] + ([['oute']] if on else [])
            for sh in SHELLS:
                script = generate(sh, dicts, config(set_abbreviate_commands=on))
                queries = [['mytool'] + o + [w, ''] for o in outer for w in typed]
                if deep:
                    queries.append(['mytool', 'o', typed[0], ''])
                    queries.append(['mytool', 'ou' if on else 'oute', typed[0], ''])
                res = complete(sh, script, queries)
                if res is None:
                    b.skip('%s gave no answer' % sh)
                    continue
                for q, r in zip(queries, res):
                    b.case(key=(tn, on, sh, tuple(q)))
                    want = meaning(q[-2], names, not on)
                    if deep and q[1] in ('o', 'ou') or (q[1] == 'oute' and not on):
                        want = None
                    got = [c for c in r if c.startswith('val.')]
                    if want == '?':
                        continue
                    if got != ([marker(want)] if want else []):
                        b.fail('command:%s' % sh, '%s, commands %r, abbreviations %s: after `%s` the command %s, but it is completed as %r' % (
                            sh, table, 'on' if on else 'off', ' '.join(q), 'is ' + want if want else 'is not named', got),
                            definition=dicts, words=q, shell=sh)
                        return


def complete(sh, script, queries, prog='mytool'):
    f = {'bash': shells.bash_complete, 'fish': shells.fish_complete, 'zsh': shells.zsh_complete}[sh]
    res, _err, _left = f(script, prog, queries)
    if res is None:
        return None
    return [[c if isinstance(c, str) else c[0] for c in r] for r in res]


OPTIONS = [
    ([['--version', '-V'], ['--verify'], ['--verbose-output', '--vb'], ['--foo']], [['--extra'], ['--file', '-f']]),
    ([['--long'], ['--longer'], ['--lo-fi', '-old', '-older']], [['--other', '-oldest'], ['--quick']]),
    ([['-abc', '--abc'], ['-abd'], ['--abd-x'], ['-x']], [['--size']]),
]


def options(b):
    b.begin('options in Bash', 'prefixes of all long and old-style option strings, alone and with =, own and inherited scope, on and off')
    for tn, (root, sub) in enumerate(OPTIONS):
        for on, inherit in itertools.product((True, False), repeat=2):
            def opts(rows):
                return [{'option_strings': r, 'complete': ['choices', [marker(r[0])]], 'repeatable': False} for r in rows]
            dicts = [{'prog': 'mytool', 'options': opts(root)}, {'prog': 'mytool go', 'options': opts(sub)}]
            script = generate('bash', dicts, config(set_abbreviate_options=on, set_inherit_options=inherit))
            cases = []
            for words, scope, own in ((['mytool'], root, root), (['mytool', 'go'], sub + (root if inherit else []), sub)):
                names = [(r[0], s, True) for r in scope for s in r]
                ps = [p for p in prefixes([n for _o, n, _a in names]) if len(p) >= 3]
                for p in ps:
                    w = meaning(p, names, not on)
                    if w == '?':
                        continue
                    forms = [words + [p, '']]
                    if p.startswith('--'):
                        forms.append(words + [p + '='])
                    for q in forms:
                        cases.append((q, w, p, scope, own))
                    # parsed as this option: it isn't offered again
                    cases.append((words + [p, 'x', '--'], w, p, scope, own))
            res = complete('bash', script, [c[0] for c in cases])
            if res is None:
                b.skip('bash gave no answer')
                continue
            for (q, w, p, scope, own), r in zip(cases, res):
                b.case(key=(tn, on, inherit, tuple(q)))
                if q[-1] == '--':
                    gone = [row[0] for row in scope if not any(s.startswith('--') and (s in r or s + '=' in r) for s in row)
                            and any(s.startswith('--') for s in row)]
                    want = [w] if w and any(s.startswith('--') for row in scope if row[0] == w for s in row) else []
                    ok = gone == want
                    got = 'not offering %r' % gone
                else:
                    got = [c for c in r if c.startswith('val.')]
                    ok = got == ([marker(w)] if w else [])
                if ok:
                    continue
                # a prefix that is ambiguous only because of options of both the command and its parent
                mine = {row[0] for row in own for s in row if s.startswith(p)}
                parents = {row[0] for row in scope for s in row if s.startswith(p)} - mine
                sig = 'option'
                if on and w is None and len(parents) == 1 and mine:
                    sig = 'option:ambiguous with the subcommand'
                b.fail(sig, 'bash, options %r of mytool and %r of `mytool go`, abbreviations %s, inherited %s: after `%s` the option %s, '
                       'but it is completed as %r' % (root, sub, on, inherit, ' '.join(q), 'is ' + w if w else 'is not named', got),
                       definition=dicts, words=q)
                if sig == 'option':
                    return


BOUNDED = [word_lists, commands, options]
