"""C24: captured variables hold exactly the values given to their option."""
import re
import shlex

from pydv import instrument
from . import shells
from .common import SHELLS, config, generate

TRUSTED = ['the parsing code in the generated scripts (bounded part), the shells']
ASSUMPTIONS = ['variables are captured by one option only; values have no quotes, no spaces and no newlines on the command line (Bash keeps quotes)']
RULE = ('command lines with captured options at every level in every form: a function called for the completion sees exactly the values given, in their order, in an array')
zsh = instrument.mod('zsh')
fp = instrument.mod('fish_prepare')
bash = instrument.mod('bash')

# ------------------------------------------------------------------ bounded
SHOW = {
    'bash': ''.join(r'''
show%d() { local x i=0; printf 'n%%s\n' "${#_CAP%d[@]}"; for x in "${_CAP%d[@]}"; do printf 'v%%s.%%s.\n' $((++i)) "$x"; done; }
''' % (i, i, i) for i in range(3)),
    'fish': ''.join(r'''
function show%d; printf 'n%%s\n' (count $_CAP%d); set -l i 0; for x in $_CAP%d; set i (math $i + 1); printf "v$i.%%s.\n" $x; end; end
''' % (i, i, i) for i in range(3))}
SHOW['zsh'] = SHOW['bash']
VALUES = ['mysql', 'none', 'n', 'one', 'a*b', '-f', '-d', 'x:y', 'a+b', '0', '@', 'nn', '%s', '.', '--flag', '..', 'k=v', '=', 'a=b=c']
STRINGS = [['-d', '--database'], ['--database', '-data'], ['-d'], ['--db.name'], ['-D', '--Database', '-dd'], ['-data'], ['--n+n', '-n'], ['-?', '--what']]


def definition(rng):
    """-> dictionaries, [(strings, arguments, variable)] of the root, of the subcommand, whether options are inherited"""
    inherit = rng.random() < .5
    pool = rng.sample(STRINGS, 3)
    used, opts = set(), []
    for i, strings in enumerate(pool):
        strings = [s for s in strings if s not in used]
        used |= set(strings)
        if strings:
            opts.append((strings, rng.choice(['1', '1', '1', '?']), i))
    root, sub = opts[:-1], opts[-1:]

    def dic(o):
        strings, arg, i = o
        r = {'option_strings': strings, 'metavar': 'M', 'complete': rng.choice([['choices', ['mysql', 'one']], ['none'], ['integer']]), 'capture': '_CAP%d' % i, 'repeatable': True}
        if arg == '?':
            r['optional_arg'] = True
        return r
    show = [{'option_strings': ['--s%d' % i], 'metavar': 'M', 'complete': ['exec', 'show%d' % i]} for i in range(3)]
    flags = [{'option_strings': ['-f', '--flag'], 'repeatable': True}]
    shown = [{'option_strings': ['--z%d' % i], 'metavar': 'M', 'complete': ['exec', 'show%d' % i]} for i in range(3)]
    dicts = [{'prog': 'mytool', 'inherit_options': inherit, 'options': [dic(o) for o in root] + show + flags},
             {'prog': 'mytool sub', 'options': [dic(o) for o in sub] + shown}]
    return dicts, root, sub, inherit


def given(rng, o):
    """the option with a value -> words, value"""
    strings, arg, _i = o
    s, value = rng.choice(strings), rng.choice(VALUES)
    attached = s[:2] != '--' and len(s) == 2 and not value.startswith(('-', '='))
    forms = [[s + '=' + value]] if s.startswith('--') else []
    if arg == '1':
        forms += [[s, value]] * 2
    if attached and (arg == '?' or rng.random() < .4):
        forms += [[s + value]]
    if not forms:
        return [], None
    return rng.choice(forms), value


def line(rng, root, sub, inherit):
    """-> words before the last option, [values by variable], in the subcommand?"""
    words, values = [], {i: [] for i in range(3)}

    def some(opts):
        for _ in range(rng.randint(0, 3)):
            if rng.random() < .2 and root is opts:
                words.append('-f')
                continue
            o = rng.choice(opts)
            w, value = given(rng, o)
            if w:
                words.extend(w)
                values[o[2]].append(value)
    some(root)
    inside = bool(sub) and rng.random() < .5
    if inside:
        words.append('sub')
        some(sub + (root if inherit else []))
    return words, values, inside


def captures(b):
    rng = b.rng
    n = 60 if b.thorough() else 8
    b.begin('captures', '%d random definitions with captured options (all kinds of option strings, required and optional arguments) in a command and its subcommand, with and without '
                        'inheritance; 30 command lines each; in all three shells' % n)
    bad = set()
    for _ in range(n):
        dicts, root, sub, inherit = definition(rng)
        lines, want = [], []
        for _q in range(30):
            words, values, inside = line(rng, root, sub, inherit)
            i = rng.choice([o[2] for o in root + sub])
            if sub and i == sub[0][2] and not inside:
                continue
            lines.append(['mytool'] + words + ['--%s%d' % ('z' if inside else 's', i), ''])
            want.append(values[i])
        conf = {'set_function_prefix': 'f_PROG'} if rng.random() < .2 else {}
        for shell in SHELLS:
            script = generate(shell, dicts, config(**conf))
            out, err, _left = getattr(shells, shell + '_complete')(script, 'mytool', lines, extra=SHOW[shell])
            if out is None:
                b.skip('%s gave no answer' % shell)
                continue
            if err.strip() and 'stderr:' + shell not in bad:
                bad.add('stderr:' + shell)
                b.fail('stderr:' + shell, '%s prints %r' % (shell, err[:300]), definition=dicts)
            for words, w, replies in zip(lines, want, out):
                b.case(key=(shell, str(dicts), tuple(words)))
                got = {r if isinstance(r, str) else r[0] for r in replies}
                if shell == 'zsh':
                    got = {g.replace('\\', '') for g in got}
                exp = {'n%d' % len(w)} | {'v%d.%s.' % (k + 1, x) for k, x in enumerate(w)}
                if got != exp and 'capture:' + shell not in bad:
                    bad.add('capture:' + shell)
                    b.fail('capture:' + shell, '%s: with `%s` the captured values are %r, not %r' % (shell, ' '.join(words), sorted(got), sorted(exp)), definition=dicts, words=words)


BOUNDED = [captures]


# ---------------------------------------------------------------- contracts
class Option:
    def __init__(self, v, n):
        self.capture = v.choose(n + '.capture', [None, 'VAR_' + n.replace('[', '').replace(']', '').replace('.', '_')])
        self.option_strings = ['-a' + n[-2:-1], '-?'][:v.choose(n + '.strings', [1, 2])]


class Helpers:
    def __init__(self):
        self.used = []

    def use_function(self, name, *a):
        self.used.append(name)
        return 'F_' + name


class Ctxt:
    def __init__(self):
        self.helpers = Helpers()

        class config:
            line_length = 80
        self.config = config


class Query:
    def __init__(self):
        self.asked = []

    def use(self, what):
        self.asked.append(what)
        return 'QUERY'


def zsh_capture(v):
    """Zsh: exactly the captured options of the command and its parents are asked for, each with all its strings, and assigned to its variable; the command's own are local"""
    v.covers('zsh.ZshCompletionFunction._generate_option_capture')
    opts = [Option(v, 'o[%d]' % i) for i in range(v.choose('options', [0, 1, 2]))]
    parents = [Option(v, 'p[%d]' % i) for i in range(v.choose('options of the parent', [0, 1]))]
    for p in parents:
        if v.choose('other strings', [True, False]):
            p.option_strings = ['-P']
        if p.capture and v.choose('same variable', [False, True]):
            p.capture = 'VAR_o0'
    g = object.__new__(zsh.ZshCompletionFunction)
    g.query = Query()

    class P:
        options = parents
        parent = None

        def get_parents(self, include_self=False):
            return [self] if include_self else []

    class C:
        options = opts
        parent = P()

        def get_parents(self, include_self=False):
            return [self.parent] + ([self] if include_self else [])
    g.commandline = C()
    code = g._generate_option_capture()
    own = [o for o in opts if o.capture]
    strings = [s for o in opts for s in o.option_strings]
    outer = [p for p in parents if p.capture and p.capture not in [o.capture for o in own] and not set(strings) & set(p.option_strings)]
    lines = code.split('\n')
    local = [l for l in lines if l.startswith('local ')]
    names = [w.split('=')[0] for l in local for w in l.split()[1:] if not w.startswith('-')]
    v.prove(sorted(names) == sorted(o.capture for o in own), 'local variables')
    asked = {}
    for l in lines:
        if 'QUERY get_option ' in l:
            args = shlex.split(re.split('[;)]', l[l.index('QUERY get_option ') + len('QUERY get_option '):])[0])
            asked.setdefault(l.split('=')[0].split()[-1], []).append(args)
    v.prove(sorted(asked) == sorted({o.capture for o in own + outer}), 'their variables')
    v.prove((('get_option') in g.query.asked) == bool(own + outer), 'the query function is used')
    for o in own + outer:
        v.prove(len(asked[o.capture]) == 1, 'one assignment for each')
        args = asked[o.capture][0]
        v.prove(args[:len(o.option_strings)] == o.option_strings and not (args[len(o.option_strings):] or [''])[0].startswith('-'), 'exactly its strings')


def fish_capture(v):
    """Fish: exactly the captured options of all commands are captured, each with all its strings in its own variable"""
    v.covers('fish_prepare._get_capture_code')
    ctxt = Ctxt()

    class C:
        def __init__(self, options):
            self.options = options

        def get_options(self):
            return self.options

        def get_all_commandlines(self):
            return commands
    commands = [C([Option(v, 'c%d[%d]' % (j, i)) for i in range(v.choose('options %d' % j, [0, 1, 2]))]) for j in range(v.choose('commands', [1, 2]))]
    code = fp._get_capture_code(commands[0], ctxt)
    want = [o for c in commands for o in c.options if o.capture]
    lines = [l for l in code.split('\n') if l]
    v.prove(len(lines) == len(want), 'one line for each')
    v.prove(('capture_option' in ctxt.helpers.used) == bool(want), 'the helper')
    for o, l in zip(want, lines):
        v.prove(shlex.split(l) == ['F_capture_option', o.capture] + o.option_strings, 'its variable and all its strings')


def bash_locals(v):
    """Bash: the variables of all captured options of all commands are local arrays, each declared once"""
    v.covers('bash.BashCompletionGenerator._generate_commandline_parsing')

    class C:
        def __init__(self, options):
            self.options = options

        def get_all_commandlines(self):
            return commands
    commands = [C([Option(v, 'c%d[%d]' % (j, i)) for i in range(v.choose('options %d' % j, [0, 1, 2]))]) for j in range(v.choose('commands', [1, 2]))]
    if len(commands) > 1 and commands[0].options and commands[1].options and v.choose('same', [False, True]):
        commands[1].options[0].capture = commands[0].options[0].capture
    g = object.__new__(bash.BashCompletionGenerator)
    g.ctxt, g.commandline = Ctxt(), commands[0]
    code = g._generate_commandline_parsing()
    names = [w for l in code.split('\n') if l.startswith('local -a ') for w in l.split()[2:]]
    v.prove(len(set(names)) == len(names) and set(names) == {o.capture for c in commands for o in c.options if o.capture}, 'each variable once')
    v.prove('F_parse_commandline' in code, 'the command line is parsed')


CONTRACTS = [zsh_capture, fish_capture, bash_locals]
