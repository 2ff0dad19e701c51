"""C14: options in scope are found, inherited and overridden by option strings."""
from pydv import instrument, vc
from checks import model
from checks.common import SHELLS

TRUSTED = ['the shells and their completion machinery (bounded part)']
ASSUMPTIONS = ['equal option strings are compared by get_option_strings_key (sorted, joined by a space)',
               'Zsh judges words before a subcommand with the options of the deepest command: an overriding option with another kind of argument is '
               'only checked for Bash and Fish', 'which of several usable definitions of one option completes its argument is not specified']
RULE = ('random command trees of up to three levels with overriding options in another order of their strings, several definitions under conditions, '
        'with and without inheritance; option strings offered and arguments completed at random command lines')
cli = instrument.mod('cli')
utils = instrument.mod('utils')
bsc = instrument.mod('bash_parser_subcommand_code')
bos = instrument.mod('bash_option_strings_completion')
fish = instrument.mod('fish')
fc = instrument.mod('fish_conditions')


def add_option(v):
    """OptionsGetter._add: the options with the same strings belong to the deepest command that has any; all definitions of that command are kept"""
    v.covers('cli.CommandLine.OptionsGetter._add', 'cli.CommandLine.OptionsGetter.get')
    g = object.__new__(cli.CommandLine.OptionsGetter)
    from collections import OrderedDict
    g.options = OrderedDict()

    class Option:
        def __init__(self, key):
            self.key = key

        def get_option_strings_key(self):
            return self.key
    deep, up = object(), object()
    before = [Option(k) for k in v.choose('before', [[], ['a'], ['a', 'a'], ['b'], ['a', 'b'], ['b', 'a', 'a']])]
    for o in before:
        g._add(o, deep)
    new = Option(v.choose('key', ['a', 'b', 'c']))
    level = v.choose('level', [deep, up])
    g._add(new, level)
    got = g.get()
    known = new.key in [o.key for o in before]
    v.prove(all(o in got for o in before), 'the options of the deeper command stay')
    v.prove((new in got) == (level is deep or not known), 'an option is added unless a deeper command has the same strings')
    v.prove(len(got) == len(before) + (new in got), 'nothing else')


def levels(v):
    """OptionsGetter: the options (with completers only, if wanted) of the command, and with inheritance those of its parents, are added one by one, for any number of options and up to 3 levels"""
    v.covers('cli.CommandLine.OptionsGetter.__init__', 'cli.CommandLine.get_options')
    added = []

    class Option:
        def __init__(self, n):
            self.has = v.bool(n + '.has_complete')
            self.complete = self.has

    class Level:
        def __init__(self, n):
            self.options = v.list(n + '.options', Option)
    n = v.choose('levels', [1, 2, 3])
    ls = [Level('c%d' % i) for i in range(n)]

    class Command(cli.CommandLine):
        def __init__(self):
            self.options = ls[-1].options

        def get_parents(self, include_self=False):
            return ls[:-1] + ([self] if include_self else [])
    c = Command()
    parents, args = v.choose('with_parent_options', [False, True]), v.choose('only_with_arguments', [False, True])
    v.patch(cli.CommandLine.OptionsGetter, '_add', lambda self, o, cmd: added.append((o, cmd)))
    cli.CommandLine.OptionsGetter(c, parents, args)
    want = [c] + (ls[:-1][::-1] if parents else [])
    v.prove(len(added) <= len(want), 'no more than the levels in scope')
    i = 0
    for l in want:
        if not bool(l.options):
            continue
        o = l.options.elem
        if args and not v.holds(o.has):
            continue            # an option without argument is left out
        got = added[i] if i < len(added) else (None, None)
        v.prove(got[0] is o and got[1] is l, 'every option of the level is added')
        i += 1
    v.prove(i == len(added), 'nothing else is added')


def command_pattern(v):
    """Bash: the options of a command are known at its own path, and below it if they are inherited"""
    v.covers('bash_parser_subcommand_code.make_command_pattern')
    v.patch(bsc.shell, 'quote', lambda x, quote_empty_string=True: vc.SymStr.of(x)._fn('quote'))
    path = v.str('path')
    v.patch(bsc, 'get_subcommand_path', lambda c: path)
    inherit = v.choose('inherit', [True, False])
    got = bsc.make_command_pattern(type('C', (), {'inherit_options': inherit})())
    want = path._fn('quote')
    if inherit:
        want = want + '|' + (path + ':')._fn('quote') + '*'
    v.same(got, want, 'pattern')


def command_path(v):
    """Bash: the path of a command is root followed by the names of its parents and its own, for any number of parents"""
    v.covers('bash_parser_subcommand_code.get_subcommand_path')

    class Level:
        def __init__(self, n):
            self.prog = v.str(n + '.prog')
    between = v.list('between', Level)
    root, own = Level('root'), Level('own')

    class C:
        @staticmethod
        def get_parents(include_self=False):
            return [root, *vc.items_of(between), own]
    got = bsc.get_subcommand_path(C)
    mid = vc.SymStr([vc.MapSeg(between, ':' + between.elem.prog)]) if bool(between) else ''
    v.same(got, 'root' + mid + ':' + own.prog, 'path')


class FishOption:
    """an option of Fish"""
    complete = None
    nosort = repeatable = hidden = False
    help = when_parsed = None
    option_strings = ['--x']
    parent = None

    def __init__(self, v):
        self.repeatable = v.choose('repeatable', [True, False])

    def get_short_option_strings(self):
        return []

    def get_old_option_strings(self):
        return []

    def get_long_option_strings(self):
        return ['--x']

    def has_required_arg(self):
        return False

    def get_conflicting_option_strings(self):
        return []


def fish_scope(v):
    """Fish: an option is offered in its own command only, unless options are inherited, and where no subcommand overrides it"""
    v.covers('fish.FishCompletionGenerator._complete_option')
    o = FishOption(v)
    g = object.__new__(fish.FishCompletionGenerator)
    inherit, subs = v.choose('inherit', [True, False]), v.choose('subcommands', [True, False])
    num = v.int('num')

    class Subs:
        @staticmethod
        def get_positional_num():
            return num
    g.subcommands = Subs() if subs else None

    class C:
        inherit_options = inherit

        @staticmethod
        def get_final_option_strings():
            return []

        @staticmethod
        def get_option_context(*a):
            return None
    g.ctxt = g.commandline = o.parent = C
    g._complete = lambda *a: None
    if hasattr(fish, '_get_not_final'):
        v.patch(fish, '_get_not_final', lambda x: [])
    path, over = v.choose('path', [[], ['p1'], ['p1', 'p2']]), v.choose('overridden', [[], ['n1']])
    v.patch(fish, '_get_positional_contains', lambda c: list(path))
    if hasattr(fish, '_get_not_overridden'):
        v.patch(fish, '_get_not_overridden', lambda x: list(over))
    d = g._complete_option(o)
    cs = d.conditions.conditions
    v.prove([c for c in cs if isinstance(c, str)] == path + over, 'the path of the command, and not overridden')
    nums = [c for c in cs if type(c) is fc.PositionalNum]
    if inherit or not subs:
        v.prove(nums == [], 'visible to subcommands')
    else:
        v.prove(len(nums) == 1, 'not visible to subcommands')
        v.prove(nums[0].operator in ('<=', '<'), 'operator')
        v.same(nums[0].number, num - 1 if nums[0].operator == '<=' else num, 'before the subcommand')
    nots = [c for c in cs if type(c) is fc.Not]
    v.prove(len(nots) == (0 if o.repeatable else 1), 'no other condition than that it is not given')


def bash_strings(v):
    """Bash offers every option string of every option once: short ones as they are, others with = if the argument may follow it; for any number of options and strings"""
    v.covers('bash_option_strings_completion._make_option_strings')

    class Option:
        def __init__(self, n):
            self.s, self.l, self.o = (v.list('%s.%s' % (n, k), lambda m: v.str(m)) for k in 'slo')
            self.kind = v.choose(n + '.kind', ['0', '1', '?'])
            self.long_opt_arg_sep = v.choose(n + '.sep', ['space', 'equals', 'both'])

        def get_short_option_strings(self):
            return self.s

        def get_long_option_strings(self):
            return self.l

        def get_old_option_strings(self):
            return self.o

        def has_optional_arg(self):
            return self.kind == '?'

        def has_required_arg(self):
            return self.kind == '1'
    out = []
    v.patch(bos.shell, 'join_quoted', lambda x: out.extend(x) or 'joined')
    o = Option('o')
    got = bos._make_option_strings([o])
    v.prove(got == 'joined', 'quoted')
    eq = o.kind == '?' or (o.kind == '1' and o.long_opt_arg_sep != 'space')
    want = [(src, suffix) for src, suffix in ((o.s, ''), (o.l, '=' * eq), (o.o, '=' * eq)) if bool(src)]
    out = [x for x in out if not (isinstance(x, vc.Seg) and not bool(x.src))]
    v.prove(len(out) == len(want) and all(isinstance(x, vc.Seg) and len(x.outs) == 1 for x in out), 'every option string once')
    for x, (src, suffix) in zip(out, want):
        v.prove(x.src is src, 'in this order')
        v.same(x.outs[0], src.elem + suffix, 'option string')


CONTRACTS = [add_option, levels, command_pattern, command_path, fish_scope, bash_strings]


def options_only(c):
    return c.startswith('-')


def vals(c):
    return c.startswith('val.')


def forms(st, o, rng):
    """the forms in which an argument of the option is completed at once -> [(words)]"""
    out = []
    scope = st.cmd.scope(st.inherit)
    for s in o.strings:
        if len(s) == 2:
            attached = s + 'v'
            if not any(x.startswith(attached) for p in scope for x in p.strings if len(x) > 2):
                out.append([attached])
        elif not any(len(x) == 2 and s.startswith(x) and p.kind != '0' for p in scope for x in p.strings):
            out.append([s + '='])
        if o.kind == '1':
            out.append([s, ''])
    return out


def queries(rng, root, inherit, n, sig):
    out = []
    for _ in range(n):
        w = model.random_words(rng, root, inherit)
        st = model.State(root, w, inherit)
        if st.pending or st.end:
            continue
        for p in ('-', '--'):
            out.append((w + [p], st.option_strings(p), options_only, sig + ':offered'))
        scope = [o for o in st.cmd.scope(inherit) if o.kind != '0']
        for o in rng.sample(scope, min(2, len(scope))):
            for f in forms(st, o, rng):
                out.append((w + f, {'val.' + o.id}, vals, sig + ':completed'))
    return out


def trees(b):
    rng = b.rng
    b.begin('command trees', 'random trees of up to 3 levels, random command lines, options inherited or not, overriding options of the same and (Bash, '
            'Fish) of another kind; 3 shells')
    r = model.Runner(b)
    for _ in range(400 if b.thorough() else 60):
        same = rng.random() < .6
        root = model.random_tree(rng, final=0, hidden=0, groups=0, repeatable=1, options=5, kinds='0011?', override='same' if same else 'any')
        inherit = rng.random() < .7
        q = queries(rng, root, inherit, 12, 'tree')
        r.run(root, {'set_inherit_options': inherit}, q, SHELLS if same else ('bash', 'fish'))
    r.finish()


def conditions(b):
    """several definitions with the same option strings under different conditions, in a command and in its parent"""
    rng = b.rng
    b.begin('conditions', 'up to 3 definitions of the same option under every set of conditions in a command, and up to 2 in its parent; 3 shells')
    r = model.Runner(b)
    values = ['a', 'b', 'c']
    for _ in range(120 if b.thorough() else 24):
        inherit = rng.random() < .8
        kind = rng.choice('1?')
        base = rng.choice([['--item'], ['--item', '-i'], ['-item'], ['-i', '--item', '--it']])
        root, n = model.Cmd('mytool'), [0]

        def define(cmd, count):
            out = []
            for _ in range(count):
                n[0] += 1
                strings = list(base)
                rng.shuffle(strings)
                cond = frozenset(rng.sample(values, rng.choice([1, 1, 2]))) if rng.random() < .8 else None
                o = model.Opt('i%d' % n[0], strings, kind, repeatable=True,
                              when='option_is --type -- ' + ' '.join(sorted(cond)) if cond else None)
                cmd.opts.append(o)
                out.append((o, cond))
            return out
        first = define(root, rng.choice([0, 1, 2, 3]))
        typ = model.Opt('type', ['--type'], '1', repeatable=True)
        root.opts.insert(rng.randrange(len(root.opts) + 1), typ)
        dicts_type = dict(typ.dictionary(), complete=['choices', values])
        sub = model.Cmd('sub', root)
        second = define(sub, rng.choice([0, 1, 2]))
        sub.opts.append(model.Opt('own', ['--own'], '0'))
        dicts = root.dictionaries()
        for d in dicts:
            d['options'] = [dicts_type if o['option_strings'] == ['--type'] else o for o in d['options']]
        qs = []
        for words, scope in ((['--type', 'V'], first), (['--type=V'], first), (['--type', 'V', 'sub'], second or (first if inherit else [])),
                             (['--type=V', 'sub'], second or (first if inherit else []))):
            for val in values:
                w = [x.replace('V', val) for x in words]
                if not inherit and 'sub' in w:
                    continue        # conditions on options that are out of scope
                usable = [o for o, c in scope if c is None or val in c]
                qs.append((w + ['-'], {s for s in base if usable}, lambda c, base=base: c in base, 'conditions:offered'))
                if len(usable) > 1:
                    continue            # which one completes is not specified
                for s in base:
                    f = [s + '='] if len(s) > 2 else [s + 'v']
                    if len(s) == 2 and any(x.startswith(s + 'v') for x in base):
                        continue
                    qs.append((w + f, {'val.' + o.id for o in usable}, vals, 'conditions:completed'))
                    if kind == '1':
                        qs.append((w + [s, ''], {'val.' + o.id for o in usable}, vals, 'conditions:completed'))
        r.run(root, {'set_inherit_options': inherit}, qs, dicts=dicts)
    r.finish()


BOUNDED = [trees, conditions]
