"""C15: repeated, conflicting, final and hidden options are suppressed, nothing else is."""
import z3
from pydv import instrument, vc
from checks import model
from checks.common import SHELLS

TRUSTED = ['the query helpers and the parsing code in the generated scripts, the shells and _arguments of Zsh (bounded part)']
ASSUMPTIONS = ['Zsh does not recognise options that are excluded by earlier ones: only command lines without them are run in Zsh',
               'an option counts as given by any of its strings at any level; groups are those of one command',
               'the list shapes in the contracts are small: option and string lists of up to 4 items (final_options: any number of options)']
RULE = ('random command trees with groups, final, hidden and repeatable options at every level, with and without inheritance: the option strings '
        'offered after random command lines are exactly those an independent model allows')
cli = instrument.mod('cli')
bos = instrument.mod('bash_option_strings_completion')
fish = instrument.mod('fish')
fc = instrument.mod('fish_conditions')
zu = instrument.mod('zsh_utils')


def final_options(v):
    """get_final_options: exactly the final options of the command and its parents, for any number of options and up to 4 levels"""
    v.covers('cli.CommandLine.get_final_options')
    n = v.choose('levels', [1, 2, 3, 4])

    class Option:
        def __init__(self, m):
            self.final = v.bool(m + '.final')
            self.option_strings = [v.str(m + '.a'), v.str(m + '.b')]
    parent, chain = None, []
    for i in range(n):
        c = object.__new__(cli.CommandLine)
        c.options = v.list('c%d.options' % i, Option)
        c.parent = parent
        parent = c
        chain.insert(0, c)
    got = parent.get_final_options()
    want = [c.options.elem for c in chain if bool(c.options) and v.holds(c.options.elem.final)]
    got = [o for s in got if isinstance(s, vc.Seg) and bool(s.src) for o in s.outs]
    v.prove(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'the final options')


def final_option_strings(v):
    """get_final_option_strings: the strings of the final options"""
    v.covers('cli.CommandLine.get_final_option_strings')
    class Option:
        def __init__(self, m):
            self.option_strings = [v.str(m + '.a'), v.str(m + '.b')][:v.choose('n', [1, 2])]
    opts = v.list('finals', Option)
    c = object.__new__(cli.CommandLine)
    c.get_final_options = lambda: opts
    got = c.get_final_option_strings()
    got = [o for s in got if isinstance(s, vc.Seg) and bool(s.src) for o in s.outs]
    want = opts.elem.option_strings if bool(opts) else []
    v.prove(len(got) == len(want), 'the strings of all final options')
    for a, b in zip(got, want):
        v.same(a, b, 'option string')


class Vars:
    """variable manager: a variable for each option"""
    @staticmethod
    def capture_variable(o):
        return 'V' + o.name


class BashOption:
    when = None
    final = False

    def __init__(self, name, conflicts=(), repeatable=False, hidden=False):
        self.name, self.conflicts, self.repeatable, self.hidden = name, conflicts, repeatable, hidden
        self.option_strings = ['--' + name]

    def get_conflicting_options(self):
        return list(self.conflicts)

    def get_option_strings_key(self):
        return self.name


def conflicting_options(v):
    """get_conflicting_options: exactly the other options of the command that share a group with it, each once and with all its strings; group names are any text (up to three options with up to two groups each)"""
    v.covers('cli.Option.get_conflicting_options', 'cli.Option.get_conflicting_option_strings', 'cli.Option.get_option_strings')

    class Parent:
        options = []
    opts = []
    for i, strings in enumerate([['-a', '--all'], ['-b'], ['-c', '-cc']][:v.choose('options', [1, 2, 3])]):
        o = object.__new__(cli.Option)
        o.parent, o.option_strings = Parent, strings
        for a in ('metavar', 'help', 'optional_arg', 'repeatable', 'final', 'hidden', 'complete', 'nosort', 'when', 'capture', 'long_opt_arg_sep'):
            setattr(o, a, None)
        k = v.choose('groups%d' % i, [None, 0, 1, 2])
        o.groups = None if k is None else [v.str('o%dg%d' % (i, j)) for j in range(k)]
        opts.append(o)
    Parent.options = opts
    me = v.choose('me', list(range(len(opts))))
    got = opts[me].get_conflicting_options()
    v.prove(all(any(g is o for o in opts) for g in got), 'options of the command')
    v.prove(not any(g is opts[me] for g in got), 'not itself')
    for i, o in enumerate(opts):
        if i == me:
            continue
        share = vc.SymBool(z3.Or([vc.zb(g == h) for g in opts[me].groups or [] for h in o.groups or []] + [z3.BoolVal(False)]))
        times = sum(1 for g in got if g is o)
        v.prove(times <= 1, 'only once')
        v.prove(share if times else vc.API.not_(share), 'options that share a group')
    v.prove(opts[me].get_conflicting_option_strings() == [x for g in got for x in g.option_strings], 'all their strings')


def bash_conditions(v):
    """Bash offers an option that isn't hidden under exactly these conditions: no final option, none of the conflicting options, and, if not repeatable, not itself given"""
    v.covers('bash_option_strings_completion.generate')
    others = [BashOption('x1'), BashOption('x2')]
    a = BashOption('a', v.choose('conflicts', [[], others[:1], others]), v.choose('repeatable', [True, False]), v.choose('hidden', [True, False]))
    b = BashOption('b', [], True)
    finals = v.choose('finals', [[], [a], [b], [others[0]], [others[0], b]])
    order = v.choose('order', [[a, b], [b, a]])

    class C:
        options = order
        inherit_options = v.choose('inherit', [True, False])
        parent = None

        @staticmethod
        def get_final_options():
            return list(finals)

        @staticmethod
        def get_subcommands():
            return None

        @staticmethod
        def get_parents(include_self=False):
            return []
    seen = []
    v.patch(bos, '_generate_final_check_with_options', lambda f, o, *x: seen.append((f, o)) or 'CODE')
    if hasattr(bos, 'make_overriding_command_pattern'):
        v.patch(bos, 'make_overriding_command_pattern', lambda o: None)

    class G:
        commandline = C
        options = order
        subcommands = None
        variable_manager = Vars
        ctxt = None
    got = bos.generate(G)
    v.prove('CODE' in got and 'END_OF_OPTIONS' in got and len(seen) == 1, 'generated once, not after --')
    fin, opts = seen[0]
    v.prove(sorted(fin) == sorted('! ${#V%s[@]}' % o.name for o in finals), 'the final options')
    v.prove([o.option for o in opts] == [o for o in order if not o.hidden], 'exactly the options that are not hidden')
    for o in opts:
        x = o.option
        want = {'! ${#V%s[@]}' % y.name for y in x.conflicts} | ({'! ${#V%s[@]}' % x.name} if not x.repeatable else set())
        v.prove(set(o.conditions) | set(fin) == want | set(fin), 'its conditions together with those on final options')
        v.prove(not o.when, 'no other condition')


def bash_condition_code(v):
    """Bash: options are guarded by their own conditions and grouped only with options that have the same ones; all of them by the final options"""
    v.covers('bash_option_strings_completion._get_option_full_condition', 'bash_option_strings_completion._generate_option_strings_completion',
             'bash_option_strings_completion._generate_final_check_with_options')
    v.patch(bos, '_make_option_strings', lambda os: ' '.join(o.name for o in os))
    conds = {}
    opts = []
    for n in 'ab':
        c = v.choose(n + '.conditions', [[], ['! A'], ['! A', '! B'], ['! B']])
        w = v.choose(n + '.when', [None, 'W1', 'W2'])
        conds[n] = (tuple(c), w)
        opts.append(bos._Option(BashOption(n), list(c), w))
    finals = v.choose('finals', [[], ['! F'], ['! F', '! G']])
    got = bos._generate_final_check_with_options(list(finals), opts)
    import subprocess
    want = lambda c, w: ([] if not c else ['(( ' + ' && '.join(c) + ' ))']) + ([w] if w else [])
    lines = [l.strip() for l in got.split('\n')]
    if finals:
        v.prove(lines[0] == 'if (( ' + ' && '.join(finals) + ' )); then' and 'fi' in lines, 'guarded by the final options')
        end = lines.index('else') if 'else' in lines else lines.index('fi')
        lines = lines[1:end]
    seen = {}
    for l in lines:
        guard, _, names = l.rpartition('opts+=(')
        for n in names[:-1].split():
            v.prove(n not in seen, 'added once')
            seen[n] = [g for g in guard.split(' && ') if g]
    v.prove(sorted(seen) == ['a', 'b'], 'every option is added')
    for n in seen:
        v.prove(' && '.join(seen[n]) == ' && '.join(want(*conds[n])), 'under its conditions')


class FishOption:
    complete = None
    nosort = False
    help = when_parsed = None
    final = False

    def __init__(self, v):
        self.option_strings = v.choose('strings', [['-a'], ['--aa', '-a']])
        self.conflicts = v.choose('conflicts', [[], ['-b'], ['-b', '--cc']])
        self.repeatable, self.hidden = v.choose('repeatable', [True, False]), v.choose('hidden', [True, False])

    def get_short_option_strings(self):
        return []

    get_old_option_strings = get_long_option_strings = get_short_option_strings

    def has_required_arg(self):
        return False

    def get_conflicting_option_strings(self):
        return list(self.conflicts)


def fish_conditions_(v):
    """Fish offers an option unless a final option, a conflicting one or, if not repeatable, itself is given; a hidden one only while it is typed"""
    v.covers('fish.FishCompletionGenerator._complete_option', 'fish_conditions.HasOption.get_code', 'fish_conditions.HasHiddenOption.get_code',
             'fish_conditions.Not.get_code')
    o = FishOption(v)
    finals = v.choose('finals', [[], ['-f'], ['-f', '--final', '-a']])

    class H:
        used = []

        @staticmethod
        def use_function(*a):
            H.used.append(a)

    class C:
        inherit_options = True
        parent = None
        helpers = H

        @staticmethod
        def get_final_option_strings():
            return list(finals)

        @staticmethod
        def get_option_context(*a):
            return C

        @staticmethod
        def get_subcommands():
            return None

        @staticmethod
        def get_parents(include_self=False):
            return [C] if include_self else []
    o.parent = C
    o.get_option_strings_key = lambda: 'k'
    g = object.__new__(fish.FishCompletionGenerator)
    g.ctxt = g.commandline = C
    g.subcommands = None
    g._complete = lambda *a: None
    d = g._complete_option(o)
    not_has = finals + o.conflicts + ([] if o.repeatable else o.option_strings)
    codes = [c.get_code(C) for c in d.conditions.conditions]
    want = set()
    if not_has:
        want.add('not $has_option')
    if o.hidden:
        want.add('$has_option WITH_INCOMPLETE ' + ' '.join(o.option_strings))
        v.prove(('has_option', 'with_incomplete') in H.used, 'the helper knows incomplete options')
    nots = [c for c in codes if c.startswith('not $has_option ')]
    v.prove(set(w for c in nots for w in c.split()[2:]) == set(not_has), 'not given: exactly the final, conflicting and own strings')
    v.prove(set(c if not c.startswith('not $has_option ') else 'not $has_option' for c in codes) == want, 'no other condition')


def zsh_spec(v):
    """Zsh: a spec excludes exactly the conflicting options and, if not repeatable, its own strings, or everything if final; ! only for hidden and * only for repeatable options"""
    v.covers('zsh_utils.make_option_spec')
    v.patch(zu.shell, 'quote', lambda x, quote_empty_string=True: "'%s'" % x)
    own = v.choose('strings', [['-a'], ['--aa', '-a'], ['-old']])
    conf = v.choose('conflicts', [None, [], ['-b'], ['--cc', '-b']])
    rep, hid, fin = v.choose('repeatable', [True, False]), v.choose('hidden', [True, False]), v.choose('final', [True, False])
    got = zu.make_option_spec(own, conflicting_options=conf, repeatable=rep, hidden=hid, final=fin)
    strings = got[got.index('{') if '{' in got else got.rindex("'") + 1 if "'" in got else 0:]
    v.prove(sorted(strings.strip('{}').split(',')) == sorted(own), 'the option strings')
    head = got[:len(got) - len(strings)]
    v.prove(("'!'" in head) == hid and ("'*'" in head) == rep, 'hidden and repeatable')
    head = head.replace("'!'", '', 1) if hid else head
    head = head.replace("'*'", '', 1) if rep else head
    excl = (conf or []) + ([] if rep else own)
    if fin:
        v.prove(head == "'(- *)'", 'a final option excludes everything')
    elif excl:
        v.prove(head.startswith("'(") and head.endswith(")'") and sorted(head[2:-2].split()) == sorted(excl), 'exactly the conflicting and own strings')
    else:
        v.prove(head == '', 'nothing is excluded')


CONTRACTS = [conflicting_options, final_options, final_option_strings, bash_conditions, bash_condition_code, fish_conditions_, zsh_spec]


def groups(b):
    """get_conflicting_options for all assignments of groups"""
    import itertools
    from checks.common import commandline, quiet
    kinds = [None, ['x'], ['y'], ['x', 'y'], ['y', 'x']]
    b.begin('groups', 'all assignments of the groups x and y to 4 options of a command and one of its subcommand')
    for gs in itertools.product(kinds, repeat=4):
        for sub in ([['x'], ['x', 'y']] if gs[0] else [['y']]):
            opts = [dict({'option_strings': ['-' + n]}, **({'groups': g} if g else {})) for n, g in zip('abcd', gs)]
            with quiet():
                c = commandline([{'prog': 'p', 'options': opts}, {'prog': 'p s', 'options': [{'option_strings': ['-e'], 'groups': sub}]}])
            b.case(key=(str(gs), str(sub)))
            for i, o in enumerate(c.options):
                want = [p.option_strings[0] for j, p in enumerate(c.options) if i != j and set(gs[i] or []) & set(gs[j] or [])]
                if sorted(o.get_conflicting_option_strings()) != sorted(want):
                    b.fail('groups:wrong', 'with groups %r the option %s conflicts with %r, not %r' % (
                        gs, o.option_strings[0], o.get_conflicting_option_strings(), want), groups=gs)
            e = c.get_subcommands().subcommands[0].options[0]
            if e.get_conflicting_option_strings():
                b.fail('groups:other command', 'an option conflicts with those of another command', groups=gs)


NOT_ZSH = [s for s in SHELLS if s != 'zsh']


def options_only(c):
    return c.startswith('-')


def vals(c):
    return c.startswith('val.')


def queries(rng, root, inherit, n, sig):
    out = []
    for _ in range(n):
        w = model.random_words(rng, root, inherit, n=8, double_dash=.02)
        st = model.State(root, w, inherit)
        if st.pending:
            continue
        out.append((w + ['-'], st.option_strings('-'), options_only, sig + ':offered', SHELLS if st.valid else NOT_ZSH))
        out.append((w + ['--'], st.option_strings('--'), options_only, sig + ':offered', SHELLS if st.valid else NOT_ZSH))
        if st.end or not st.valid:
            continue
        for o in st.cmd.scope(inherit):
            if o.hidden and o.kind != '0' and st.allowed(o):
                for s in o.strings:
                    if len(s) > 2 and not any(len(x) == 2 and s.startswith(x) and p.kind != '0' for p in st.cmd.scope(inherit) for x in p.strings):
                        out.append((w + [s + '='], {'val.' + o.id}, vals, sig + ':hidden completed'))
                    if o.kind == '1':
                        out.append((w + [s, ''], {'val.' + o.id}, vals, sig + ':hidden completed'))
    return out


def trees(b):
    rng = b.rng
    b.begin('command trees', 'random trees of up to 3 levels, random command lines, options inherited or not; 3 shells')
    r = model.Runner(b)
    for _ in range(400 if b.thorough() else 60):
        root = model.random_tree(rng, override=False, options=6)
        inherit = rng.random() < .6
        r.run(root, {'set_inherit_options': inherit}, queries(rng, root, inherit, 14, 'tree'))
    r.finish()


BOUNDED = [trees, groups]
