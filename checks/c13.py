"""C13: positionals are completed by their own completer at their own position."""
import itertools

from pydv import instrument, vc
from checks import model
from checks.common import commandline, config, generate, quiet, real, SHELLS

cli = instrument.mod('cli')
bpc = instrument.mod('bash_positionals_completion')
bash = instrument.mod('bash')
fish = instrument.mod('fish')
fc = instrument.mod('fish_conditions')
zu = instrument.mod('zsh_utils')

TRUSTED = ['the parsing helpers of the three shells, the shells and _arguments of Zsh (bounded part)']
ASSUMPTIONS = ['_arguments of Zsh 5.9 completes nothing directly after `--` if a positional precedes it: not demanded there',
               'Fish itself completes the optional argument of an old-style option in the next word (see C22): not demanded here',
               'CommandLine.get_parents returns the parents from the root on (bounded part)']
RULE = ('random command trees with positionals in any order, before and after subcommands, with and without inherited options, and random command '
        'lines with options in all forms between the words; gaps, duplicates and alternatives of positions')


def _positionals(v, name):
    """any number of positionals with any numbers; ghost state: the largest number so far"""
    def mk(n):
        p = object.__new__(cli.Positional)
        p.number = v.int(n + '.number')
        v.assume(p.number >= 1)
        return p
    ps = v.list(name, mk)
    ps.fold = vc.Fold({'m': 0}, lambda s, e: {'m': vc.BI.max(s['m'], e.number)}, {'m': 'int'})
    return ps


def highest_number(v):
    """get_highest_positional_num is the largest number of any list of positionals, one more if there are subcommands"""
    v.covers('cli.CommandLine.get_highest_positional_num')
    c = object.__new__(cli.CommandLine)
    c.positionals = ps = _positionals(v, 'positionals')
    c.subcommands = v.choose('subcommands', [None, object()])
    got = c.get_highest_positional_num()
    m = ps.fold.final['m'] if ps.fold.final else 0
    v.same(got, m + (1 if c.subcommands else 0), 'highest number')


def position(v):
    """get_positional_index / get_positional_num: the own number after the positions of all parents, each of which has as many as its largest number, and one more for its subcommands; for any number of parents and positionals"""
    v.covers('cli.Positional.get_positional_index', 'cli.Positional.get_positional_num', 'cli.CommandLine.get_positionals',
             'cli.CommandLine.get_subcommands')

    def mk(n):
        c = object.__new__(cli.CommandLine)
        c.positionals = _positionals(v, n + '.positionals')
        c.subcommands = v.choose(n + '.subcommands', [None, object()])
        return c
    parents = v.list('parents', mk)

    def step(s, c):
        f = c.positionals.fold
        return {'t': s['t'] + (f.final['m'] if f.final else 0) + (1 if c.subcommands else 0)}
    number = v.int('number')
    parents.fold = vc.Fold({'t': number - 1}, step, {'t': 'int'})

    class Parent:
        def get_parents(self):
            return parents
    p = object.__new__(cli.Positional)
    p.number, p.parent = number, Parent()
    num = v.choose('num', [True, False])
    got = p.get_positional_num() if num else p.get_positional_index()
    total = parents.fold.final['t'] if parents.fold.final else number - 1
    v.same(got, total + (1 if num else 0), 'position')


class Position:
    """a positional at some position"""

    when_parsed = None
    parent = None
    nosort = False
    help = metavar = None
    complete = ['none']

    def __init__(self, v):
        self.num = v.int('num')
        self.repeatable = v.choose('repeatable', [True, False])

    def get_positional_num(self):
        return self.num


def bash_position(v):
    """Bash completes a positional if exactly (repeatable: at least) as many words as its position are given, the current one included"""
    v.covers('bash_positionals_completion._get_positional_condition')
    p = Position(v)
    v.same(bpc._get_positional_condition(p), '${#POSITIONALS[@]} ' + ('>=' if p.repeatable else '==') + ' ' + vc.API.mod('%s', (p.num,)), 'condition')


def fish_position(v):
    """Fish completes a positional if exactly (repeatable: at least) as many words as precede its position are given"""
    v.covers('fish.FishCompletionGenerator._complete_positional')
    p = Position(v)
    g = object.__new__(fish.FishCompletionGenerator)

    class Context:
        def get_option_context(self, *a):
            return self
    g.ctxt, g.commandline = Context(), None
    g._complete = lambda *a: None
    others = v.choose('others', [[], ['c1'], ['c1', 'c2']])
    v.patch(fish, '_get_positional_contains', lambda o: list(others))
    d = g._complete_positional(p)
    conds = d.conditions.conditions
    v.prove([c for c in conds if isinstance(c, str)] == others, 'only in its own command')
    nums = [c for c in conds if not isinstance(c, str)]
    v.prove(len(nums) == 1 and type(nums[0]) is fc.PositionalNum, 'one condition on the position')
    v.same(nums[0].operator, '>=' if p.repeatable else '==', 'operator')
    v.same(nums[0].number, p.num - 1, 'number of words before')


def zsh_position(v):
    """Zsh gets the position, or * for a repeatable positional, then the message and the action"""
    v.covers('zsh_utils.make_positional_spec')
    num = v.int('num')
    rep = v.choose('repeatable', [True, False])
    v.patch(zu.shell, 'quote', lambda x, quote_empty_string=True: vc.SymStr.of(x)._fn('quote'))
    v.patch(zu, 'escape_spec_message', lambda x: vc.SymStr.of(x)._fn('message'))
    v.patch(zu, 'escape_colon_in_quoted_string', lambda x: vc.SymStr.of(x)._fn('action'))
    desc, action = v.str('description'), v.str('action')
    got = zu.make_positional_spec(num, rep, desc, action)
    start = "'*'" if rep else vc.API.mod('%s', (num,))
    if v.holds(action == '_normal'):
        v.same(got, start + '::' + desc._fn('message')._fn('quote') + ':' + action, 'spec')
    else:
        v.same(got, start + ':' + desc._fn('message')._fn('quote') + ':' + action._fn('action'), 'spec')


def bash_subcommand_call(v):
    """Bash calls the function of the subcommand that is named at the position after the last positional, for any number (at least one) of subcommands"""
    v.covers('bash.BashCompletionGenerator._generate_subcommand_call')
    inherit = v.choose('inherit', [True, False])
    worth = v.choose('worth', [True, False])

    class Sub:
        def __init__(self, n):
            self.names = v.str(n + '.pattern')
            self.func = v.str(n + '.func')
    subs = v.list('subs', Sub, 1)

    class Subcommands:
        subcommands = subs

        def get_positional_num(self):
            return 3

    class Context:
        class helpers:
            @staticmethod
            def make_completion_funcname(s):
                return s.func
    v.patch(bash.utils, 'get_all_command_variations', lambda s: s)
    v.patch(bash.bash_patterns, 'make_pattern', lambda s: s.names)
    v.patch(bash.utils, 'is_worth_a_function', lambda s: worth)
    g = object.__new__(bash.BashCompletionGenerator)
    g.ctxt, g.subcommands = Context(), Subcommands()
    g.commandline = type('C', (), {'inherit_options': inherit})()
    got = g._generate_subcommand_call()
    e = subs.elem
    if worth:
        line = '    ' + e.names + ') ' + e.func + (' && return 0;;\n' if inherit else ' && return 0 || return 1;;\n')
    else:
        line = '    ' + e.names + (');;\n' if inherit else ') return 0;;\n')
    want = 'if (( 2 < ${#POSITIONALS[@]} )); then\n  case "${POSITIONALS[2]}" in\n' + vc.SymStr([vc.MapSeg(subs, line)]) + '  esac\nfi'
    v.same(got, want, 'one case per subcommand')


CONTRACTS = [highest_number, position, bash_position, fish_position, zsh_position, bash_subcommand_call]


# ------------------------------------------------------------------ bounded

def values(c):
    return not c.startswith('-')


def queries(rng, root, inherit, n, sig):
    out = []
    for _ in range(n):
        w = model.random_words(rng, root, inherit)
        st = model.State(root, w, inherit)
        if st.pending or model.fish_takes_next(st, w):
            continue
        out.append((w + [''], st.values(), values, sig, SHELLS if w[-1:] != ['--'] else ('bash', 'fish')))
    return out


def trees(b):
    rng = b.rng
    b.begin('command trees', 'random trees of up to 3 levels, random command lines, options inherited or not; 3 shells')
    r = model.Runner(b)
    for _ in range(400 if b.thorough() else 100):
        root = model.random_tree(rng, final=0, hidden=0, groups=0, repeatable=1, options=3, override=False)
        inherit = rng.random() < .5
        r.run(root, {'set_inherit_options': inherit}, queries(rng, root, inherit, 25, 'positional'))
    r.finish()


def gaps(b):
    """numbers that are not consecutive"""
    rng = b.rng
    b.begin('gaps', 'all sets of positions up to 5, repeatable or not, with and without subcommands; 3 shells')
    r = model.Runner(b)
    sets = [s for k in (1, 2, 3) for s in itertools.combinations(range(1, 6), k)]
    for s in sets if b.thorough() else rng.sample(sets, 14):
        for kind in ('plain', 'repeatable', 'subcommands', 'inside'):
            root = model.Cmd('mytool')
            root.opts.append(model.Opt('o', ['--opt', '-o'], '1', repeatable=True))
            c = model.Cmd('sub', root) if kind == 'inside' else root
            if kind == 'inside':
                root.pos = [(2, 'root', False)]
            c.pos = [(n, 'p%d' % n, kind in ('repeatable', 'inside') and n == s[-1]) for n in s]
            rng.shuffle(c.pos)
            if kind == 'subcommands':
                model.Cmd('sub', root).pos = [(1, 'q', False)]
            qs = []
            for k in range(0, 8):
                w = ['w'] * k
                if kind == 'inside':
                    w = (['w', 'w', 'sub'] + w)[:k + 2]
                elif kind == 'subcommands' and k > s[-1]:
                    w[s[-1]] = 'sub'
                if w and rng.random() < .5:
                    w.insert(rng.randrange(len(w)), rng.choice(['-ov', '--opt=v']))
                qs.append((w + [''], model.State(root, w, True).values(), values, 'gaps:%s' % kind))
            r.run(root, {'set_inherit_options': True}, qs)
    r.finish()


def numbering(b):
    b.begin('unusable numbering', 'all sequences of up to 3 positionals with numbers up to 3: rejected or usable')
    cnt = 0
    for k in (1, 2, 3):
        for nums in itertools.product((1, 2, 3), repeat=k):
            for reps in itertools.product((False, True), repeat=k):
                for subs in (False, True):
                    d = [{'prog': 'mytool', 'positionals': [
                        {'number': n, 'repeatable': r, 'complete': ['choices', ['val.p%d' % i]]} for i, (n, r) in enumerate(zip(nums, reps))]}]
                    if subs:
                        d.append({'prog': 'mytool sub'})
                    last = max(nums)
                    ok = len(set(nums)) == k and not (subs and any(reps)) and all(n == last for n, r in zip(nums, reps) if r)
                    b.case(key=(nums, reps, subs))
                    try:
                        with quiet():
                            real('bash').generate_completion(commandline(d), config())
                        got = True
                    except real('errors').CrazyError:
                        got = False
                    if got != ok:
                        b.fail('numbering', 'positionals with numbers %r, repeatable %r, %s subcommands are %s' % (
                            nums, reps, 'with' if subs else 'without', 'accepted' if got else 'rejected'), definition=d)
                        return
                    cnt += 1


def alternatives(b):
    """several positionals with one number under conditions that may hold at the same time"""
    rng = b.rng
    b.begin('alternatives', 'positionals with the same number under overlapping conditions: one whose condition is true is used; 3 shells')
    for _ in range(24 if b.thorough() else 8):
        k = rng.randint(2, 4)
        rep = rng.random() < .4
        conds = [rng.sample(['-a', '-b', '-c'], rng.randint(1, 2)) for _ in range(k)]
        dicts = [{'prog': 'mytool', 'options': [{'option_strings': [o], 'repeatable': True} for o in ('-a', '-b', '-c')],
                  'positionals': [dict({'number': 1, 'complete': ['choices', ['val.%d' % i]], 'when': 'has_option ' + ' '.join(c)},
                                       **({'repeatable': True} if rep else {})) for i, c in enumerate(conds)]}]
        if rng.random() < .3:
            del dicts[0]['positionals'][-1]['when']
            conds[-1] = None
        if rng.random() < .5:
            dicts[0]['positionals'].append({'number': 2, 'complete': ['choices', ['val.next']]} if not rep else {
                'number': 1, 'repeatable': True, 'complete': ['choices', ['val.never']], 'when': 'positional_count > 9'})
        lines = [list(s) for n in range(4) for s in itertools.combinations(['-a', '-b', '-c'], n)]
        qs = [['mytool'] + l + [''] for l in lines]
        for sh in SHELLS:
            res = model.c05.complete(sh, generate(sh, dicts), qs)
            if res is None:
                b.skip('%s gave no answer' % sh)
                continue
            for l, r in zip(lines, res):
                b.case(key=(sh, str(dicts), tuple(l)))
                true = {'val.%d' % i for i, c in enumerate(conds) if c is None or set(c) & set(l)}
                got = {c for c in model.tidy(r) if values(c)}
                if not got <= true or bool(got) != bool(true):
                    b.fail('alternatives:%s' % sh, '%s: after `mytool %s` the alternatives %s are possible, but it is completed as %s' % (
                        sh, ' '.join(l), sorted(true), sorted(got)), definition=dicts, words=l, shell=sh)
                    break


BOUNDED = [trees, gaps, numbering, alternatives]
