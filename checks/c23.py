"""C23: argparse parsers are converted faithfully."""
import argparse
import contextlib
import os

import tempfile

from pydv import instrument, vc

from .common import quiet, real

RULE = 'a case is one parser, written as Python code from a random specification, converted and compared with the specification'
TRUSTED = ['argparse of the Python that runs the check']
ASSUMPTIONS = ['a positional or a subcommand has no attribute `hidden`: if it is suppressed, its help is left out',
               'options with nargs N > 1, + or * are converted as options with one required argument (a warning is printed)',
               'help texts are taken as they are written (argparse expands %(default)s only when it prints them)']

HOOKED = ['complete', 'get_complete', 'when', 'get_when', 'set_repeatable', 'get_repeatable', 'set_final', 'get_final']
HOOKED_PARSER = ['alias', 'aliases', 'get_aliases', 'remove_help']


def methods(loader):
    """the methods that argparse_mod adds to the classes of argparse"""
    m = loader('argparse_mod')
    import importlib
    importlib.reload(m)
    return ({n: getattr(argparse.Action, n) for n in HOOKED if hasattr(argparse.Action, n)},
            {n: getattr(argparse.ArgumentParser, n) for n in HOOKED_PARSER if hasattr(argparse.ArgumentParser, n)})


src = instrument.mod('argparse_source')
cli = instrument.mod('cli')
SYMBOLIC = methods(instrument.mod)
real('argparse_source')
NORMAL = methods(real)


def use(hooks):
    for n, f in hooks[0].items():
        setattr(argparse.Action, n, f)
    for n, f in hooks[1].items():
        setattr(argparse.ArgumentParser, n, f)


# ---------------------------------------------------------------- contracts

def bare(cls, **attrs):
    """an action of the class with any attributes"""
    sub = type(cls.__name__, (cls,), {'__repr__': lambda self: 'action', '__init__': lambda self: None})
    a = sub()
    for k, x in attrs.items():
        setattr(a, k, x)
    return a


class Range:
    def __init__(self, v):
        self.start, self.stop, self.step = v.int('start'), v.int('stop'), v.int('step')
        v.assume(self.step != 0)


def ranges_keep_their_elements(v):
    """range_to_complete: the first number, the step and the elements of any range stay the same (`range` of crazy-complete includes its end, the range of Python doesn't)"""
    v.covers('argparse_source.range_to_complete')
    r = Range(v)
    got = src.range_to_complete(r)
    v.prove(got[0] == 'range' and len(got) in (3, 4), 'a range')
    v.prove(got[1] == r.start, 'start')
    step = got[3] if len(got) == 4 else 1
    v.prove(r.step == step, 'step')
    x = v.int('x')
    if v.holds(r.step > 0):
        inside, still = x < r.stop, x <= got[2]
    else:
        inside, still = x > r.stop, x >= got[2]
    v.prove(vc.SymBool(vc.zb(inside) == vc.zb(still)), 'no element is lost, none is added')


NO_ARGUMENT = [argparse._HelpAction, argparse._VersionAction, argparse._StoreTrueAction, argparse._StoreFalseAction, argparse._StoreConstAction,
               argparse._AppendConstAction, argparse._CountAction]
ARGUMENT = [argparse._StoreAction, argparse._AppendAction, argparse._ExtendAction]


def completers_are_kept(v):
    """get_complete: nothing for every action without arguments; for the others what was set with complete(), else all choices (in order), else ['none']; any other action is an error"""
    v.covers('argparse_source.get_complete')
    use(SYMBOLIC)
    v.patch(src.utils, 'warn', lambda *a: None)
    cls = v.choose('class', NO_ARGUMENT + ARGUMENT + [argparse.BooleanOptionalAction, argparse.Action])
    strings = v.list('choices', lambda n: v.str(n))
    kind = v.choose('choices', ['none', 'list', 'range', 'mapping']) if cls in ARGUMENT else 'none'
    choices = {'none': None, 'list': strings, 'range': range(4, 9), 'mapping': {'a': 'x', 'b': 'y'}}[kind]
    a = bare(cls, choices=choices)
    own = v.choose('own', [None, ('choices', ['p', 'q']), ('file', {'extensions': ['txt']}), ('range', 1, 2)])
    if own is not None:
        a.complete(*own)
    try:
        got = src.get_complete(a)
    except Exception as e:                                      # pylint: disable=broad-except
        v.prove(cls not in NO_ARGUMENT + ARGUMENT and type(e).__name__ == 'CrazyError', 'an error for other actions only')
        return
    v.prove(cls in NO_ARGUMENT + ARGUMENT, 'no other action is converted')
    if cls in NO_ARGUMENT:
        v.prove(got is None, 'no argument')
    elif own is not None:
        v.prove(tuple(got) == own, 'the completer that was set')
    elif kind == 'range':
        v.prove(tuple(got) in (('range', 4, 8), ('range', 4, 8, 1)), 'the range')
    elif kind == 'mapping':
        v.prove(got[0] == 'choices' and got[1] == choices and len(got) == 2, 'the choices')
    elif kind == 'none' or not v.holds(strings):
        v.prove(list(got) == ['none'], 'any argument')
    else:
        v.prove(got[0] == 'choices' and len(got) == 2, 'choices')
        v.same(vc.BI.list(got[1]), strings, 'all choices')


def only_final_actions_are_final(v):
    """get_final: help, version and what set_final() set"""
    v.covers('argparse_source.get_final', 'argparse_mod._action_set_final', 'argparse_mod._action_get_final')
    use(SYMBOLIC)
    cls = v.choose('class', NO_ARGUMENT + ARGUMENT)
    a = bare(cls)
    k = v.choose('set', ['no', 'default', 'value'])
    x = v.bool('value')
    if k == 'default':
        a.set_final()
    elif k == 'value':
        a.set_final(x)
    got = src.get_final(a)
    if cls in NO_ARGUMENT[:2]:
        v.prove(got is True, 'final')
    elif k == 'value':
        v.same(got, x, 'as set')
    else:
        v.prove(got is (k == 'default'), 'final exactly if it was set')


def attributes_are_kept(v):
    """complete(), when(), set_repeatable(), alias(), aliases(): what is set is what is read, and without them the default"""
    v.covers('argparse_mod._action_complete', 'argparse_mod._action_get_complete', 'argparse_mod._action_when', 'argparse_mod._action_get_when',
             'argparse_mod._action_set_repeatable', 'argparse_mod._action_get_repeatable', 'argparse_mod._parser_alias',
             'argparse_mod._parser_aliases', 'argparse_mod._parser_get_aliases')
    use(SYMBOLIC)
    a, other = bare(argparse._StoreAction), bare(argparse._StoreAction)
    p = object.__new__(argparse.ArgumentParser)
    w, r, al = v.str('when'), v.bool('repeatable'), v.str('alias')
    v.prove(a.get_complete() is None and a.get_when() is None and a.get_repeatable() == cli.INHERIT and list(p.get_aliases()) == [], 'defaults')
    c = v.str('arg')
    v.prove(a.complete('choices', [c]) is a, 'returns the action')
    v.prove(a.when(w) is a and a.set_repeatable(r) is a and p.alias(al) is p, 'return the object')
    got = a.get_complete()
    v.prove(got[0] == 'choices' and len(got) == 2, 'completer')
    v.same(got[1], [c], 'arguments of the completer')
    v.same(a.get_when(), w, 'when')
    v.same(a.get_repeatable(), r, 'repeatable')
    v.same(vc.BI.list(p.get_aliases()), [al], 'alias')
    many = v.list('aliases', lambda n: v.str(n))
    p.aliases(many)
    v.same(vc.BI.list(p.get_aliases()), many, 'aliases')
    v.prove(other.get_complete() is None and other.get_when() is None and other.get_repeatable() == cli.INHERIT, 'of this action only')


class Recorder:
    """stands for the CommandLine that is built"""

    last = None

    def __init__(self, prog, help=None, aliases=None, **more):
        if more:
            raise vc.Unsupported('other attributes of commands')
        self.prog, self.help, self.aliases = prog, help, aliases
        self.made, self.subs = [], []
        self.options = []
        Recorder.last = self

    def add_option(self, option_strings, **more):
        self.made.append(('option', option_strings, more))

    def add_positional(self, number, **more):
        self.made.append(('positional', number, more))

    def get_options(self, *a, **k):
        return self.options

    def add_subcommands(self):
        return self

    def add_commandline_object(self, c):
        self.subs.append(c)


class Parser:
    def __init__(self, v, actions, groups=()):
        self._actions, self._mutually_exclusive_groups = actions, groups
        self.prog, self.description = v.str('prog'), v.choose('description', [None, v.str('description')])
        self.aliases = v.list('aliases', lambda n: v.str(n))

    def get_aliases(self):
        return self.aliases


def some_action(v, n, cls):
    a = bare(cls, option_strings=[], dest=v.str(n + '.dest'), nargs=None, choices=None)
    v.assume(a.dest != '')
    a.metavar = v.choose(n + '.metavar', ['none', 'text', 'tuple'])
    if a.metavar == 'none':
        a.metavar = None
    elif a.metavar == 'text':
        a.metavar = v.str(n + '.metavar')
        v.assume(a.metavar != '')
    else:
        a.metavar = (v.str(n + '.metavar1'), v.str(n + '.metavar2'))
    a.help = v.choose(n + '.help', [None, argparse.SUPPRESS, 'text'])
    if a.help == 'text':
        a.help = v.str(n + '.help')
        v.assume(a.help != argparse.SUPPRESS)
    a.when(v.val(n + '.when'))
    return a


def metavar_of(a):
    if a.metavar is None:
        return a.dest
    if isinstance(a.metavar, tuple):
        return a.metavar[0] + ' ' + a.metavar[1]
    return a.metavar


def base(v, c, p, prog, description):
    v.same(c.prog, prog if prog is not None else p.prog, 'prog')
    v.same(c.help, description if description is not None else p.description, 'description')
    v.same(vc.BI.list(c.aliases), p.aliases, 'aliases')


def some_names(v):
    prog = v.choose('given prog', [None, v.str('given.prog')])
    description = v.choose('given description', [None, v.str('given.description')])
    for x in (prog, description):
        if x is not None:
            v.assume(x != '')
    return prog, description


def convert(v, p, *a):
    v.patch(src, 'CommandLine', Recorder)
    v.patch(src.utils, 'warn', lambda *a: None)
    return src.argumentparser_to_commandline(p, *a)


def commands_are_kept(v):
    """argumentparser_to_commandline: the program name and description that are given, else those of the parser; its aliases"""
    v.covers('argparse_source.argumentparser_to_commandline')
    use(SYMBOLIC)
    p = Parser(v, [])
    prog, description = some_names(v)
    c = convert(v, p, prog, description)
    base(v, c, p, prog, description)
    v.prove(c.made == [] and c.subs == [], 'nothing is added')


def positionals_are_kept(v):
    """argumentparser_to_commandline: one positional per positional action, numbered in their order, for any number of them; metavar, help, completer, when as in the action; repeatable exactly if it takes several words"""
    v.covers('argparse_source.argumentparser_to_commandline')
    use(SYMBOLIC)
    v.patch(src, 'get_complete', lambda a: ('completer of', a))

    def mk(n):
        a = some_action(v, n, argparse._StoreAction)
        a.nargs = v.choose(n + '.nargs', [None, '?', '*', '+', 1, 2, argparse.REMAINDER, 'any'])
        if a.nargs == 'any':
            a.nargs = v.int(n + '.nargs')
            v.assume(a.nargs > 1)
        return a
    actions = v.list('actions', mk)
    actions.fold = vc.Fold({'n': 0}, lambda st, a: {'n': st['n'] + 1}, {'n': 'int'})

    def emit(st, a, added):
        v.prove(len(added) == 1 and added[0][0] == 'positional', 'one positional')
        number, more = added[0][1:]
        v.same(number, st['n'] + 1, 'number')
        v.same(more.pop('metavar', None), metavar_of(a), 'metavar')
        v.same(more.pop('help', None), None if a.help is None or isinstance(a.help, str) else a.help, 'help')
        v.prove(more.pop('complete', None) == ('completer of', a), 'completer')
        v.same(more.pop('when', None), a.get_when(), 'when')
        several = not (a.nargs is None or isinstance(a.nargs, str) and a.nargs == '?' or isinstance(a.nargs, int) and a.nargs == 1)
        v.prove(more.pop('repeatable', False) is several, 'repeatable')
        v.prove(not more, 'nothing else is set')
    actions.fold.emit = emit
    p = Parser(v, actions)
    c = convert(v, p)
    base(v, c, p, None, None)
    v.prove(c.subs == [], 'no subcommands')


def options_are_kept(v):
    """argumentparser_to_commandline: one option per optional action, in their order, for any number of them; all option strings, metavar if it takes an argument, help, completer, when, repeatable and final as in the action; hidden exactly if suppressed; optional argument exactly with nargs '?'"""
    v.covers('argparse_source.argumentparser_to_commandline')
    use(SYMBOLIC)
    v.patch(src, 'get_complete', lambda a: a.completer)

    def mk(n):
        a = some_action(v, n, v.choose(n + '.class', [argparse._StoreAction, argparse._HelpAction]))
        a.option_strings = v.list(n + '.option_strings', lambda m: v.str(m), 1)
        a.completer = v.choose(n + '.complete', [None, ('completer of', a)])
        a.nargs = v.choose(n + '.nargs', [None, '?', '*', '+', 1, 0, 2, argparse.REMAINDER])
        a.set_repeatable(v.xbool(n + '.repeatable'))
        a.set_final(v.bool(n + '.final'))
        return a
    actions = v.list('actions', mk)
    actions.fold = vc.Fold({}, lambda st, a: st, {})

    def emit(st, a, added):
        v.prove(len(added) == 1 and added[0][0] == 'option', 'one option')
        strings, more = added[0][1:]
        more = dict(more)
        v.same(vc.BI.list(strings), a.option_strings, 'option strings')
        v.same(more.pop('metavar', None), metavar_of(a) if a.completer else None, 'metavar')
        v.same(more.pop('help', None), None if a.help is None or isinstance(a.help, str) else a.help, 'help')
        v.prove(bool(more.pop('hidden', False)) is (isinstance(a.help, str) and a.help == argparse.SUPPRESS), 'hidden')
        v.prove(more.pop('complete', None) == a.completer, 'completer')
        v.same(more.pop('when', None), a.get_when(), 'when')
        v.same(more.pop('repeatable', cli.INHERIT), a.get_repeatable(), 'repeatable')
        v.same(more.pop('final', False), True if isinstance(a, argparse._HelpAction) else a.get_final(), 'final')
        v.prove(more.pop('optional_arg', False) is (isinstance(a.nargs, str) and a.nargs == '?'), 'optional argument')
        v.prove(not more, 'nothing else is set')
    actions.fold.emit = emit
    p = Parser(v, actions)
    c = convert(v, p)
    base(v, c, p, None, None)


def subcommands_are_kept(v):
    """argumentparser_to_commandline: one subcommand per subparser, in order, named as it was added, with all aliases and the help of its action (up to three names, any texts)"""
    v.covers('argparse_source.argumentparser_to_commandline')
    use(SYMBOLIC)
    original = src.argumentparser_to_commandline

    class Sub:
        def __init__(self, own):
            self.own = own
    shape = v.choose('shape', [[], ['a'], ['a', 'b'], ['a', 'a'], ['a', 'b', 'c'], ['a', 'a', 'a'], ['a', 'a', 'b'], ['a', 'b', 'b']])
    parsers = {k: Sub([v.str('alias of ' + k)] if v.choose('alias of ' + k, [True, False]) else []) for k in set(shape)}
    names = ['name%d' % i for i in range(len(shape))]
    for k in sorted(parsers):
        for n in names:
            for x in parsers[k].own:
                v.assume(x != n)
    a = bare(argparse._SubParsersAction, choices={n: parsers[k] for n, k in zip(names, shape)}, option_strings=[], help=None, nargs=argparse.PARSER)
    firsts = [n for i, (n, k) in enumerate(zip(names, shape)) if k not in shape[:i]]
    helps = {}
    for n in firsts:
        helps[n] = v.choose('help of ' + n, [None, argparse.SUPPRESS, v.str('help of ' + n)])
        if not isinstance(helps[n], (str, type(None))):
            v.assume(helps[n] != argparse.SUPPRESS)
    shown = [bare(argparse._StoreAction, dest=n, help=helps[n]) for n in firsts if helps[n] is not None]
    a._get_subactions = lambda: shown
    p = Parser(v, [a])
    calls = []

    def sub(parser, prog=None, description=None):
        c = Recorder(prog, description, list(parser.own))
        calls.append((parser, prog, description))
        return c
    v.patch(src, 'argumentparser_to_commandline', sub)
    v.patch(src, 'CommandLine', Recorder)
    c = original(p)
    v.prove([s.prog for s in c.subs] == firsts, 'one subcommand per parser, in order')
    v.prove([x[0] for x in calls] == [parsers[shape[names.index(n)]] for n in firsts], 'the parser with the name')
    for s, n in zip(c.subs, firsts):
        k = shape[names.index(n)]
        v.same(s.help, None if helps[n] is None or isinstance(helps[n], str) else helps[n], 'help')
        v.same(list(s.aliases), [m for m, j in zip(names, shape) if j == k and m != n] + list(parsers[k].own), 'aliases')
    v.prove(c.made == [], 'nothing is added')


class Opt:
    def __init__(self, *strings):
        self.option_strings = list(strings)
        self.groups = None


def groups_are_kept(v):
    """argumentparser_to_commandline: the options of any number of mutually exclusive groups, and no others, are added to groups of different names (two options with any two option strings each; each of them or both in the group)"""
    v.covers('argparse_source.argumentparser_to_commandline')
    use(SYMBOLIC)
    strings = [v.str('option%d' % i) for i in range(4)]
    for i in range(4):
        for j in range(i):
            v.assume(strings[i] != strings[j])
    options = [Opt(strings[0], strings[1]), Opt(strings[2], strings[3])]

    class Group:
        def __init__(self, commandline, name):
            self.commandline, self.name = commandline, name
            self.members = []
            commandline.made.append((name, self.members))

        def add_option(self, o):
            self.members.append(o)
    v.patch(src, 'MutuallyExclusiveGroup', Group)

    class Exclusive:
        pass
    groups = []
    for i in range(v.choose('groups', [0, 1, 2])):
        g = Exclusive()
        g.which = v.choose('group %d' % i, [[], [0], [1], [0, 1], [1, 0]])
        g._group_actions = [bare(argparse._StoreAction, option_strings=list(options[n].option_strings)) for n in g.which]
        groups.append(g)
    p = Parser(v, [], groups)
    v.patch(Recorder, 'get_options', lambda self, *a, **k: options)
    c = convert(v, p)
    v.prove(len(c.made) == len(groups), 'one group each')
    v.prove(len({name for name, _ in c.made}) == len(groups), 'different names')
    for (_, members), g in zip(c.made, groups):
        v.prove(len(members) >= len(g.which) and set(members) == {options[n] for n in g.which}, 'its options')


CONTRACTS = [ranges_keep_their_elements, completers_are_kept, only_final_actions_are_final, attributes_are_kept, commands_are_kept, positionals_are_kept,
             options_are_kept, subcommands_are_kept, groups_are_kept]


# ------------------------------------------------------------------ bounded

HELPS = ['do something', 'Uses a "quote"', "it's", 'a: b', 'default: %(default)s', '100%%', '', ' lead', 'two\nlines', 'ünïcode', '# x', None, None, None]
SHORT = 'abcdefgijklmnopqrstuvwxyzABCDEFG0123456789?@'
DESTS = ['file', 'src', 'dst', 'the_name', 'x1', 'path']
METAVARS = ['FILE', '<file>', 'two words', 'a:b', 'Ü', 'X=Y']
COMPLETERS = [('file',), ('choices', ['p', 'q r']), ('choices', {'k': 'v'}), ('range', 3, 9), ('directory', {'directory': '/tmp'}), ('exec', 'echo "a"'), ('user',), ('list', ['file'], {'separator': ':'})]
WHENS = ['option_is --zz -- a', 'has_option -z', 'positional_count == 1']


def choice(rng):
    """-> source, completer"""
    k = rng.randrange(14)
    if k == 0:
        words = rng.sample(['one', 'two', 'three', 'a b', 'ü', ''], rng.randint(1, 4))
        return repr(words), ['choices', words]
    if k == 1:
        words = rng.sample(['one', 'two', 'three'], rng.randint(1, 3))
        return repr(tuple(words)), ['choices', words]
    if k == 2:
        return '{"solo"}', ['choices', ['solo']]
    if k == 3:
        return '{"k": "v", "l": "w w"}', ['choices', {'k': 'v', 'l': 'w w'}]
    if k == 4:
        return '{"k": 1, "l": print}', ['choices', ['k', 'l']]
    if k == 5:
        a, n, s = rng.randint(-20, 20), rng.randint(1, 30), rng.choice([1, 1, 2, 3, 7, -1, -2, -5])
        b = a + n if s > 0 else a - n
        return 'range(%d, %d, %d)' % (a, b, s), ['elements', list(range(a, b, s))]
    if k == 6:
        n = rng.randint(1, 12)
        return 'range(%d)' % n, ['elements', list(range(n))]
    if k == 7:
        return '[1, 2, 30]', ['choices', [1, 2, 30]]
    if k == 8:
        return '"abc"', ['choices', ['a', 'b', 'c']]
    if k == 9:
        return 'dict(u=1, v=2).keys()', ['choices', ['u', 'v']]
    if k == 10:
        return 'list(Color)', ['choices', ['Color.RED', 'Color.BLUE']]
    if k == 11:
        return '[1.5, 2.0]', ['choices', [1.5, 2.0]]
    if k == 12:
        return 'frozenset(["solo"])', ['choices', ['solo']]
    return '[pathlib.PurePosixPath("/a"), pathlib.PurePosixPath("b c")]', ['choices', ['/a', 'b c']]


class Spec:
    """a parser as Python code, and what its command line has to be"""

    def __init__(self, rng):
        self.rng = rng
        self.lines = []
        self.n = 0

    def name(self, base):
        self.n += 1
        return '%s%d' % (base, self.n)

    def out(self, text):
        self.lines.append(text)

    def help(self, kw, suppress=.12):
        h = self.rng.choice(HELPS)
        if self.rng.random() < suppress:
            kw['help'] = 'argparse.SUPPRESS'
            return None, True
        if h is not None:
            kw['help'] = repr(h)
        return h, False

    def add(self, target, node, strings=None, required=True):
        """add_argument of an option (with option strings) or a positional"""
        rng, kw = self.rng, {}
        option = strings is not None
        names = list(strings) if option else [self.name(rng.choice(DESTS))]
        kind = rng.choice(['store', 'store', 'store', 'append', 'extend', None, None] + (['store_true', 'store_false', 'store_const', 'append_const', 'count', 'version'] if option else []))
        takes = kind in ('store', 'append', 'extend', None)
        if kind:
            kw['action'] = repr(kind)
        if kind in ('store_const', 'append_const'):
            kw['const'] = '1'
        if kind == 'version':
            kw['version'] = '"1.0"'
        nargs, complete, when, repeatable, final = None, None, None, 'INHERIT', kind == 'version'
        dest = names[0]
        if option:
            dest = next((s for s in names if s[:2] == '--'), names[0]).lstrip('-').replace('-', '_')
            if rng.random() < .2 or not dest:
                dest = self.name('dest')
                kw['dest'] = repr(dest)
        metavar = dest
        if takes:
            nargs = rng.choice([None, None, None, '?', '*', '+', 1, 2, 3, 'REMAINDER'])
            if nargs is not None:
                kw['nargs'] = 'argparse.REMAINDER' if nargs == 'REMAINDER' else repr(nargs)
            complete = ['none']
            if rng.random() < .4:
                kw['choices'], complete = choice(rng)
            if rng.random() < .5:
                if nargs in (2, 3) and rng.random() < .5:
                    words = rng.sample(METAVARS, nargs)
                    kw['metavar'], metavar = repr(tuple(words)), ' '.join(words)
                elif nargs == '*' and rng.random() < .4:
                    kw['metavar'], metavar = "('A', 'B')", 'A B'
                else:
                    metavar = rng.choice(METAVARS)
                    kw['metavar'] = repr(metavar)
            if rng.random() < .2:
                kw['type'] = 'str'
            if option and required and rng.random() < .2:
                kw['required'] = 'True'
            if rng.random() < .2:
                kw['default'] = '"d"'
        h, hidden = self.help(kw)
        if kind == 'version' and 'help' not in kw:
            h = "show program's version number and exit"
        var = self.name('a')
        self.out('%s = %s.add_argument(%s)' % (var, target, ', '.join([repr(n) for n in names] + ['%s=%s' % p for p in kw.items()])))
        if rng.random() < .15:
            c = rng.choice(COMPLETERS)
            self.out('%s.complete(%s)' % (var, ', '.join(map(repr, c))))
            if takes:
                complete = list(c)
        if rng.random() < .1:
            when = rng.choice(WHENS)
            self.out('%s.when(%r)' % (var, when))
        if option:
            if rng.random() < .15 and not hidden:
                repeatable = rng.choice([True, False])
                self.out('%s.set_repeatable(%s)' % (var, rng.choice([str(repeatable), 'enable=%s' % repeatable] + ([''] if repeatable else []))))
            if rng.random() < .1:
                f = rng.choice([True, False])
                self.out('%s.set_final(%s)' % (var, f if rng.random() < .5 or not f else ''))
                final = final or f
            o = dict(option_strings=names, metavar=metavar if complete else None, complete=complete, help=h, optional_arg=nargs == '?', repeatable=repeatable, final=final,
                     hidden=hidden, when=when, groups=None)
            for other in node['options']:
                for s in names:
                    if s in other['option_strings']:        # conflict_handler='resolve'
                        other['option_strings'] = [x for x in other['option_strings'] if x != s]
            node['options'] = [x for x in node['options'] if x['option_strings']]
            node['options'].append(o)
            return o
        p = dict(number=len(node['positionals']) + 1, metavar=metavar, complete=complete, help=h, repeatable=nargs not in (None, '?', 1), when=when)
        node['positionals'].append(p)
        return p

    def strings(self, used, resolve):
        rng = self.rng
        r = []
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            if resolve and used and rng.random() < .2:
                s = rng.choice(sorted(used))
            elif k < .4:
                s = '-' + rng.choice(SHORT)
            elif k < .9:
                s = '--' + rng.choice(['foo', 'bar', 'long-name', 'x_y', 'with.dot', 'no-foo', 'ü', 'a:b']) + rng.choice(['', '', str(rng.randrange(9))])
            else:
                s = '-' + rng.choice(['old', 'oldstyle', 'x11'])
            if s not in r and (resolve or s not in used):
                r.append(s)
        used.update(r)
        return r

    def arguments(self, target, node, used, resolve, count):
        rng = self.rng
        exclusive = 0
        for _ in range(count):
            k = rng.random()
            if k < .55:
                s = self.strings(used, resolve)
                if s:
                    self.add(target, node, s)
            elif k < .75:
                self.add(target, node)
            elif k < .85:
                g = self.name('g')
                self.out('%s = %s.add_argument_group("title")' % (g, target))
                for _n in range(rng.randint(1, 3)):
                    s = self.strings(used, resolve)
                    if s:
                        self.add(g, node, s)
                if rng.random() < .5:
                    self.exclusive(g, node, used, resolve)
            else:
                self.exclusive(target, node, used, resolve)
        return exclusive

    def exclusive(self, target, node, used, resolve):
        g = self.name('x')
        self.out('%s = %s.add_mutually_exclusive_group(%s)' % (g, target, self.rng.choice(['', 'required=True'])))
        ident = object()
        for _ in range(self.rng.randint(1, 3)):
            s = self.strings(used, resolve) or ['--' + self.name('more')]
            used.update(s)
            self.add(g, node, s, False)['groups'] = ident

    def parser(self, create, prog, depth, top, description=None):
        """-> the variable, the expected command"""
        rng = self.rng
        var = self.name('p')
        node = dict(prog=prog, help=description, aliases=[], options=[], positionals=[], subs=[])
        kw = {}
        d = rng.choice(HELPS)
        if d is not None:
            kw['description'] = repr(d)
            node['help'] = node['help'] or d
        add_help = rng.random() < .7
        if not add_help:
            kw['add_help'] = 'False'
        resolve = rng.random() < .25
        if resolve:
            kw['conflict_handler'] = '"resolve"'
        if rng.random() < .1:
            kw['epilog'] = '"the end"'
        used = set()
        if add_help:
            node['options'].append(dict(option_strings=['-h', '--help'], metavar=None, complete=None, help='show this help message and exit', optional_arg=False,
                                        repeatable='INHERIT', final=True, hidden=False, when=None, groups=None))
            used.update(['-h', '--help'])
        parent = None
        if rng.random() < .2:
            parent = self.name('parent')
            self.out('%s = argparse.ArgumentParser(add_help=False%s)' % (parent, ', conflict_handler="resolve"' if resolve else ''))
            self.arguments(parent, node, used, False, rng.randint(1, 3))
            kw['parents'] = '[%s]' % parent
        self.out('%s = %s' % (var, create(kw)))
        if parent:
            self.out('del ' + parent)
        if add_help and not resolve and rng.random() < .1 and not parent:
            self.out('%s.remove_help()' % var)
            node['options'].pop(0)
            used -= {'-h', '--help'}
        self.arguments(var, node, used, resolve, rng.randint(0, 5))
        if rng.random() < .15:
            al = rng.sample(['al1', 'al2', 'al3'], rng.randint(1, 2))
            self.out('%s.alias(%r)' % (var, al[0]) if len(al) == 1 else '%s.aliases(%r)' % (var, rng.choice([al, tuple(al)])))
            node['aliases'] = al
        if depth and rng.random() < (.7 if top else .4):
            sub = self.name('s')
            kw = {}
            if rng.random() < .4:
                kw['dest'] = '"cmd"'
            if rng.random() < .3:
                kw['title'] = '"Commands"'
            if rng.random() < .3:
                kw['metavar'] = '"CMD"'
            self.out('%s = %s.add_subparsers(%s)' % (sub, var, ', '.join('%s=%s' % p for p in kw.items())))
            for name in rng.sample(['add', 'remove', 'list-all', 'x', 'Sub', 'with space'], rng.randint(1, 3)):
                more = {}
                h, _ = self.help(more)
                aliases = []
                if rng.random() < .4:
                    aliases = [name[:1] + str(i) for i in range(rng.randint(1, 2))]
                    more['aliases'] = repr(rng.choice([aliases, tuple(aliases)]))
                v, n = self.parser(lambda kw, name=name, more=more: '%s.add_parser(%s)' % (sub, ', '.join([repr(name)] + ['%s=%s' % p for p in list(more.items()) + list(kw.items())])),
                                   name, depth - 1, False, h)
                n['aliases'] = aliases + [a for a in n['aliases'] if a not in aliases]
                node['subs'].append(n)
            if rng.random() < .2:
                self.arguments(var, node, used, resolve, 1)
        return var, node


def specification(rng):
    s = Spec(rng)
    s.out('import argparse, enum, pathlib')
    s.out('class Color(enum.Enum):\n    RED = 1\n    BLUE = 2')
    prog = rng.choice(['tool', 'my-tool', 'tool.py'])
    var, node = s.parser(lambda kw: 'argparse.ArgumentParser(%s)' % ', '.join(['prog=%r' % prog] + ['%s=%s' % p for p in kw.items()]), prog, 2, True)
    return '\n'.join(s.lines) + '\n', var, node


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    return x


def elements(complete):
    """the range of crazy-complete, as elements"""
    c = plain(complete)
    if isinstance(c, list) and c and c[0] == 'range':
        a, b, s = (c[1:] + [1])[:3]
        return ['elements', list(range(a, b + (1 if s > 0 else -1), s))]
    return c


OPTION = ['option_strings', 'metavar', 'complete', 'help', 'optional_arg', 'repeatable', 'final', 'hidden', 'when']
POSITIONAL = ['number', 'metavar', 'complete', 'help', 'repeatable', 'when']


def partition(options, get):
    r = {}
    for i, o in enumerate(options):
        g = get(o)
        if g is not None:
            r.setdefault(g, set()).add(i)
    return sorted(map(sorted, r.values()))


def same_complete(got, want):
    """a range is either a range or the choices of its numbers"""
    got, want = plain(got), plain(want)
    if got == want:
        return repr(got) == repr(want)
    if not got or not want:
        return False
    if want[0] == 'elements':
        return elements(got) == want or got == ['choices', want[1]]
    return elements(got) == elements(want)


def differs(c, node, where=''):
    """-> None or (kind, what)"""
    where += '/' + node['prog']
    for name in ('prog', 'help'):
        if (getattr(c, name) or None) != (node[name] or None):
            return name, '%s: %s is %r instead of %r' % (where, name, getattr(c, name), node[name])
    if list(c.aliases or []) != node['aliases']:
        return 'aliases', '%s: aliases are %r instead of %r' % (where, c.aliases, node['aliases'])
    for name in ('wraps',):
        if getattr(c, name):
            return 'added', '%s: %s is %r' % (where, name, getattr(c, name))
    for kind, got, want, names in (('option', c.options, node['options'], OPTION), ('positional', c.positionals, node['positionals'], POSITIONAL)):
        label = 'option_strings' if kind == 'option' else 'metavar'
        if len(got) != len(want):
            return kind, '%s: the %ss are %r instead of %r' % (where, kind, [getattr(o, label) for o in got], [o[label] for o in want])
        for g, w in zip(got, want):
            for n in names:
                a, b = getattr(g, n), w[n]
                if n == 'complete':
                    if not same_complete(a, b):
                        return kind + ' complete', '%s: completer of %s %r is %r instead of %r' % (where, kind, w[label], a, b)
                elif n == 'help':
                    if (a or None) != (b or None):
                        return kind + ' help', '%s: help of %s %r is %r instead of %r' % (where, kind, w[label], a, b)
                elif plain(a) != plain(b) or type(a) is not type(b):
                    return kind + ' ' + n, '%s: %s of %s %r is %r instead of %r' % (where, n, kind, w[label], a, b)
            if g.nosort or g.capture is not None:
                return 'added', '%s: nosort or capture of %s %r is set' % (where, kind, w[label])
    for o in c.options:
        if o.groups is not None and len(o.groups) != 1:
            return 'groups', '%s: the groups of %r are %r' % (where, o.option_strings, o.groups)
    got, want = partition(c.options, lambda o: o.groups and o.groups[0]), partition(node['options'], lambda o: o['groups'])
    if [g for g in got if len(g) > 1] != [w for w in want if len(w) > 1]:
        return 'groups', '%s: the options of groups are %r instead of %r' % (where, got, want)
    subs = c.subcommands.subcommands if c.subcommands else []
    if [s.prog for s in subs] != [s['prog'] for s in node['subs']]:
        return 'subcommands', '%s: the subcommands are %r instead of %r' % (where, [s.prog for s in subs], [s['prog'] for s in node['subs']])
    for s, n in zip(subs, node['subs']):
        r = differs(s, n, where)
        if r:
            return r
    return None


def load(source, var, file=None):
    use(NORMAL)
    real('utils').warn = lambda *a: None
    with quiet():
        if file:
            return real('argparse_source').load_from_file(file)
        names = {'__name__': 'crazy_complete_test'}
        exec(compile(source, 'definition', 'exec'), names)          # pylint: disable=exec-used
        return real('argparse_source').argumentparser_to_commandline(names[var])


def judge(source, var, node, file=None):
    try:
        c = load(source, var, file)
    except Exception as e:                                      # pylint: disable=broad-except
        return 'fails', '%s: %s' % (type(e).__name__, str(e)[:300])
    return differs(c, node)


def valid(source, var):
    """argparse itself accepts the parser"""
    use(NORMAL)
    names = {'__name__': 'crazy_complete_test'}
    exec(compile(source, 'definition', 'exec'), names)              # pylint: disable=exec-used
    names[var].format_usage()


def random_parsers(b):
    rng = b.rng
    n = 12000 if b.thorough() else 2500
    b.begin('parsers', '%d random parsers: all actions, nargs, kinds of choices and metavars, (nested) groups, parents, subparsers with aliases, suppressed helps, conflict handlers, '
                       'the methods that crazy-complete adds' % n)
    bad = set()
    refused = 0
    for _ in range(n):
        source, var, node = specification(rng)
        try:
            valid(source, var)
        except Exception:                                       # pylint: disable=broad-except
            refused += 1
            continue
        b.case(key=source, sample=source if len(b.samples) < 2 else None)
        r = judge(source, var, node)
        if r and r[0] not in bad:
            bad.add(r[0])
            b.fail('parser:' + r[0], '%s -- of the parser\n%s' % (r[1], source), source=source)
    if refused > n // 3:
        raise AssertionError('%d of %d parsers are refused by argparse' % (refused, n))


@contextlib.contextmanager
def paths():
    import sys
    old, mods = list(sys.path), set(sys.modules)
    try:
        yield
    finally:
        sys.path[:] = old
        for m in set(sys.modules) - mods:
            if not m.startswith('crazy_complete'):
                del sys.modules[m]


def random_files(b):
    """the parser of a Python file is found: one root parser, any number of names for it, guarded and unguarded calls of parse_args"""
    rng = b.rng
    n = 400 if b.thorough() else 60
    b.begin('files', '%d Python files with one root parser; names of the file, names of the parser, with and without a main guard, with SystemExit' % n)
    bad = set()
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(n):
            source, var, node = specification(rng)
            try:
                valid(source, var)
            except Exception:                                   # pylint: disable=broad-except
                continue
            form = rng.choice(['plain', 'twice', 'main', 'exit', 'parse', 'private'])
            if form == 'twice':
                source += 'again = %s\n' % var
            elif form == 'main':
                source += 'if __name__ == "__main__":\n    %s.parse_args()\n' % var
            elif form == 'exit':
                source += 'raise SystemExit(2)\n'
            elif form == 'parse':
                source += '%s.parse_args(["--no-such-option", "--neither"])\n' % var
            elif form == 'private':
                source += '_p = %s\ndel %s\n' % (var, var)
            name = rng.choice(['defs%d.py' % i, 'tool-%d.py' % i, 'script%d' % i, 'with space %d.py' % i, 'json.py', 'test.py', 'a.b%d.py' % i, 'wsgiref.py'])
            sub = os.path.join(tmp, 'd%d' % i)
            os.mkdir(sub)
            file = os.path.join(sub, name)
            with open(file, 'w', encoding='utf-8') as fh:
                fh.write(source)
            b.case(key=(name, source), sample=name if len(b.samples) < 3 else None)
            with paths():
                r = judge(source, var, node, file)
            if r:
                r = ('file:%s:%s' % (form, r[0]), r[1])
            if r and r[0] not in bad:
                bad.add(r[0])
                b.fail(r[0], 'file %s: %s -- of the file\n%s' % (name, r[1], source), source=source)


BOUNDED = [random_parsers, random_files]
