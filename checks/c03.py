"""C03: generating, converting, validating and copying never change the definition."""
import copy
import os
import pickle

from pydv import instrument, vc
from . import gen
from .c02 import OPTION, POSITIONAL, COMMAND, field, make_object
from .common import SHELLS, commandline, config, generate, quiet, real

cli = instrument.mod('cli')

LEVEL = 'proof'
ASSUMPTIONS = ['constructor arguments are valid (validity is C11 and C12)']
RULE = ('random definitions generated repeatedly in random order, for all shells and several configurations, compared with a fresh '
        'load in a fresh process; a case is one generation or one copied attribute')


def mutable(x, out=None):
    """ids of all mutable containers inside x"""
    out = {} if out is None else out
    if isinstance(x, (list, tuple, dict)):
        if not isinstance(x, tuple):
            out[id(x)] = x
        for y in (x.values() if isinstance(x, dict) else x):
            mutable(y, out)
    return out


def separate(v, a, b, name):
    shared = set(mutable(a)) & set(mutable(b))
    v.prove(not shared, '%s: the copy shares no mutable value with the original' % name)


def completer(v, name):
    x = v.val(name + '.x')
    return v.choose(name, [None, ['list', ['choices', [x, 'b']], {'separator': x}], ['none']])


def lists(v, o, fields):
    for n in ('groups', 'aliases'):
        if n in fields:
            setattr(o, n, v.choose(n, [[], ['g', 'h']]))


def valid(v):
    """the preconditions of the constructors"""
    v.patch(cli, 'is_valid_variable_name', lambda s: True)
    v.patch(cli, 'is_valid_option_string', lambda s: True)
    v.patch(cli, 'is_empty_or_whitespace', lambda s: False)
    v.patch(cli, 'contains_space', lambda s: False)


def copy_option(v):
    """the copy of a command has an equal option for every option, which shares no mutable value with it"""
    valid(v)
    c = cli.CommandLine('p')
    o = make_object(v, cli.Option, OPTION)
    lists(v, o, OPTION)
    o.option_strings = ['-o', '--oo']
    o.complete = completer(v, 'complete')
    o.parent = c
    if o.complete is None:
        o.metavar, o.optional_arg = None, False
    if v.holds(o.hidden):
        o.repeatable = False
    v.assume(vc.SymBool(vc.z3.Or([vc.zb(o.long_opt_arg_sep == x) for x in ('space', 'equals', 'both', 'INHERIT')])))
    c.options = [o]
    d = c.copy()
    v.prove(len(d.options) == 1 and d.options[0] is not o, 'one new option')
    n = d.options[0]
    for k in OPTION:
        v.same(getattr(n, k), getattr(o, k), k)
        separate(v, getattr(n, k), getattr(o, k), k)
    v.prove(n.parent is d, 'the new option belongs to the copy')
    v.prove(c.options == [o] and o.parent is c, 'the original is untouched')


def copy_positional(v):
    """the copy of a command has an equal positional for every positional, which shares no mutable value with it"""
    valid(v)
    c = cli.CommandLine('p')
    o = make_object(v, cli.Positional, POSITIONAL)
    o.number = v.choose('number', [1, 7])
    o.complete = completer(v, 'complete') or ['none']
    o.parent = c
    c.positionals = [o]
    d = c.copy()
    v.prove(len(d.positionals) == 1 and d.positionals[0] is not o, 'one new positional')
    n = d.positionals[0]
    for k in POSITIONAL:
        v.same(getattr(n, k), getattr(o, k), k)
        separate(v, getattr(n, k), getattr(o, k), k)
    v.prove(n.parent is d, 'the new positional belongs to the copy')


def copy_command(v):
    """the copy of a command keeps its own attributes, and its subcommands are the copies of the subcommands, in order"""
    valid(v)
    c = make_object(v, cli.CommandLine, COMMAND)
    c.prog = v.str('prog')
    c.aliases = v.choose('aliases', [[], ['a', 'b']])
    c.options, c.positionals, c.parent, c.subcommands = [], [], None, None
    n = v.choose('subcommands', [0, 1, 2])
    copies = []

    class Sub:
        """a subcommand; its copy() by contract"""
        def __init__(self, name):
            self.prog, self.parent = name, c

        def copy(self):
            s = Sub(self.prog)
            s.parent = None
            copies.append(s)
            return s
    subs = [Sub('s%d' % i) for i in range(n)]
    if n:
        sc = c.subcommands = object.__new__(cli.SubCommandsOption)
        sc.subcommands, sc.parent, sc.number, sc.metavar, sc.help, sc.complete = list(subs), c, 1, 'command', None, ['none']
    d = c.copy()
    v.prove(d is not c, 'a new object')
    for k in list(COMMAND) + ['prog', 'aliases']:
        v.same(getattr(d, k), getattr(c, k), k)
        separate(v, getattr(d, k), getattr(c, k), k)
    if n:
        v.prove(len(copies) == n and len(d.subcommands.subcommands) == n, 'every subcommand is copied once')
        for i, s in enumerate(d.subcommands.subcommands):
            v.prove(s is copies[i] and s.prog == subs[i].prog, 'the copies are in order')
            v.prove(s.parent is d, 'the copied subcommands belong to the copy')
        for s in subs:
            v.prove(s.parent is c, 'the original subcommands keep their parent')
    else:
        v.prove(d.subcommands is None, 'no subcommands')


def _eq(what, cls, fields):
    def c(v):
        a, b = object.__new__(cls), object.__new__(cls)
        which = v.choose('attribute', sorted(fields) + [None])
        for k in fields:
            x = field(v, k, fields[k]) if k not in ('number',) else v.int(k)
            setattr(a, k, x)
            setattr(b, k, x if k != which else (field(v, k + "'", fields[k]) if k != 'number' else v.int(k + "'")))
        if which is None:
            v.prove(a == b, 'objects with equal attributes are equal')
            v.prove(vc.API.not_(a == object()), 'something else is not equal')
        else:
            e = vc.API.truth(a == b)
            if v.holds(getattr(a, which) == getattr(b, which)):
                v.prove(e, 'objects with equal attributes are equal')
            else:
                v.prove(vc.API.not_(e), 'objects that differ in %s are not equal' % which)
    c.__name__ = 'eq_' + what
    c.__doc__ = 'two %ss are equal exactly when every attribute is equal' % what
    return c


def eq_command(v):
    """two command lines are equal exactly when every attribute, option, positional and subcommand is equal"""
    a, b = object.__new__(cli.CommandLine), object.__new__(cli.CommandLine)
    fields = dict(COMMAND, prog=(str,), aliases=(list,), options=(list,), positionals=(list,), subcommands=(list, None))
    which = v.choose('attribute', sorted(fields) + [None])
    for k in fields:
        x = field(v, k, fields[k])
        setattr(a, k, x)
        setattr(b, k, x if k != which else field(v, k + "'", fields[k]))
    a.parent = b.parent = None
    e = vc.API.truth(a == b)
    if which is None or v.holds(getattr(a, which) == getattr(b, which)):
        v.prove(e, 'command lines with equal attributes are equal')
    else:
        v.prove(vc.API.not_(e), 'command lines that differ in %s are not equal' % which)


CONTRACTS = [copy_option, copy_positional, copy_command, _eq('option', cli.Option, OPTION),
             _eq('positional', cli.Positional, POSITIONAL), eq_command]


# ------------------------------------------------------------------ bounded

def in_fresh_process(f):
    """the result of f() in a forked process: module level state of this process is not changed"""
    r, w = os.pipe()
    p = os.fork()
    if not p:
        os.close(r)
        try:
            data = pickle.dumps(f())
        except BaseException as e:       # pylint: disable=broad-except
            data = pickle.dumps(e if isinstance(e, Exception) else RuntimeError(repr(e)))
        with os.fdopen(w, 'wb') as fh:
            fh.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(p, 0)
    return pickle.loads(data)


def snapshot(cl):
    return copy.deepcopy(gen.read(cl))


CONFIGS = [
    ('default', {}),
    ('debug', {'set_debug': True, 'set_keep_comments': True}),
    ('all', {'set_abbreviate_commands': True, 'set_abbreviate_options': True, 'set_inherit_options': True,
             'set_repeatable_options': True}),
    ('disabled', {'disable_hidden': True, 'disable_final': True, 'disable_groups': True, 'disable_repeatable': True,
                  'disable_when': True}),
    ('sep', {'set_long_option_argument_separator': 'equals', 'set_option_stacking': False, 'set_bash_completions_version': (2, 12),
             'set_fish_inline_conditions': True, 'set_line_length': 0}),
]


def first_text(sh, dicts, kw):
    try:
        return generate(sh, commandline(dicts), config(**kw))
    except Exception as e:       # pylint: disable=broad-except
        return 'raised %s: %s' % (type(e).__name__, e)


def conf_state(c):
    return copy.deepcopy(c.__dict__)


def bounded(b):
    rng = b.rng
    n = 120 if b.thorough() else 30
    b.begin('generate repeatedly', '%d definitions, every shell, 5 configurations, random order, compared with fresh processes' % n)
    ds = real('dictionary_source')
    for i in range(n):
        dicts = gen.generatable(rng)
        before = copy.deepcopy(dicts)
        with quiet():
            cl = ds.dictionaries_to_commandline(dicts)
        if dicts != before:
            b.fail('load', 'loading changed the dictionaries: %r became %r' % (before, dicts), definition=before)
            return
        with quiet():
            again = ds.dictionaries_to_commandline(dicts)
        if gen.read(cl) != gen.read(again):
            b.fail('load twice', 'loading the same dictionaries twice gives different definitions', definition=before)
            return
        state = snapshot(cl)
        jobs = [(sh, name, kw) for sh in SHELLS for name, kw in rng.sample(CONFIGS, 2)]
        jobs = jobs + jobs
        rng.shuffle(jobs)
        expected = {}
        for sh, name, kw in set((s, c, None) for s, c, _ in jobs):
            kw = dict(CONFIGS)[name]
            expected[sh, name] = in_fresh_process(lambda sh=sh, kw=kw: first_text(sh, before, kw))
        for sh, name, kw in jobs:
            b.case(key=(i, sh, name))
            conf = config(**kw)
            cs = conf_state(conf)
            try:
                text = generate(sh, cl, conf)
            except Exception as e:       # pylint: disable=broad-except
                text = 'raised %s: %s' % (type(e).__name__, e)
            d = gen.diff(state[0], gen.read(cl)[0]) or gen.diff(state[1], gen.read(cl)[1])
            if d or dicts != before:
                b.fail('generate changes definition:%s' % sh, 'generating the %s script (%s configuration) changed the definition: %s' % (
                    sh, name, d or 'the dictionaries'), definition=before, shell=sh, config=kw)
                return
            if cs != conf_state(conf):
                b.fail('generate changes config:%s' % sh, 'generating the %s script changed the configuration object' % sh,
                       definition=before, shell=sh, config=kw)
                return
            if text != expected[sh, name]:
                b.fail('generate differs:%s' % sh, 'the %s script (%s configuration) differs from that of a fresh load: %s' % (
                    sh, name, text_diff(expected[sh, name], text)), definition=before, shell=sh, config=kw, jobs=[j[:2] for j in jobs])
                return
    conversions(b)
    copies(b)
    equality(b)


def text_diff(a, b):
    for i, (x, y) in enumerate(zip(a.split('\n'), b.split('\n'))):
        if x != y:
            return 'line %d: %r instead of %r' % (i + 1, y[:200], x[:200])
    return 'length %d instead of %d' % (len(b), len(a))


def conversions(b):
    rng = b.rng
    b.begin('convert and validate', 'conversion and validation functions applied twice to random definitions')
    ds, js, ys, cv = (real(m) for m in ('dictionary_source', 'json_source', 'yaml_source', 'completion_validator'))
    funcs = [('commandline_to_dictionaries', ds.commandline_to_dictionaries), ('commandline_to_json', js.commandline_to_json),
             ('commandline_to_yaml', ys.commandline_to_yaml), ('validate_commandlines', cv.validate_commandlines),
             ('copy', lambda c: c.copy()), ('get_options', lambda c: [x.get_options(True) for x in c.get_all_commandlines()]),
             ('repr', repr)]
    for i in range(200 if b.thorough() else 60):
        dicts = gen.definition(rng)
        cl = commandline(dicts)
        state = snapshot(cl)
        for name, f in funcs + funcs:
            b.case(key=('conv', i, name))
            try:
                f(cl)
            except real('errors').CrazyError:
                pass
            d = gen.diff(state[0], gen.read(cl)[0]) or gen.diff(state[1], gen.read(cl)[1])
            if d:
                b.fail('convert:%s' % name, '%s changed the definition: %s' % (name, d), definition=dicts)
                return


def attributes(cl):
    """every attribute of every object of a command line: (label, object, attribute)"""
    for path, c in walk(cl):
        for k in list(gen.COMMAND_DEFAULTS) + ['prog']:
            yield '%s.%s' % (path, k), c, k
        for i, o in enumerate(c.options):
            for k in list(gen.OPTION_DEFAULTS) + ['option_strings']:
                yield '%s.options[%d].%s' % (path, i, k), o, k
        for i, p in enumerate(c.positionals):
            for k in list(gen.POSITIONAL_DEFAULTS) + ['number']:
                yield '%s.positionals[%d].%s' % (path, i, k), p, k


def walk(c, path=''):
    path = (path + ' ' + c.prog).strip()
    yield path, c
    if c.subcommands:
        for s in c.subcommands.subcommands:
            yield from walk(s, path)


def changed(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    if isinstance(x, str):
        return x + '-changed' if x not in ('space', 'equals', 'both', 'INHERIT') else ('space' if x != 'space' else 'both')
    if isinstance(x, (list, tuple)):
        return list(x) + ['changed']
    return 'was none'


def mutate_inside(x, done):
    """changes every mutable container inside x in place"""
    if isinstance(x, list) and id(x) not in done:
        done.add(id(x))
        for y in x:
            mutate_inside(y, done)
        x.append('mutated')
    elif isinstance(x, dict) and id(x) not in done:
        done.add(id(x))
        for y in x.values():
            mutate_inside(y, done)
        x['mutated'] = 1


def copies(b):
    rng = b.rng
    b.begin('copies', 'every attribute of a copy changed in place and by assignment')
    for i in range(150 if b.thorough() else 40):
        dicts = gen.definition(rng)
        cl = commandline(dicts)
        state = snapshot(cl)
        d = cl.copy()
        b.case(key=('copy', i))
        r = gen.diff(state[0], gen.read(d)[0]) or gen.diff(state[1], gen.read(d)[1])
        if r:
            b.fail('copy differs', 'the copy differs from the original: %s' % r, definition=dicts)
            return
        if not (d == cl and cl == d):
            b.fail('copy unequal', 'a copy is not equal to its original', definition=dicts)
            return
        if set(map(id, (x for _, x in walk(d)))) & set(map(id, (x for _, x in walk(cl)))):
            b.fail('copy shares commands', 'the copy shares command objects with the original', definition=dicts)
            return
        for c in [x for _, x in walk(d)]:
            for o in c.options + c.positionals:
                if o.parent is not c:
                    b.fail('copy parent', 'an option of the copy belongs to another command', definition=dicts)
                    return
        done = set()
        for label, obj, k in list(attributes(d)):
            b.case()
            mutate_inside(getattr(obj, k), done)
            setattr(obj, k, changed(getattr(obj, k)))
        for _, c in list(walk(d)):
            c.options.append(None)
            c.positionals.append(None)
            if c.subcommands:
                c.subcommands.subcommands.clear()
        r = gen.diff(state[0], gen.read(cl)[0]) or gen.diff(state[1], gen.read(cl)[1])
        if r:
            b.fail('copy shared', 'changing a copy changed the original: %s' % r, definition=dicts)
            return


def equality(b):
    rng = b.rng
    b.begin('equality', 'every single attribute of random definitions changed')
    for i in range(100 if b.thorough() else 30):
        dicts = gen.definition(rng)
        cl = commandline(dicts)
        for label, obj, k in attributes(cl):
            b.case(key=('eq', i, label))
            other = commandline(dicts)
            _, o2, _ = next(t for t in attributes(other) if t[0] == label)
            if not cl == other:
                b.fail('unequal', 'two loads of the same definition are not equal', definition=dicts)
                return
            setattr(o2, k, changed(getattr(o2, k)))
            if cl == other or other == cl:
                b.fail('equal:%s' % k, 'command lines are equal although %s is %r in one and %r in the other' % (
                    label, getattr(obj, k), getattr(o2, k)), definition=dicts, attribute=label)
                return
