"""C02: converting a definition between its forms loses nothing."""
from pydv import instrument, vc
from . import gen, hostile, shells
from .common import commandline, quiet, real

ds = instrument.mod('dictionary_source')
ys = instrument.mod('yaml_source')
cli = instrument.mod('cli')
INHERIT = cli.INHERIT
NoneType = type(None)

OPTION = {
    'option_strings': (list,), 'metavar': (str, None), 'help': (str, None), 'optional_arg': (bool,),
    'groups': (list, None), 'repeatable': 'xbool', 'final': (bool,), 'hidden': (bool,), 'complete': 'complete',
    'nosort': (bool,), 'when': (str, None), 'capture': (str, None), 'long_opt_arg_sep': (str,)}


def field(v, name, kind):
    if kind == 'xbool':
        return v.xbool(name, INHERIT)
    if kind == 'complete':
        return v.items(name)
    return v.val(name, *kind)


POSITIONAL = {
    'number': (int,), 'metavar': (str, None), 'help': (str, None), 'repeatable': (bool,), 'complete': 'complete',
    'nosort': (bool,), 'when': (str, None), 'capture': (str, None)}
COMMAND = {
    'help': (str, None), 'wraps': (str, None), 'abbreviate_commands': 'xbool', 'abbreviate_options': 'xbool',
    'inherit_options': 'xbool'}


def make_object(v, cls, fields):
    o = object.__new__(cls)
    for n, k in fields.items():
        setattr(o, n, field(v, n, k))
    if 'number' in fields:
        o.number = v.str('number')      # how an integer is written is left to Python
    return o


def option(v):
    """an option with arbitrary valid attributes, written to a dictionary and loaded again, keeps every attribute"""
    o = make_object(v, cli.Option, OPTION)
    got = {}

    class Rec:
        def __init__(self, prog, **kw):
            pass

        def add_option(self, option_strings, **kw):
            got.update(kw, option_strings=option_strings)
    d = ds.option_to_dictionary(o)
    v.patch(ds, 'CommandLine', Rec)
    ds.dictionary_to_commandline({'prog': 'p', 'options': [d]})
    for n in OPTION:
        v.same(got[n], getattr(o, n), n)


def positional(v):
    """a positional with arbitrary valid attributes, written to a dictionary and loaded again, keeps every attribute"""
    o = make_object(v, cli.Positional, POSITIONAL)
    got = {}

    class Rec:
        def __init__(self, prog, **kw):
            pass

        def add_positional(self, number, **kw):
            got.update(kw, number=number)
    d = ds.positional_to_dictionary(o)
    v.patch(ds, 'CommandLine', Rec)
    ds.dictionary_to_commandline({'prog': 'p', 'positionals': [d]})
    for n in POSITIONAL:
        v.same(got[n], getattr(o, n), n)


def command(v):
    """a command with arbitrary valid attributes and any number of options and positionals keeps all of them, in order"""
    c = make_object(v, cli.CommandLine, COMMAND)
    c.aliases = v.choose('aliases', [[], ['a'], ['a', 'b']])
    c.parent = c.subcommands = None
    c.prog = v.str('prog')
    c.options = v.list('options', lambda n: v.val(n))
    c.positionals = v.list('positionals', lambda n: v.val(n))
    # by the contracts of option and positional, their dictionaries stand for them
    v.patch(ds, 'option_to_dictionary', lambda o: o)
    v.patch(ds, 'positional_to_dictionary', lambda o: o)
    d = ds.commandline_to_dictionary(c)
    v.same(d['prog'], c.prog, 'prog')
    v.same(d.get('options', []), c.options if c.options else [], 'options')
    v.same(d.get('positionals', []), c.positionals if c.positionals else [], 'positionals')
    got = {}

    class Rec:
        def __init__(self, prog, **kw):
            got.update(kw, prog=prog)
    v.patch(ds, 'CommandLine', Rec)
    d = {k: x for k, x in d.items() if k not in ('options', 'positionals')}
    ds.dictionary_to_commandline(d)
    for n in list(COMMAND) + ['prog', 'aliases']:
        v.same(got[n], getattr(c, n), n)


def lines_of(text):
    out = [[]]
    for s in vc.SymStr.of(text).segs:
        if isinstance(s, str):
            first, *rest = s.split('\n')
            out[-1].append(first)
            for r in rest:
                out.append([r])
        else:
            out[-1].append(s)
    return [vc.skey(vc.SymStr(l)) for l in out]


def _yaml(what, fields, default, prefix):
    def c(v):
        o = make_object(v, object_class[what], fields)
        v.patch(ys, '_dump', lambda x: dumped(x))
        d = getattr(ds, what + '_to_dictionary')(o)
        out = lines_of(getattr(ys, what + '_to_yaml')(d))
        want = []
        for n in fields:
            x = getattr(o, n)
            if n in prefix:
                line = prefix[n] + (dumped(x) if n != 'number' else x)
            elif v.holds(x == (None if n == 'complete' else default[n])):
                continue
            else:
                line = '  ' + n + ': ' + dumped(x)
            want.append(vc.skey(vc.SymStr.of(line)))
        v.prove(sorted(map(repr, out)) == sorted(map(repr, want)), 'the lines written are exactly those of the set attributes')
        v.prove(out[0] == want[0], 'the first line opens the list item')
    c.__name__ = what + '_yaml'
    c.__doc__ = ('the YAML of an %s has one line per attribute that differs from its default, holding that value '
                 '(the text of a value is _dump of it)' % what)
    return c


object_class = {'option': cli.Option, 'positional': cli.Positional}


def dumped(x):
    return vc.SymStr.var('D_' + x.name)


CONTRACTS = [option, positional, command,
             _yaml('option', OPTION, gen.OPTION_DEFAULTS, {'option_strings': '- option_strings: '}),
             _yaml('positional', POSITIONAL, gen.POSITIONAL_DEFAULTS, {'number': '- number: '})]

# ------------------------------------------------------------------ bounded

def roundtrips(dicts, tmp):
    """yields (form, definition read back as (commands, order))"""
    import json
    import yaml
    y, j, d = real('yaml_source'), real('json_source'), real('dictionary_source')
    cl = commandline(dicts)
    yield 'dictionaries to command line', gen.read(cl)
    yield 'command line to dictionaries', gen.normal(d.commandline_to_dictionaries(cl))
    text = y.commandline_to_yaml(cl)
    yield 'YAML text', gen.normal(yaml.safe_load_all(text))
    yield 'YAML file', gen.read(load(y, tmp + '/x.yaml', text))
    js = j.commandline_to_json(cl)
    yield 'JSON text', gen.normal(json.loads(js))
    yield 'JSON file', gen.read(load(j, tmp + '/x.json', js))
    # through both formats in turn
    cl2 = load(j, tmp + '/x.json', j.commandline_to_json(load(y, tmp + '/x.yaml', text)))
    yield 'YAML to JSON', gen.read(cl2)
    yield 'JSON to YAML', gen.normal(yaml.safe_load_all(y.commandline_to_yaml(cl2)))


def load(source, path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    with quiet():
        return source.load_from_file(path)


def judge(b, dicts, tmp):
    want = gen.normal(dicts)
    form = 'loading'
    done = []
    try:
        for form, got in roundtrips(dicts, tmp):
            r = gen.diff(want[0], got[0]) or gen.diff(want[1], got[1], 'subcommand order')
            if r:
                return form, r
            done.append(form)
    except Exception as e:       # pylint: disable=broad-except
        return 'after ' + (done[-1] if done else form), '%s: %s' % (type(e).__name__, str(e)[:300])
    return None


def shrink(dicts, bad):
    """drop parts while the failure stays"""
    changed = True
    while changed:
        changed = False
        for cand in smaller(dicts):
            try:
                r = bad(cand)
            except Exception:    # pylint: disable=broad-except
                r = None
            if r:
                dicts, changed = cand, True
                break
    return dicts


def smaller(dicts):
    for i in range(len(dicts) - 1, 0, -1):
        p = dicts[i]['prog']
        if not any(d['prog'].startswith(p + ' ') for d in dicts):
            yield dicts[:i] + dicts[i + 1:]
    for i, d in enumerate(dicts):
        for k in d:
            if k != 'prog':
                n = {x: y for x, y in d.items() if x != k}
                yield dicts[:i] + [n] + dicts[i + 1:]
        for key in ('options', 'positionals'):
            for n, o in enumerate(d.get(key) or []):
                yield dicts[:i] + [dict(d, **{key: d[key][:n] + d[key][n + 1:]})] + dicts[i + 1:]
                for k in o:
                    if k not in ('option_strings', 'number'):
                        o2 = {x: y for x, y in o.items() if x != k}
                        yield dicts[:i] + [dict(d, **{key: d[key][:n] + [o2] + d[key][n + 1:]})] + dicts[i + 1:]


def bounded(b):
    rng = b.rng
    with shells.Scratch() as scratch:
        tmp = scratch.dir
        b.begin('every text in every field', '%d texts x 20 fields, all conversions' % len(TEXTS))
        for t in TEXTS:
            for name, dicts in fields(t):
                b.case(key=(name, t))
                r = judge(b, dicts, tmp)
                if r:
                    b.fail('text:%s:%s' % (name, r[0]), '%s with %s = %r: %s' % (r[0], name, t, r[1]), definition=dicts)
        b.begin('values', 'every field with every legal value, alone')
        for name, dicts in values():
            b.case(key=name)
            r = judge(b, dicts, tmp)
            if r:
                b.fail('value:%s:%s' % (name.split('=')[0], r[0]), '%s: %s: %s' % (name, r[0], r[1]), definition=dicts)
        n = 3000 if b.thorough() else 400
        b.begin('random definitions', '%d definitions, up to 3 levels of subcommands' % n)
        for _ in range(n):
            dicts = gen.definition(rng)
            b.case(key=repr(dicts), sample=dicts if len(b.samples) < 2 else None)
            r = judge(b, dicts, tmp)
            if r:
                dicts = shrink(dicts, lambda c: (judge(b, c, tmp) or [None])[0] == r[0])
                r = judge(b, dicts, tmp)
                b.fail('random:%s' % r[0], '%s: %s' % r, definition=dicts)
                if len(b.failures) > 20:
                    return


TEXTS = gen.TEXTS + hostile.WORDS


def fields(t):
    opt = lambda **k: [{'prog': 'p', 'options': [dict(option_strings=['--o'], **k)]}]
    yield 'command help', [{'prog': 'p', 'help': t}]
    yield 'option help', opt(help=t)
    yield 'positional help', [{'prog': 'p', 'positionals': [{'number': 1, 'help': t}]}]
    yield 'positional metavar', [{'prog': 'p', 'positionals': [{'number': 1, 'metavar': t}]}]
    yield 'option metavar', opt(metavar=t, complete=['none'])
    yield 'group', opt(groups=[t, 'x'])
    yield 'choice', opt(complete=['choices', [t, 'x']])
    yield 'choice key', opt(complete=['choices', {t: 'd', 'x': t}])
    yield 'exec', opt(complete=['exec', t])
    yield 'prefix', opt(complete=['prefix', t, ['user']])
    yield 'values', opt(complete=['value_list', {'values': {t: t}}])
    yield 'nested', opt(complete=['combine', [['choices', [t]], ['list', ['choices', {'a': t}]]]])
    if t.strip() and not any(c in t for c in ' \t\n'):
        yield 'alias', [{'prog': 'p', 'aliases': [t]}]
        yield 'wraps', [{'prog': 'p', 'wraps': t}]
        yield 'key', opt(complete=['key_value_pair', '=', [[t, t, None]]])
        if not any(c.isspace() for c in t):
            yield 'prog', [{'prog': t}, {'prog': t + ' ' + t}]
            if ',' not in t:
                yield 'option string', [{'prog': 'p', 'options': [{'option_strings': ['--' + t, '-x']}]}]
    yield 'when', opt(when="option_is --x -- '%s'" % t.replace("'", ''))


def values():
    xb = [True, False, 'INHERIT', None]
    for k in ('abbreviate_commands', 'abbreviate_options', 'inherit_options'):
        for x in xb[:3]:
            yield '%s=%r' % (k, x), [{'prog': 'p', k: x}, {'prog': 'p s', k: x}]
    for k, v in (('metavar', ['', 'X']), ('help', ['']), ('optional_arg', [True, False]), ('groups', [[], ['a'], ['a', 'b']]),
                 ('repeatable', xb[:3]), ('final', [True, False]), ('hidden', [True, False]), ('nosort', [True, False]),
                 ('when', ['has_option -x']), ('capture', ['V']), ('long_opt_arg_sep', ['space', 'equals', 'both', 'INHERIT'])):
        for x in v:
            for base in ({}, {'complete': ['none']}, {'complete': ['file', {'directory': '/x'}]}):
                if k in ('metavar', 'optional_arg') and not base:
                    continue
                yield '%s=%r' % (k, x), [{'prog': 'p', 'options': [dict(base, option_strings=['-o', '--oo'], **{k: x})]}]
    for k, v in (('metavar', ['', 'X']), ('help', ['']), ('repeatable', [True, False]), ('nosort', [True, False]),
                 ('when', ['has_option -x']), ('capture', ['V']), ('number', [1, 7]), ('complete', [['none'], ['user']])):
        for x in v:
            yield 'positional %s=%r' % (k, x), [{'prog': 'p', 'positionals': [dict({'number': 2}, **{k: x})]}]
    for x in (0, -1, 10**20, 0.1, 1e20, 1e-7, 1.5e300, 123456789.123456789, -0.0, 5e-324, 2.0):
        t = 'integer' if isinstance(x, int) else 'float'
        yield 'min=%r' % x, [{'prog': 'p', 'options': [{'option_strings': ['-x'], 'complete': [t, {'min': x}]}]}]
    for x in ('1', '1.5', 'true', 'null', '1e3', '0x10', '0o7', '1_000', '12:30:45', '2020-01-01', '.5', '+1', '<<', 'y', 'n', '!!str'):
        yield 'choice %s' % x, [{'prog': 'p', 'options': [{'option_strings': ['-x'], 'complete': ['choices', [x]]}]}]
        yield 'choice key %s' % x, [{'prog': 'p', 'options': [{'option_strings': ['-x'], 'complete': ['choices', {x: x}]}]}]
    for x in (1, 0, -5):
        yield 'choice int %s' % x, [{'prog': 'p', 'options': [{'option_strings': ['-x'], 'complete': ['choices', [x, {}][:1]]}]}]
        yield 'choice int key %s' % x, [{'prog': 'p', 'options': [{'option_strings': ['-x'], 'complete': ['choices', {x: x}]}]}]
